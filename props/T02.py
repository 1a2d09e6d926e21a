"""T02: the notation of tiles.

Scanning: finditer is the library's leftmost, non-overlapping search, a function of the pattern.  The pattern the module has
compiled is translated to a regular expression of the solver on every run and proved to have the words of the specification
([0-9]+[mps] and [1-7]+z), over all texts; no word is a proper prefix of another, so at each place there is at most one match
and neither greediness nor the order of alternatives matters.  tiles_from_string is proved, for any number of matches of any
length, to hand out one tile per digit of each match, in order.  tile_set_from_string is their multiset, sorted (T03).

Printing: str(s) is proved to be, suit by suit, the digits of the tiles as often as held, then the letter; such a text is a
sequence of words (and of letters alone, where a suit has only entries of count zero, which match nowhere), so it is scanned
word by word, and the tile of each digit is the tile printed."""
from props.lib import *
from props import tilesets as ts
from pv.model import Abstract, ASeq, Chunk
from pv.core import RunText, Obligation, SInt
from pv.shims import PRegex
from props.S04 import resort_contract
import re

U = 'container.utils.'
FUNCS = [U + f for f in ('_tile_group_regex', 'tiles_from_string', 'tile_set_from_string')] + \
    ['container.set.TileSet.__str__', 'container.set.TileSet._gen_str_iter']
TRUSTED = ['re: finditer finds the leftmost, non-overlapping matches of the words of the pattern', "''.join joins its pieces",
           'collections.Counter(iterable) counts the elements (model)']
ASSUMPTIONS = ['the text is a str; counts of a multiset are not negative', 're_sort by its contract (T03)']


# ---------------------------------------------------------------- the pattern
def chars(ranges):
    """The texts of one character within the ranges."""
    rs = [z3.Range(chr(a), chr(b)) if a != b else z3.Re(chr(a)) for a, b in ranges]
    return rs[0] if len(rs) == 1 else z3.Union(*rs)


TOP = 0x2FFFF          # the largest character of the solver's texts


def category(name):
    test = {'CATEGORY_DIGIT': str.isdecimal, 'CATEGORY_SPACE': str.isspace}.get(name)
    if test is None:
        raise Unsupported('%s in a pattern' % name)
    out = []
    for c in range(TOP + 1):
        if 0xD800 <= c < 0xE000:
            continue
        if test(chr(c)):
            if out and out[-1][1] == c - 1:
                out[-1] = (out[-1][0], c)
            else:
                out.append((c, c))
    return out


def inverse(ranges):
    out, at = [], 0
    for a, b in sorted(ranges):
        if a > at:
            out.append((at, a - 1))
        at = max(at, b + 1)
    if at <= TOP:
        out.append((at, TOP))
    return out


def to_regex(tree):
    """A parsed pattern (re._parser) as a regular expression of the solver."""
    def seq(items):
        rs = [one(str(op), av) for op, av in items]
        if not rs:
            return z3.Re('')
        return rs[0] if len(rs) == 1 else z3.Concat(*rs)

    def one(op, av):
        if op == 'LITERAL':
            return chars([(av, av)])
        if op == 'NOT_LITERAL':
            return chars(inverse([(av, av)]))
        if op == 'IN':
            rs, neg_ = [], False
            for o, v in av:
                o = str(o)
                if o == 'NEGATE':
                    neg_ = True
                elif o == 'LITERAL':
                    rs.append((v, v))
                elif o == 'RANGE':
                    rs.append(v)
                elif o == 'CATEGORY':
                    rs += category(str(v))
                else:
                    raise Unsupported('%s in a pattern' % o)
            return chars(inverse(rs) if neg_ else rs)
        if op == 'BRANCH':
            rs = [seq(x) for x in av[1]]
            return rs[0] if len(rs) == 1 else z3.Union(*rs)
        if op == 'SUBPATTERN':
            if av[1] or av[2]:
                raise Unsupported('flags in a pattern')
            return seq(av[3])
        if op in ('MAX_REPEAT', 'MIN_REPEAT'):
            lo, hi, r = av[0], av[1], seq(av[2])
            if str(hi) == 'MAXREPEAT':
                return z3.Star(r) if lo == 0 else z3.Plus(r) if lo == 1 else z3.Concat(z3.Loop(r, lo, lo), z3.Star(r))
            return z3.Loop(r, lo, hi)
        raise Unsupported('%s in a pattern' % op)
    return seq(tree)


def spec_regex():
    d, h = z3.Range('0', '9'), z3.Range('1', '7')
    return z3.Union(z3.Concat(z3.Plus(d), z3.Union(z3.Re('m'), z3.Re('p'), z3.Re('s'))), z3.Concat(z3.Plus(h), z3.Re('z')))


def pattern_name():
    """The name of the compiled pattern of the module."""
    mod = M('mahjong.container.utils')
    ns = [n for n, v in vars(mod).items() if isinstance(v, (re.Pattern, PRegex))]
    if len(ns) != 1:
        raise Unsupported('which pattern?')
    return ns[0]


def h_pattern():
    p = getattr(M('mahjong.container.utils'), pattern_name())
    p = getattr(p, 'rx', p)
    if p.flags & ~re.UNICODE or not isinstance(p.pattern, str):
        raise Unsupported('flags of the pattern')
    import re._parser as sre
    code, spec = to_regex(sre.parse(p.pattern)), spec_regex()
    s, t = z3.String('text'), z3.String('rest')
    E.witness_fn = lambda ev: {'case': {'text': str(ev(s))}}
    text = None

    def prove(name, cond):
        sol = z3.Solver()
        sol.set('timeout', 60000)
        sol.add(z3.Not(cond))
        r = sol.check()
        if r == z3.sat:
            w = sol.model().eval(s, model_completion=True).as_string()
            w = re.sub(r'\\u\{([0-9a-f]+)\}', lambda m: chr(int(m.group(1), 16)), w)
            E.obligations.append(Obligation(name, 'refuted', 'text %r' % w, {'case': {'text': w}}))
        else:
            E.obligations.append(Obligation(name, 'proved' if r == z3.unsat else 'unknown', 'regular expressions'))
    prove('every word of the pattern is a group of the notation', z3.Implies(z3.InRe(s, code), z3.InRe(s, spec)))
    prove('every group of the notation is a word of the pattern', z3.Implies(z3.InRe(s, spec), z3.InRe(s, code)))
    more = z3.Concat(spec, z3.Plus(z3.AllChar(z3.ReSort(z3.StringSort()))))
    prove('no group is the beginning of another: at most one match at each place',
          z3.Not(z3.And(z3.InRe(s, spec), z3.InRe(s, more))))
    prove('a group begins with a digit and has only one letter, its last character',
          z3.Implies(z3.InRe(s, spec), z3.InRe(s, z3.Concat(z3.Plus(z3.Range('0', '9')), z3.Union(*[z3.Re(c) for c in 'mpsz'])))))
    E.cover('pattern')


# ---------------------------------------------------------------- tiles_from_string
class GroupText(Abstract):
    """The text of a match: n digits (n >= 1) and a letter."""

    def __init__(self, n, color, digit):
        self.n, self.color, self.digit = n, color, digit

    def __pv_len__(self):
        return self.n + 1

    def __getitem__(self, i):
        if isinstance(i, SInt) and E.branch(i == self.n) or isinstance(i, int) and i == -1:
            return self.color
        if isinstance(i, slice) and isinstance(i.stop, SInt) and i.start in (None, 0) and i.step is None and E.branch(i.stop == self.n):
            return ASeq(self.n, self.digit, 'digits')
        if isinstance(i, slice) and (i.start, i.stop, i.step) in ((None, -1, None), (0, -1, None)):
            return ASeq(self.n, self.digit, 'digits')
        raise Unsupported('another part of a match')

    def __iter__(self):
        raise Unsupported('the characters of a match')


class Match(Abstract):
    def __init__(self, text):
        self.text = text

    def group(self, *ks):
        if ks not in ((), (0,)):
            raise Unsupported('groups of a match')
        return self.text

    def __getitem__(self, k):
        return self.group(k)


class Matches(Abstract):
    pv_abstract = True

    def __init__(self):
        self.n = fresh_int('matches', 0)

    def pv_comp(self, kind, elt, cond):
        raise Unsupported('the matches as a list')

    def __iter__(self):
        raise Unsupported('the matches, without an invariant')


class Listed:
    """What is handed out for the match at hand: the number of its digits that have been handed out."""
    now, pos, text = None, 0, None

    def begin(self):
        self.text = fresh_int('digits', 1)
        self.color = E.choose(['m', 'p', 's', 'z'])
        self.digits = {}
        self.now = GroupText(self.text, self.color, self.digit)
        self.pos = 0
        return self.now

    def digit(self, k):
        """Digit k of the match (an arbitrary one)."""
        key = k if isinstance(k, int) else num(k).get_id()
        if key not in self.digits:
            self.digits[key] = E.choose(list('1234567' if self.color == 'z' else '0123456789')), k
        return self.digits[key][0]

    def is_tile(self, tile, d):
        D = M('mahjong.tile.definition')
        n = int(d)
        E.prove('the tile of the digit', type(tile) is (D.AkaTile if n == 0 else D.Tile) and tile.number == n and
                tile.color == self.color and tile == (D.Tile(n, self.color) if n else D.Tile(5, self.color)))

    def take(self, x):
        E.prove('tiles are only handed out for a match', self.now is not None)
        if isinstance(x, Chunk):
            seq = x[0]
            E.prove('all digits of the match, once', And(self.pos == 0, seq.n == self.text))
            k = fresh_int('place', 0)
            E.assume(k < self.text)
            self.is_tile(seq.at(k), self.digit(k))
            self.pos = self.text
        else:
            E.prove('no more tiles than digits', self.pos < self.text)
            self.is_tile(x, self.digit(self.pos))
            self.pos = self.pos + 1


class MatchCut(Cut):
    name = 'matches'

    def __init__(self, log):
        self.l = log

    def match(self, seq, loc):
        return isinstance(seq, Matches)

    def length(self, seq, loc):
        return seq.n

    def indices(self, seq, loc):
        return [fresh_int('index', 0)]

    def element(self, seq, i, loc):
        E.assume(i < seq.n)
        return True, Match(self.l.begin())

    def invariant(self, seq, i, loc):
        return [('one tile for each digit of the matches so far', self.l.now is None or self.l.pos == self.l.text)]

    def havoc(self, seq, i, loc):
        self.l.now = None
        return {}


class DigitCut(Cut):
    name = 'digits'

    def __init__(self, log):
        self.l = log

    def match(self, seq, loc):
        return isinstance(seq, ASeq) and seq.tag == 'digits'

    def length(self, seq, loc):
        return seq.n

    def indices(self, seq, loc):
        return [fresh_int('index', 0)]

    def element(self, seq, i, loc):
        E.assume(i < seq.n)
        return True, seq.at(i)

    def invariant(self, seq, i, loc):
        return [('one tile for each digit so far', self.l.pos == i)]

    def havoc(self, seq, i, loc):
        self.l.pos = i
        return {}


def h_tiles():
    mod = M('mahjong.container.utils')
    log = Listed()
    token = OpaqueStr('token')

    class P(Abstract):
        def finditer(self, text, *a):
            E.prove('the whole text is scanned', text is token and not a)
            return Matches()
    stub(mod, pattern_name(), P())
    E.notes['yield_chunks'] = True
    CUTS['tiles_from_string'] = [MatchCut(log), DigitCut(log)]
    it = mod.tiles_from_string(token)
    for x in it:
        log.take(x)
        E.cover('tiles')
    E.prove('nothing else is handed out', log.now is None)
    E.cover('end')


class Counted(Abstract):
    """A sequence of tiles known by how often each kind is in it."""
    pv_abstract = True
    order_ok = False

    def __init__(self, tiles):
        self.tiles = tiles
        self.c = [fresh_int('count', 0) for _ in tiles]

    def pv_counts(self):
        return list(zip(self.tiles, self.c))      # in no particular order

    def __iter__(self):
        raise Unsupported('the tiles one by one')


def h_multiset():
    mod, SE = M('mahjong.container.utils'), M('mahjong.container.set')
    tiles = ts.tiles34()
    resort_contract(SE)
    token = OpaqueStr('token')
    c = Counted(tiles)

    def tiles_from_string(text):
        E.prove('the tiles of the text', text is token)
        return c
    stub(mod, 'tiles_from_string', tiles_from_string)
    r = mod.tile_set_from_string(token)
    E.prove('a TileSet', type(r) is SE.TileSet)
    E.prove('only tiles', set(r._pv_d) <= set(tiles))
    E.prove('the multiset of the tiles', And([a == b for a, b in zip(ts.counts(r, tiles), c.c)]))
    for t in tiles:
        p, n = r._pv_get(t)
        E.prove('no entries of count zero', Implies(b_(p), n > 0))
    E.prove('in tile order', r._pv_order and list(r._pv_d) == [t for t in tiles if t in r._pv_d])
    E.cover('multiset')


def b_(g):
    return wrapb(as_z3bool(ts._g(g)))


# ---------------------------------------------------------------- printing
class Text:
    """The text printed so far, as counts over its slots: the digits of each suit in tile order, then its letter."""

    def __init__(self, keys):
        self.slots = []
        for c in 'mpsz':
            self.slots += [(str(t.number), t) for t in keys if t.color == c] + [(c, None)]
        self.n = {}
        self.last = -1
        self.base = 0        # where the suit at hand begins: a suit that is passed over has count 0 everywhere

    def add(self, piece):
        text, n = (piece.text, piece.n) if isinstance(piece, RunText) else (piece, 1)
        if not isinstance(text, str) or len(text) > 1:
            if isinstance(text, str) and n == 1:
                for ch in text:
                    self.add(ch)
                return
            raise Unsupported('a piece of the text')
        if text == '':
            return
        k = self.last
        if k < self.base or self.slots[k][0] != text:
            k = max(k + 1, self.base)
            while k < len(self.slots) and self.slots[k][0] != text:
                k += 1
        E.prove('the digits of a suit in order and then its letter', k < len(self.slots))
        self.n[k] = self.n.get(k, 0) + n
        self.last = k


class MembersCut(Cut):
    """Over the entries of a suit: those before are printed."""
    name = 'entries of a suit'

    def __init__(self, text):
        self.x = text

    def match(self, seq, loc):
        return isinstance(seq, GSeq) and seq.items and all(isinstance(v, tuple) and len(v) == 2 and
                                                           any(v[0] is t for _, t in self.x.slots if t is not None)
                                                           for _, v in seq.items)

    def enter(self, seq, loc):
        self.pre = dict(self.x.n), self.x.last
        self.slot = [next(k for k, (_, t) in enumerate(self.x.slots) if t is v[0]) for _, v in seq.items]
        self.x.base = self.slot[0] - next(i for i in range(40) if self.slot[0] - i == 0 or self.x.slots[self.slot[0] - i - 1][1] is None)

    def want(self, seq, i):
        n = dict(self.pre[0])
        for k, (g, (t, c)) in list(zip(self.slot, seq.items))[:i]:
            n[k] = n.get(k, 0) + ts.gite(g, ite(c > 0, c, 0), 0)
        return n

    def invariant(self, seq, i, loc):
        w = self.want(seq, i)
        ks = set(w) | set(self.x.n)
        return [('the entries so far are printed', And([w.get(k, 0) == self.x.n.get(k, 0) for k in ks])),
                ('in order', self.x.last <= max([self.pre[1]] + self.slot[:i]))]

    def havoc(self, seq, i, loc):
        self.x.n = self.want(seq, i)
        self.x.last = max([self.pre[1]] + self.slot[:i])
        return {}


class Drained(Abstract):
    """The pieces, as a list: already taken into account."""

    def __init__(self, at):
        self.at = at


def h_print():
    SE, D = M('mahjong.container.set'), M('mahjong.tile.definition')
    resort_contract(SE)
    tiles = ts.tiles34()
    red = E.choose(list(range(8)))
    keys = [D.AkaTile(0, t.color) if t.number == 5 and t.color != 'z' and red >> 'mps'.index(t.color) & 1 else t for t in tiles]
    s = ts.sym_counter(SE.TileSet, 's', keys, 0)
    c0 = ts.counts(s, keys)
    has = [s._pv_get(t)[0] for t in keys]
    text = Text(keys)

    def join(sep, parts):
        E.prove('the pieces are joined without a separator', sep == '')
        if not isinstance(parts, Drained):
            for p in parts:
                text.add(p)
        return text
    E.notes['join_hook'] = join

    def drain(gen):         # the pieces as a list: taken one by one, as the joining would
        got = Drained(text.last)
        if got.at != -1:
            raise Unsupported('two lists of pieces')
        for p in gen:
            text.add(p)
        return got
    E.notes['drain_hook'] = drain
    CUTS['TileSet._gen_str_iter'] = [MembersCut(text)]
    r = s.__str__()
    E.prove('the text', r is text)
    E.prove('printing keeps the counts', And([a == b for a, b in zip(ts.counts(s, keys), c0)]))
    for k, (ch, t) in enumerate(text.slots):
        n = text.n.get(k, 0)
        if t is not None:
            i = [j for j, x in enumerate(keys) if x is t][0]
            E.prove('each tile as often as it is held', n == c0[i])
        else:
            of = [j for j, x in enumerate(keys) if x.color == ch]
            E.prove('the letter of a suit with tiles', Implies(Or([c0[j] > 0 for j in of]), n == 1))
            E.prove('a letter only for entries of the suit', Implies(n > 0, Or([b_(has[j]) for j in of])))
            E.prove('a letter once', And(n >= 0, n <= 1))
    for t in keys:
        # the digit and the letter printed for a tile are those it is parsed from (harness tiles)
        d = str(t.number)
        E.prove('digits of the notation', d in ('1234567' if t.color == 'z' else '0123456789') and len(d) == 1)
        back = D.AkaTile(0, t.color) if d == '0' else D.Tile(int(d), t.color)
        E.prove('the tile parsed is the tile printed', back == t and hash(back) == hash(t))
    E.cover('printed')


def harnesses(tier):
    return [Harness('pattern', h_pattern, FUNCS, ['pattern']),
            Harness('tiles', h_tiles, FUNCS, ['tiles', 'end']),
            Harness('multiset', h_multiset, FUNCS, ['multiset']),
            Harness('printing', h_print, FUNCS, ['printed'])]
