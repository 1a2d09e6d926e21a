"""K01: the judgement of a discard, for any hand (a symbolic set of physical tiles), any set of invisible tiles and any discard.

Contracts used: the batch analysis of S03 and the analysis of one hand of S01/S02 are arbitrary functions step(pattern, kind),
useful(pattern, kind); what is proved is everything the report computes from them."""
from props.lib import *
from props import tilesets as ts
from pv.model import SymSet, conj, disj, neg, truth, is_true, is_false, gite
from pv.core import PathEnd

RC = 'mahjong.tenhou_record_check'
FUNCS = ['tenhou_record_check.' + f for f in ('discard_reasoning', 'reasoning_merge', 'reduce_useful', 'reasoning_key', 'one_win_reasoning',
         'all_win_type_reasoning', 'reasoning_discards', 'convert_to_reasoning', 'ReasoningItem.norm')]
TRUSTED = ['itertools.groupby / chain, sorted and list.sort on conditional sequences (pv/model.py)', 'properties of ** on natural numbers']
ASSUMPTIONS = ['the analyses of S01-S03 by their contracts: batch analysis lists exactly the discards that keep the waiting step of the hand, '
               'which is the least step of its discards, and at least one',
               'a hand is a set of physical tiles (U04)']


def ids_of(k):
    return range(4 * k, 4 * k + 4)


def setup():
    ts.install()
    R, D = M(RC), M('mahjong.tile.definition')
    c = type('Ctx', (), {})()
    c.R, c.tiles = R, ts.tiles34()
    c.ix = {t: i for i, t in enumerate(c.tiles)}
    return c


def inv_set(name):
    b = [z3.Bool(E.fresh_name('%s.%d' % (name, i))) for i in range(136)]
    return SymSet(dict(enumerate(b))), b


def physical(c, useful, ib):
    """Number of physical tiles of useful kinds that are invisible."""
    n = 0
    for t in useful.g:
        m = 0
        for j in ids_of(c.ix[t]):
            m = m + gite(ib[j], 1, 0)
        n = n + gite(useful.has(t), m, 0)
    return n


def sum_of(bs):
    n = 0
    for b in bs:
        n = n + gite(b, 1, 0)
    return n


def total(xs):
    return SInt(z3.Sum([num(x) for x in xs]))


# ---------------------------------------------------------------- reasoning_merge over reduce_useful
def h_merge(n):
    def h():
        c = setup()
        inv, ib = inv_set('invisible')
        items, us, ss = [], [], []
        for k in range(n):
            u = {t: z3.Bool(E.fresh_name('useful%d.%s' % (k, t))) for t in c.tiles}
            s = fresh_int('step%d' % k, -1)
            us.append(u)
            ss.append(s)
            items.append(c.R.ReasoningItem(c.tiles[3], s, SymSet(u), fresh_int('count%d' % k, 0)))
        ref = [dict(vars(i)) for i in items]
        refu = [dict(i.useful_tiles.g) for i in items]
        r = c.R.reasoning_merge(list(items), inv)
        E.cover('merged')
        E.prove('an item of its own', all(r is not i for i in items) and type(r) is c.R.ReasoningItem)
        E.prove('of the same discard', r.discard_tile is c.tiles[3])
        m = fresh_int('least')
        E.assume(And(And([m <= s for s in ss]), Or([m == s for s in ss])))
        E.prove('the lowest step', r.waiting_step == m)
        E.prove('useful tiles are a set', isinstance(r.useful_tiles, (SymSet, set, frozenset)))
        got = r.useful_tiles if isinstance(r.useful_tiles, SymSet) else SymSet({x: True for x in r.useful_tiles})
        for i, t in enumerate(c.tiles):
            w = disj(*[conj(truth(s == m), u[t]) for s, u in zip(ss, us)])
            E.prove('useful for one of the patterns with the lowest step', Iff(_b(got.has(t)), _b(w)))
        E.prove('no other useful tiles', set(got.g) <= set(c.tiles))
        E.prove('every physical tile still invisible is counted once', r.useful_tiles_count == physical(c, got, ib))
        E.prove('the items stay as they were', And([same_item(i, v, u) for i, v, u in zip(items, ref, refu)]))
        E.prove('the invisible tiles stay as they were', And([Iff(_b(inv.has(j)), _b(ib[j])) for j in range(136)]))
    return h


def same_item(i, v, u):
    return vars(i) == v if False else And([vars(i).get(k) is x for k, x in v.items()] + [Iff(_b(i.useful_tiles.has(t)), _b(u.get(t, False))) for t in
                                                                                          set(u) | set(i.useful_tiles.g)])


def _b(x):
    return x if isinstance(x, (bool, SBool)) else wrapb(x)


def h_key():
    c = setup()
    a, b = fresh_int('step'), fresh_int('count')
    k = c.R.reasoning_key(c.R.ReasoningItem(c.tiles[0], a, set(), b))
    E.prove('first the lowest step, then the most tiles', isinstance(k, tuple) and len(k) == 2 and And(k[0] == a, k[1] == -b))
    E.cover('key')


def h_norm():
    """norm shows the tiles as text, once."""
    c = setup()
    D = M('mahjong.tile.definition')
    tile = E.choose(c.tiles + [D.AkaTile(0, s) for s in 'mps'])
    u = {t: z3.Bool(E.fresh_name('useful.%s' % t)) for t in c.tiles}
    st, n = fresh_int('step'), fresh_int('count')
    it = c.R.ReasoningItem(tile, st, SymSet(u), n)
    for _ in range(2):
        it.norm()
        E.prove('the discard as text', it.discard_tile == [str(tile)])
        g = it.useful_tiles
        E.prove('useful tiles as a list in order', isinstance(g, GSeq) and g.order_ok)
        E.prove('every useful tile as text', And([len(g.items) <= 34] + [Iff(_b(disj(False, *[q for q, v in g.items if v == str(t)])), _b(u[t]))
                                                                        for t in c.tiles]))
        E.prove('numbers stay', it.waiting_step is st and it.useful_tiles_count is n)
    E.cover('norm')


# ---------------------------------------------------------------- one hand
def sym_hand(c, name='hand'):
    """A hand as a set of physical tiles."""
    s, b = inv_set(name)
    return s, b


def h_convert():
    c = setup()
    inv, ib = inv_set('invisible')
    u = {t: z3.Bool(E.fresh_name('useful.%s' % t)) for t in c.tiles}
    st = fresh_int('step')
    us = SymSet(u)
    t0 = E.choose([c.tiles[4], c.tiles[30]])
    r = c.R.convert_to_reasoning(inv, t0, us, st)
    E.prove('of the discard and step', r.discard_tile is t0 and r.waiting_step is st)
    E.prove('with the useful tiles', isinstance(r.useful_tiles, SymSet) and And([Iff(_b(r.useful_tiles.has(t)), _b(u[t])) for t in c.tiles]))
    E.prove('every physical tile still invisible is counted once', r.useful_tiles_count == physical(c, r.useful_tiles, ib))
    E.cover('convert')


def h_discards():
    """reasoning_discards: the analysis of the hand without the discard."""
    c = setup()
    D, S = M('mahjong.tile.definition'), M('mahjong.container.set')
    hand = ts.sym_counter(S.TileSet, 'hand', c.tiles, 0)
    hc = ts.counts(hand, c.tiles)
    inv, ib = inv_set('invisible')
    tile = E.choose(c.tiles + [D.AkaTile(0, s) for s in 'mps'])
    win = object()
    st, us = fresh_int('step'), SymSet({t: z3.Bool(E.fresh_name('useful.%s' % t)) for t in c.tiles})
    made = []

    class Analysis:
        def __init__(self, pattern):
            E.prove('of the pattern given', pattern is win)

        def waiting_and_useful_tiles(self, h, *a, **k):
            made.append(1)
            E.prove('with the defaults', not a and not k)
            E.prove('of the hand without one copy of the discard', And([x == ite(y > (1 if t == tile else 0), y - (1 if t == tile else 0), 0)
                                                                      for t, x, y in zip(c.tiles, ts.counts(h, c.tiles), hc)]))
            return st, us
    stub(c.R, 'HeuristicPatternMatchWaiting', Analysis)
    out = object()

    def convert(i, t, u, s):
        E.prove('converted as it is', i is inv and t is tile and u is us and s is st)
        return out
    stub(c.R, 'convert_to_reasoning', convert)
    E.prove('the result', c.R.reasoning_discards(hand, inv, tile, win) is out and made == [1])
    E.prove('the hand keeps its counts', And([a == b for a, b in zip(ts.counts(hand, c.tiles), hc)]))
    E.cover('discard')


def h_one():
    """one_win_reasoning: a complete hand lists every discard, otherwise what the batch analysis lists."""
    c = setup()
    S = M('mahjong.container.set')
    hand = ts.sym_counter(S.TileSet, 'hand', c.tiles, 1)
    inv, ib = inv_set('invisible')
    complete = E.choose([True, False])
    asked = []

    class Win:
        def match(self, h):
            E.prove('of the hand', h is hand)
            asked.append(1)
            return complete
    win = Win()
    batch = GSeq([(z3.Bool(E.fresh_name('listed.%s' % t)), (t, fresh_int('step'), SymSet({}))) for t in c.tiles], True, 'batch')

    class Analysis:
        def __init__(self, pattern):
            E.prove('of the pattern given', pattern is win)

        def batch_waiting_and_useful_tiles(self, h, *a, **k):
            E.prove('the batch of the hand', h is hand and not a and not k)
            return batch
    stub(c.R, 'HeuristicPatternMatchWaiting', Analysis)
    made = []

    def discards(h, i, t, w):
        E.prove('a discard of the hand', h is hand and i is inv and w is win)
        made.append((object(), 'discard', t))
        return made[-1][0]

    def convert(i, t, u, s):
        E.prove('for the viewer', i is inv)
        made.append((object(), 'entry', t, u, s))
        return made[-1][0]
    stub(c.R, 'reasoning_discards', discards)
    stub(c.R, 'convert_to_reasoning', convert)
    log = []
    cut = Flagged(log)
    CUTS['one_win_reasoning'] = [cut]
    for x in c.R.one_win_reasoning(hand, inv, win):
        log.append(x)
        m = [m for m in made if m[0] is x]
        E.prove('an item made here', len(m) == 1)
        m = m[0]
        g, e = cut.seq.items[cut.i]
        if complete:
            t = e[0] if isinstance(e, tuple) else e
            E.prove('every discard of a complete hand', m[1] == 'discard' and m[2] is t and [k for k in hand._pv_d] == [
                v[0] if isinstance(v, tuple) else v for _, v in cut.seq.items])
            E.cover('complete')
        else:
            E.prove('every entry of the batch', cut.seq is batch and m[1] == 'entry' and m[2] is e[0] and m[3] is e[2] and m[4] is e[1])
            E.cover('entry')
    E.prove('nothing else is listed', not log)
    E.prove('the loop is over the listed discards', cut.entered)
    E.cover('end')


class Flagged(Cut):
    """One item for every element that is present, none for the others."""
    name = 'one_win_reasoning/for'

    def __init__(self, log):
        self.log = log
        self.entered = False
        self.taken = None

    def match(self, seq, loc):
        return isinstance(seq, GSeq)

    def enter(self, seq, loc):
        self.entered = True
        self.seq = seq

    def element(self, seq, i, loc):
        self.i = i
        return seq.items[i]

    def invariant(self, seq, i, loc):
        if self.taken is None:
            return [('nothing listed before', not self.log)]
        return [('one item for an element', len(self.log) <= 1), ('an element that is there is listed', len(self.log) == 1 or self.absent(seq, i - 1))]

    def absent(self, seq, i):
        return E.check(as_z3bool(_b(seq.items[i][0]))) == z3.unsat

    def havoc(self, seq, i, loc):
        self.taken = True
        return {}


# ---------------------------------------------------------------- the judgement
class NormCut(Cut):
    """The items before are shown as text."""
    name = 'discard_reasoning/norm'

    def __init__(self, c):
        self.c = c

    def match(self, seq, loc):
        return isinstance(seq, GSeq) and len(seq.items) > 1 and all(isinstance(v, self.c.R.ReasoningItem) for _, v in seq.items)

    def enter(self, seq, loc):
        self.before = list(self.c.normed)
        self.cur = None

    def indices(self, seq, loc):
        return [0]                # the element is an arbitrary one

    def modes(self, seq, loc):    # the step is the same for every discard made: explored for one of them
        return ['step', 'exit'] if self.c.steps else ['exit']

    def element(self, seq, i, loc):
        self.cur = self.c.R.ReasoningItem(object(), fresh_int('step'), object(), fresh_int('count'))
        return True, self.cur

    def invariant(self, seq, i, loc):
        return [('shown as text so far', self.cur is None or any(self.cur is x for x in self.c.normed))]

    def havoc(self, seq, i, loc):
        self.c.normed[:] = self.before + ([v for _, v in seq.items] if i else [])
        return {}

    def modifies(self, loc):
        return [self.c.normed]


class Meld:
    self_tiles = ()
    borrowed_tiles = ()


class Ghost:
    pass


class Opaque:
    """An arbitrary value the code may only hand on."""
    def __init__(self, what):
        self.__dict__['what'] = what

    def _die(self, *a):
        raise Unsupported('looking into ' + self.__dict__['what'])

    def __getattr__(self, n):
        if n.startswith('pv_') or n.startswith('_'):
            raise AttributeError(n)
        self._die()
    __eq__ = __ne__ = __lt__ = __le__ = __gt__ = __ge__ = __hash__ = __setattr__ = __bool__ = __int__ = __index__ = _die


def facts(G):
    """What the judgement needs to know of the analyses, kind by kind."""
    out = []
    for k in range(34):
        g = Or([G.listed[w][k] for w in range(G.nw)])
        top = And(G.held[k], G.spec_step[k] == G.best_step)
        out += [('only discards of the hand are listed', Implies(g, G.held[k])),
                ('the best step is the lowest', Implies(G.held[k], G.spec_step[k] >= G.best_step)),
                ('of those listed too', Implies(g, G.list_step[k] >= G.best_step)),
                ('a best discard is listed by all patterns that count', Implies(top, And(g, G.list_step[k] == G.best_step, G.list_count[k] == G.spec_count[k]))),
                ('only best discards are listed with the best step', Implies(And(g, G.list_step[k] == G.best_step), top)),
                ('the most useful tiles of a best discard', Implies(top, G.spec_count[k] <= G.best_count)),
                ('useful tiles are invisible', And(G.spec_count[k] <= G.N, G.list_count[k] <= G.N, G.spec_count[k] >= 0, G.list_count[k] >= 0))]
    out.append(('some discard is best', Or([And(G.held[k], G.spec_step[k] == G.best_step, G.spec_count[k] == G.best_count) for k in range(34)])))
    return out


def h_analyses(nw):
    """The facts used by the judgement follow from the contracts of the analyses (S01-S03)."""
    def h():
        G = Ghost()
        G.nw, G.N = nw, fresh_int('invisible', 0)
        G.held = [fresh_bool('held%d' % k) for k in range(34)]
        step = [[fresh_int('step%d.%d' % (w, k), -1) for k in range(34)] for w in range(nw)]
        best_w = [fresh_int('step%d' % w, -1) for w in range(nw)]
        comp = [fresh_bool('complete%d' % w) for w in range(nw)]
        G.listed = []
        for w in range(nw):
            E.assume(Implies(Not(comp[w]), And([Implies(G.held[k], step[w][k] >= best_w[w]) for k in range(34)])))
            ls = [And(G.held[k], Or(comp[w], step[w][k] == best_w[w])) for k in range(34)]
            E.assume(Or(ls))
            G.listed.append(ls)
        # number of invisible tiles useful for kind k over a set of patterns: a function of the set (harness merge)
        subs = [(0,)] if nw == 1 else [(0,), (1,), (0, 1)]
        cnt = {(k, s): fresh_int('count.%d.%s' % (k, s), 0) for k in range(34) for s in subs}
        for v in cnt.values():
            E.assume(v <= G.N)

        def merged(k, cond):
            if nw == 1:
                return step[0][k], cnt[k, (0,)]
            a, b = step[0][k], step[1][k]
            m = ite(And(cond[0], Or(Not(cond[1]), a <= b)), a, b)
            u = [And(cond[0], a == m), And(cond[1], b == m)]
            return m, ite(And(u[0], u[1]), cnt[k, (0, 1)], ite(u[0], cnt[k, (0,)], cnt[k, (1,)]))
        G.list_step, G.list_count = zip(*[merged(k, [G.listed[w][k] for w in range(nw)]) for k in range(34)])
        G.spec_step, G.spec_count = zip(*[merged(k, [True] * nw) for k in range(34)])
        S0, C0 = fresh_int('best'), fresh_int('most')
        G.best_step, G.best_count = S0, C0
        E.assume(And(And([Implies(G.held[k], S0 <= G.spec_step[k]) for k in range(34)]), Or([And(G.held[k], S0 == G.spec_step[k]) for k in range(34)])))
        top = [And(G.held[k], G.spec_step[k] == S0) for k in range(34)]
        E.assume(And(And([Implies(top[k], G.spec_count[k] <= C0) for k in range(34)]), Or([And(top[k], G.spec_count[k] == C0) for k in range(34)])))
        for w in range(nw):
            E.prove('a pattern that is not complete has no lower step', Implies(Not(comp[w]), S0 <= best_w[w]))
        for n, f in facts(G):
            E.prove(n, f)
        E.cover('facts')
    return h


def h_judge(melds, turn):
    def h():
        c = setup()
        R = c.R
        K = M('mahjong.record.utils.value.meld').Kita
        W = M('mahjong.container.pattern.win')
        hand_ids, hb = inv_set('hand')
        inv_ids, vb = inv_set('unseen')
        c.normed = []
        ms = [(True, Meld()) for _ in range(melds)]
        for k in range(4):                   # any number of norths set aside, anywhere
            kita = object.__new__(type('Kita', (K,), {'self_tiles': (), 'borrowed_tiles': ()}))
            ms.insert(k * 2, (z3.Bool(E.fresh_name('kita%d' % k)), kita))
        ms = GSeq(ms)
        c.steps = turn == 1
        did, made_tile = Opaque('index of the discard'), Opaque('tile of the discard')
        held = [wrapb(z3.Or([hb[j] for j in ids_of(k)])) for k in range(34)]
        nw = 2 if melds == 0 else 1
        vis = [conj(vb[j], neg(hb[j])) for j in range(136)]
        N = SInt(z3.Sum([z3.If(as_z3bool(_b(v)), z3.IntVal(1), z3.IntVal(0)) for v in vis]))
        G = Ghost()
        G.held, G.N, G.nw = held, N, nw
        G.step = [[fresh_int('step%d.%d' % (w, k), -1) for k in range(34)] for w in range(nw)]
        G.listed = [[fresh_bool('listed%d.%d' % (w, k)) for k in range(34)] for w in range(nw)]
        G.best_step, G.best_count = fresh_int('best', -1), fresh_int('most', 0)
        for n in ('list_step', 'spec_step'):
            setattr(G, n, [fresh_int('%s%d' % (n, k), -1) for k in range(34)])
        for n in ('list_count', 'spec_count'):
            setattr(G, n, [fresh_int('%s%d' % (n, k), 0) for k in range(34)])
        for n, f in facts(G):
            E.assume(f)                  # consequences of the contracts of the analyses: harness 'analyses'
        tok = [[object() for k in range(34)] for w in range(nw)]
        listed = G.listed
        # the discard made is some tile of the hand
        made_step, made_count = fresh_int('made.step', -1), fresh_int('made.count', 0)
        E.assume(Or([And(held[k], made_step == G.spec_step[k], made_count == G.spec_count[k]) for k in range(34)]))
        # contracts
        owner = {}
        lists = []

        def item(w, k):
            it = R.ReasoningItem(c.tiles[k], G.step[w][k], tok[w][k], fresh_int('n', 0))
            owner[id(it)] = (it, w, k)
            return it

        def which(win):
            ok = (type(win) is W.NormalTypeWin and same(win.need_units(), 1 + 4 - melds) and same(win.need_count(), 2 + 3 * (4 - melds)))
            if ok:
                return 0
            E.prove('the patterns of the hand', nw == 2 and type(win) is W.UniquePairs and same(win.need_units(), 7))
            return 1

        seen = []

        def check_hand(h):
            if any(h is x for x in seen):
                return
            seen.append(h)
            E.prove('the hand is a multiset', isinstance(h, PCounter))
            for k, x in enumerate(ts.counts(h, c.tiles)):
                E.prove_valid('the multiset of the hand', x == sum_of(hb[j] for j in ids_of(k)))

        def check_inv(s):
            if any(s is x for x in seen):
                return
            seen.append(s)
            E.prove('the invisible tiles are a set', isinstance(s, SymSet))
            E.prove_valid('what the player cannot see', And([Iff(_b(s.has(j)), _b(vis[j])) for j in range(136)]))

        def one_win(h, s, win):
            check_hand(h)
            check_inv(s)
            w = which(win)
            lists.append(w)
            order = turn if w == 0 else 1
            return GSeq([(as_z3bool(listed[w][k]), item(w, k)) for k in range(34)][::order], True, 'listed')

        def discards(h, s, tile, win):
            check_hand(h)
            check_inv(s)
            w = which(win)
            E.prove('the discard made', tile is made_tile)
            it = R.ReasoningItem(made_tile, fresh_int('step', -1), object(), fresh_int('n', 0))
            owner[id(it)] = (it, w, 'made')
            return it
        merged = {}

        def merge(lst, s):
            check_inv(s)
            seq = lst.items if isinstance(lst, GSeq) else [(True, x) for x in lst]
            seq = [(g, x) for g, x in seq if not is_false(g)]
            E.prove('items of the analyses are merged', all(id(x) in owner for _, x in seq))
            ks = {owner[id(x)][2] for _, x in seq}
            ws = [owner[id(x)][1] for _, x in seq]
            E.prove('the items of one discard are merged', len(ks) == 1 and len(set(ws)) == len(ws))
            k = ks.pop()
            cond = [False] * nw
            for g, x in seq:
                cond[owner[id(x)][1]] = _b(g) if not isinstance(g, bool) else g
            if k == 'made' and all(x is True for x in cond):
                m, n = made_step, made_count
            elif k != 'made' and all(not isinstance(x, bool) and x.t.eq(listed[w][k].t) for w, x in enumerate(cond)):
                m, n = G.list_step[k], G.list_count[k]
            else:
                raise Unsupported('a merge of some of the analyses of a discard')
            r = R.ReasoningItem(seq[0][1].discard_tile, m, object(), n)
            merged[id(r)] = (r, k, cond)
            return r
        stub(R, 'one_win_reasoning', one_win)
        stub(R, 'reasoning_discards', discards)
        stub(R, 'reasoning_merge', merge)
        stub(R.ReasoningItem, 'norm', lambda self: c.normed.append(self))
        S = M('mahjong.container.set')
        stub(S.TileSet, 'tiles', lambda self: GSeq([(as_z3bool(held[k]), c.tiles[k]) for k in range(34)]))
        CUTS['discard_reasoning'] = [NormCut(c)]
        E.notes['exact'] = []
        E.notes['pow'] = power
        E.notes['truediv'] = quotient
        ev = Ev('D0', {})
        real = R.tile_from_tenhou
        stub(R, 'tile_from_tenhou', lambda i: made_tile if i is did else real(i))

        class Player:
            def discard_tile_index(self, e):
                E.prove('of the event', e is ev)
                return did

        class State:
            def __init__(self, v):
                self.value = v
        hs, vs, mst = State(hand_ids), State(inv_ids), State(ms)
        try:
            r = R.discard_reasoning(ev, hs, vs, Player(), mst)
        except ZeroDivisionError:
            E.prove('the rate is defined', False)
        E.cover('judged')
        E.prove('all patterns are considered', sorted(lists) == list(range(nw)))
        # recommended discards
        S0, C0 = G.best_step, G.best_count
        top = [And(held[k], G.spec_step[k] == S0) for k in range(34)]
        exp = r.expected_reasonings
        E.prove('the recommended discards are a list', isinstance(exp, GSeq) and all(id(v) in merged for _, v in exp.items))
        for k in range(34):
            g = disj(False, *[q for q, v in exp.items if merged[id(v)][1] == k])
            E.prove('recommended iff lowest step and most useful tiles', Iff(_b(g), And(top[k], G.spec_count[k] == C0)))
            for q, v in exp.items:
                if merged[id(v)][1] == k:
                    E.prove('shown with its step and number', Implies(_b(q), And(v.waiting_step == S0, v.useful_tiles_count == C0)))
        E.prove('every discard at most once', len({merged[id(v)][1] for _, v in exp.items}) == len(exp.items))
        E.prove('shown as text', all(any(v is x for x in c.normed) for q, v in exp.items if not is_false(q)))
        you = r.your_choice_reasoning
        E.prove('the discard made is judged over all patterns', id(you) in merged and merged[id(you)][1] == 'made'
                and all(x is True for x in merged[id(you)][2]))
        E.prove('its step and number', And(you.waiting_step == made_step, you.useful_tiles_count == made_count))
        E.prove('your discard is shown as text', any(you is x for x in c.normed))
        wr = r.wrong_rate
        prove_exact('the rate is at least zero', wr >= 0)
        prove_exact('the rate is at most one', wr <= 1)
        prove_exact('zero for a discard as good as the best', Implies(And(made_step == S0, made_count == C0), wr == 0))
        E.prove('the states are not changed', hs.value is hand_ids and vs.value is inv_ids and And(
            [And(Iff(_b(hand_ids.has(j)), _b(hb[j])), Iff(_b(inv_ids.has(j)), _b(vb[j]))) for j in range(136)]))
    return h


class Power(SInt):
    """a ** b, and products with it, by their order properties; the exact equations are kept aside."""

    def __mul__(self, o):
        if isinstance(o, Power) or num(o) is None:
            return SInt.__mul__(self, o)
        x = wrap(num(o))
        p = fresh_int('product')
        E.assume(And(Implies(x == 0, p == 0), Implies(And(x >= 1, self >= 0), p >= self), Implies(And(x >= 0, self >= 1), p >= x),
                     Implies(And(x >= 0, self >= 0), p >= 0)))
        E.notes['exact'].append(num(p) == num(x) * num(self))
        return p
    __rmul__ = __mul__


def power(a, b):
    """a ** b for natural numbers."""
    E.prove('a power with a natural base and exponent', And(a >= 0, b >= 0))
    if b == 0:
        return 1
    p = Power(num(fresh_int('power', 0)))
    E.assume(And(Implies(a >= 1, p >= a), Implies(a == 0, p == 0)))
    return p


def quotient(a, b):
    """a / b of natural numbers, by its order properties."""
    r = fresh_real('quotient')
    x, y = wrap(a), wrap(b)
    E.assume(Implies(y > 0, And(Implies(x >= 0, r >= 0), Implies(x <= y, r <= 1), Implies(x >= y, r >= 1), Implies(x == 0, r == 0))))
    a = z3.ToReal(a) if a.is_int() else a
    b = z3.ToReal(b) if b.is_int() else b
    E.notes['exact'].append(num(r) * b == a)
    return r


def prove_exact(name, cond):
    """By the order properties, otherwise with the exact equations."""
    if E.check(z3.Not(as_z3bool(_b(cond)))) != z3.unsat:
        for x in E.notes['exact']:
            E.assume(wrapb(x))
        E.notes['exact'] = []
    E.prove(name, cond)


def harnesses(tier):
    J = FUNCS[:1] + FUNCS[5:6]
    return [Harness('judge, %d melds, listed in order %d' % (m, o), h_judge(m, o), J, ['judged']) for m in range(5) for o in (1, -1)] + [
        Harness('analyses of %d' % n, h_analyses(n), [], ['facts']) for n in (1, 2)] + [
        Harness('merge of %d' % n, h_merge(n), FUNCS[1:3], ['merged']) for n in (1, 2, 3)] + [
        Harness('key', h_key, FUNCS[3:4], ['key']), Harness('norm', h_norm, FUNCS[8:], ['norm']), Harness('convert', h_convert, FUNCS[7:8], ['convert']),
        Harness('discards', h_discards, FUNCS[6:7], ['discard']), Harness('one win', h_one, FUNCS[4:5], ['complete', 'entry', 'end'])]
