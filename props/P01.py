"""P01: the paifu rows of every event, of every hand and of the record."""
from props.lib import *
from pv.model import Abstract, GSeq
import itertools

EV = 'record.utils.event.'
FUNCS = [EV + f for f in ('TenhouEvent.__init__', 'TenhouEvent.to_paifu', 'tile_change', 'draw_tile_change', 'discard_tile_change',
                          'is_open_hand', 'is_richii', 'is_dora_indicator_event', 'is_somebody_win_game', 'is_nobody_win_game')] + [
    'record.reader.TenhouGame.to_paifu', 'record.reader.TenhouGame.game_index', 'record.reader.TenhouGame.sub_game_index',
    'record.reader.TenhouRecord.to_paifu', 'record.category.SubCategory.category', 'record.utils.bit.unpack_with']
ASSUMPTIONS = ['meld_from by its contract (M01): own and borrowed tile ids of a well-formed code, in any order, and the source player',
               'tile_from_tenhou by its contract (C02): each id has its tile, printed in two characters',
               'sorted() of the dealt ids gives them in ascending order; thirteen tiles are dealt',
               'numbers below 2**53 (number_list, N01)']
DRAWN = {'kaze4': '四風連打', 'yao9': '九種九牌', 'ron3': '三家和了', 'reach4': '四家立直', 'kan4': '四槓散了', 'nm': '流局滿貫'}


class Tile:
    """The tile of an id."""

    def __init__(self, mark):
        self.mark = mark

    def __str__(self):
        return self.mark

    __repr__ = __str__


class Tiles:
    """The ids of the event at hand; a tile made of one of them prints as its mark."""

    def __init__(self):
        self.ids = []

    def id(self, name):
        i = fresh_int(name, 0, 135)
        self.ids.append(i)
        return i

    def mark(self, k):
        return chr(0xf000 + k)

    def tile(self, i):
        for k, x in enumerate(self.ids):
            if isinstance(i, SInt) and i.t.eq(x.t):
                return Tile(self.mark(k))
        for k, x in enumerate(self.ids):
            if E.branch(as_z3bool(i == x)):
                return Tile(self.mark(k))
        raise Unsupported('the tile of another id')

    def text(self, *ids):
        return ''.join(self.mark(next(k for k, x in enumerate(self.ids) if x is i)) for i in ids)


def setup():
    EVM = M('mahjong.record.utils.event')
    T = Tiles()
    stub_everywhere('tile_from_tenhou', T.tile)
    return EVM, T


def rows_of(EVM, ev):
    r = EVM.TenhouEvent(ev, context=None, timestamp=0).to_paifu()
    E.prove('a list of rows', isinstance(r, list) and all(type(x) is dict for x in r))
    return r


def row(name, got, type_, **want):
    """The row is of the type and has exactly the entries wanted; tiles are compared by their print."""
    E.prove(name + ': type', isinstance(got.get('event_type'), str) and got['event_type'].strip() == type_, '%r' % got)
    E.prove(name + ': entries', set(got) == set(want) | {'event_type'}, '%r' % got)
    for k, w in want.items():
        if k in got:
            g = got[k]
            if callable(w):
                w(g)
            else:
                E.prove('%s: %s' % (name, k), str(g) == w, 'got %r want %r' % (g, w))


def count(name, rows, n):
    E.prove(name + ': rows', len(rows) == n, '%r' % rows)
    if len(rows) != n:
        raise PathEnd()


def h_draw_discard():
    EVM, T = setup()
    kind, p = E.choose(['draw', 'discard']), E.choose(range(4))
    i = T.id('tile')
    E.witness_fn = lambda f: {'case': {'events': [[('TUVW' if kind == 'draw' else 'DEFG')[p] + str(f(i)), {}]]}}
    rows = rows_of(EVM, Ev(('TUVW' if kind == 'draw' else 'DEFG')[p] + str(i), {}))
    count(kind, rows, 1)
    E.cover(kind)
    if kind == 'draw':
        row('draw', rows[0], 'DRAW', player=str(p), player_see=T.text(i))
    else:
        row('discard', rows[0], 'DISCARD', player=str(p), player_show=T.text(i))


def in_any_order(name, T, *groups):
    """The tiles of the groups, group after group, the tiles of a group in any order."""
    want = {''.join(s) for s in itertools.product(*[[''.join(q) for q in itertools.permutations([T.text(i) for i in g])] for g in groups])}
    return lambda g: E.prove(name, g in want, 'got %r' % (g,))


MELDS = {'chi': ({2: True}, 'Flush', 2, 1, 'CHI'), 'pon': ({2: False, 3: True}, 'Triplet', 2, 1, 'PENG'),
         'added': ({2: False, 3: False, 4: True}, 'TenhouAddedKan', 1, 0, 'GANG'),
         'kita': ({2: False, 3: False, 4: False, 5: True}, 'Kita', 1, 0, 'KITA'),
         'closed': ({2: False, 3: False, 4: False, 5: False, 0: False, 1: False}, 'TenhouKan', 4, 0, 'ANGANG'),
         'open': ({2: False, 3: False, 4: False, 5: False}, 'TenhouKan', 3, 1, 'MINGGANG')}


def h_meld(kind):
    def h():
        EVM, T = setup()
        ML = M('mahjong.record.utils.value.meld')
        flags, cls, own, borrowed, type_ = MELDS[kind]
        v, b = code16()
        for i, on in flags.items():
            E.assume(b[i] if on else Not(b[i]))
        if kind == 'open':
            E.assume(Or([b[0], b[1]]))
        who = fresh_int('who', 0, 3)
        src = fresh_int('source', 0, 3)
        a, c = [T.id('own') for _ in range(own)], [T.id('borrowed') for _ in range(borrowed)]
        E.assume(z3.Distinct(*[x.t for x in a + c]) if own + borrowed > 1 else True)
        ev = Ev('N', {'who': str(who), 'm': str(v)})

        def meld_from(e):
            E.prove('the meld of the event', e is ev or getattr(e, '_wrapped_xml_event', None) is ev)
            real = getattr(ML, cls)
            class Meld_(real):
                self_tiles, borrowed_tiles, from_who, who_index = list(a), list(c), src, who
                def __init__(self):
                    pass
                def __getattr__(self, n):
                    raise Unsupported('%s of a meld' % n)
            return Meld_()
        stub_everywhere('meld_from', meld_from)
        E.witness_fn = lambda f: {'case': {'events': [['N', {'who': str(f(who)), 'm': str(f(v))}]]}}
        rows = rows_of(EVM, ev)
        count(kind, rows, 1)
        E.cover('meld')
        want = dict(player=str(who), player_show=in_any_order('own tiles are shown', T, a))
        if kind == 'kita':
            want['player_open'] = T.text(a[0])
        else:
            want['origin'] = str(src)
            # the borrowed tile, then those of the hand
            want['player_open'] = in_any_order('the borrowed tile, then the own tiles, are open', T, c, a)
        row(kind, rows[0], type_, **want)
    return h


def h_init():
    EVM, T = setup()
    n = E.choose([4, 3])
    mode = 'missing' if n == 4 else E.choose(['missing', 'empty'])
    dealt = [[fresh_int('hai%d' % p, 0, 135) for _ in range(13)] for p in range(n)]
    dora = T.id('dora')
    asc = {}

    def sorted_hook(s, key, reverse):
        for p, d in enumerate(dealt):
            if len(s) == 13 and all(isinstance(x, SInt) and x.t.eq(y.t) for x, y in zip(s, d)):
                E.prove('in ascending order', key is None and not reverse)
                asc[p] = [T.id('sorted%d' % p) for _ in d]
                return list(asc[p])
        return None
    E.notes['sorted_list_hook'] = sorted_hook
    seed = [fresh_int('seed', 0, 40) for _ in range(5)] + [dora]
    ten = [fresh_int('ten', -400, 2000) for _ in range(4)]
    at = {'seed': ','.join(map(str, seed)), 'ten': ','.join(map(str, ten)), 'oya': '0'}
    for p in range(n):
        at['hai%d' % p] = ','.join(map(str, dealt[p]))
    if mode == 'empty':
        at['hai3'] = ''
    E.witness_fn = lambda f: {'case': {'events': [['INIT', {'seed': ','.join(str(f(x)) for x in seed), 'ten': ','.join(str(f(x)) for x in ten),
        'oya': '0', **{'hai%d' % p: ','.join(str(f(x)) for x in dealt[p]) for p in range(n)}, **({'hai3': ''} if n == 3 else {})}]]}}
    rows = rows_of(EVM, Ev('INIT', at))
    count('start of a hand', rows, n + 2)
    E.cover('players %d' % n)
    for p in range(n):
        E.prove('the dealt tiles are sorted', p in asc)
        if p in asc:
            row('dealt hand', rows[p], 'INIT%d' % (p + 1), player=str(p), player_see=T.text(*asc[p]), score=str(ten[p]) + '00')
    row('dora indicator', rows[n], 'DORA', player='0', player_see=T.text(dora), player_show=T.text(dora))
    row('deposits', rows[n + 1], 'ROUND', score=str(seed[2]) + '000')


def h_others():
    EVM, T = setup()
    kind = E.choose(['dora', 'call', 'riichi', 'win', 'drawn', 'unknown'])
    w, l = fresh_int('who', 0, 3), fresh_int('from', 0, 3)
    ten = ','.join(str(fresh_int('ten', -400, 2000)) for _ in range(3))
    E.cover(kind)
    if kind == 'dora':
        i = T.id('tile')
        rows = rows_of(EVM, Ev('DORA', {'hai': str(i)}))
        count(kind, rows, 1)
        row('dora indicator', rows[0], 'DORA', player='0', player_see=T.text(i), player_show=T.text(i))
    elif kind == 'call':
        rows = rows_of(EVM, Ev('REACH', {'who': str(w), 'step': '1'}))
        count(kind, rows, 1)
        row('riichi is called', rows[0], 'CALLRICHI', player=str(w))
    elif kind == 'riichi':
        rows = rows_of(EVM, Ev('REACH', {'who': str(w), 'step': '2', 'ten': ten}))
        count(kind, rows, 2)
        row('riichi stands', rows[0], 'RICHI', player=str(w))
        row('the deposit is paid', rows[1], 'SCORE', player=str(w), score='-1000')
    elif kind == 'win':
        rows = rows_of(EVM, Ev('AGARI', {'who': str(w), 'fromWho': str(l), 'ten': ten, 'ba': '0,0', 'sc': '0,0', 'machi': '3', 'hai': '3'}))
        count(kind, rows, 1)
        row('win', rows[0], 'WIN', player=str(w), origin=str(l))
    elif kind == 'drawn':
        t = E.choose([None] + list(DRAWN))
        E.witness_fn = lambda f: {'case': {'events': [['RYUUKYOKU', {'ba': '0,0', 'sc': '0,0', **({'type': t} if t else {})}]]}}
        rows = rows_of(EVM, Ev('RYUUKYOKU', {'ba': '0,0', 'sc': '0,0', **({'type': t} if t else {})}))
        count(kind, rows, 1)
        row('no winner', rows[0], 'EVEN', origin=DRAWN[t] if t else '')
    else:
        tag = E.choose(['BYE', 'UN', 'GO', 'TAIKYOKU', 'SHUFFLE'])
        count(kind, rows_of(EVM, Ev(tag, {'who': str(w)})), 0)


# ---------------------------------------------------------------- hands and records
class Flat(Abstract):
    """The rows of the first k parts, in order, and then `tail`; label(p, r) is the label row r of part p has, if any."""
    pv_abstract = True
    pv_is_list = True

    def __init__(self, k):
        self.k, self.tail, self.labelled = k, [], 0

    def pv_version(self):
        return (repr(self.k), len(self.tail), repr(self.labelled))

    def extend(self, rows):
        if isinstance(rows, Part):
            E.prove('the rows of the parts in order', And(rows.i == self.k, len(self.tail) == 0))
            self.k = self.k + 1
        elif isinstance(rows, (list, tuple)):
            self.tail += rows
        else:
            raise Unsupported('other rows')

    def append(self, r):
        self.tail.append(r)

    def __iadd__(self, rows):
        self.extend(rows)
        return self

    def __iter__(self):
        raise Unsupported('rows, without an invariant')


class Part(Abstract):
    """The rows of part i."""
    pv_abstract = True

    def __init__(self, i):
        self.i = i

    def __iter__(self):
        raise Unsupported('rows of a part one by one')


class Piece:
    """A part: an event or a hand."""
    done = 0

    def __init__(self, i):
        self.i = i

    def to_paifu(self):
        return Part(self.i)


class CollectCut(Cut):
    name = 'parts'

    def match(self, seq, loc):
        return isinstance(seq, ASeq)

    def enter(self, seq, loc):
        vs = [k for k, v in loc.items() if v == [] and isinstance(v, list)]
        if len(vs) != 1:
            raise Unsupported('where the rows are collected')
        self.var = vs[0]

    def length(self, seq, loc):
        return seq.n

    def indices(self, seq, loc):
        i = fresh_int('part', 0)
        E.assume_checked(i < seq.n)
        return [i]

    def element(self, seq, i, loc):
        return True, seq.at(i)

    def invariant(self, seq, i, loc):
        v = loc[self.var]
        if isinstance(v, list) and not v:
            v = Flat(0)
        if not isinstance(v, Flat):
            raise Unsupported('the rows so far')
        return [('the rows of the parts so far', And(v.k == i, len(v.tail) == 0))]

    def havoc(self, seq, i, loc):
        return {self.var: Flat(i)}


class LabelCut(Cut):
    """Over the rows: those before have the label."""
    name = 'rows'

    def __init__(self, label):
        self.label = label

    def match(self, seq, loc):
        return isinstance(seq, Flat)

    def enter(self, seq, loc):
        self.n = fresh_int('rows', 0)

    def length(self, seq, loc):
        return self.n

    def indices(self, seq, loc):
        i = fresh_int('row', 0)
        E.assume_checked(i < self.n)
        return [i]

    def element(self, seq, i, loc):
        self.at, self.row = i, {'event_type': 'any'}
        return True, self.row

    def invariant(self, seq, i, loc):
        ok = True
        if getattr(self, 'row', None) is not None:
            ok = self.row.get('event_type') == 'any' and set(self.row) == {'event_type', 'game_str'}
            if ok:
                text_is('the label of the hand', self.row['game_str'], *self.label)
        return [('every row so far has the label of the hand', ok)]

    def havoc(self, seq, i, loc):
        self.row = None
        seq.labelled = i
        return {}


def new_game(RD, seeds, ends, players, code):
    GT = M('mahjong.record.utils.value.gametype')
    evs = [Ev('INIT', {'seed': ','.join(map(str, seeds)), 'oya': '0'}), Ev('T5', {})] + ends
    return RD.TenhouGame(evs, GT.GameType(str(code)), players, context=None)


def h_hand():
    RD = M('mahjong.record.reader')
    seeds = [fresh_int('round', 0, 11), fresh_int('honba', 0)] + [fresh_int('s', 0, 135) for _ in range(4)]
    stub_everywhere('number_list', lambda s, split=',': list(seeds))
    winds = E.choose([1, 2])      # winds the game is meant to have: one more can be reached
    g = new_game(RD, seeds, [Ev('RYUUKYOKU', {})], [], 1 + 8 * (winds - 1))
    n = fresh_int('events', 0)
    E.prove('the events of a hand', hasattr(g, 'events'))
    g.events = ASeq(n, Piece, 'events')
    w = E.choose(range(winds + 1))
    E.assume(And(seeds[0] >= 4 * w, seeds[0] < 4 * w + 4))
    lab = LabelCut(['ESWN'[w], '-', seeds[0] - 4 * w + 1, '-', seeds[1]])
    CUTS['TenhouGame.to_paifu'] = [CollectCut(), lab]
    r = g.to_paifu()
    E.cover('hand')
    E.prove('the rows of all events, in order', isinstance(r, Flat) and And(r.k == n, len(r.tail) == 0))
    E.prove('all of them labelled', isinstance(r, Flat) and hasattr(lab, 'n') and r.labelled == lab.n)


class Bag:
    pass


def h_record():
    RD = M('mahjong.record.reader')
    rec = object.__new__(RD.TenhouRecord)
    n = fresh_int('hands', 0)
    players = E.choose([3, 4])
    rec.game_list = ASeq(n, Piece, 'hands')
    rec.players = [object() for _ in range(players)]
    rec.end_score = [fresh_int('score', -2000, 4000) for _ in range(4)]
    CUTS['TenhouRecord.to_paifu'] = [CollectCut()]
    r = rec.to_paifu()
    E.cover('players %d' % players)
    E.prove('the rows of all hands, in order', isinstance(r, Flat) and r.k == n)
    count('final scores', r.tail, players)
    for p, x in enumerate(r.tail):
        row('final score', x, 'FIN%d' % (p + 1), player=str(p), score=str(rec.end_score[p] * 100))


def harnesses(tier):
    return [Harness('draws and discards', h_draw_discard, FUNCS, ['draw', 'discard']),
            *[Harness('meld, %s' % k, h_meld(k), FUNCS, ['meld']) for k in MELDS],
            Harness('start of a hand', h_init, FUNCS, ['players 3', 'players 4']),
            Harness('other events', h_others, FUNCS, ['dora', 'call', 'riichi', 'win', 'drawn', 'unknown']),
            Harness('hand', h_hand, FUNCS, ['hand']),
            Harness('record', h_record, FUNCS, ['players 3', 'players 4'])]
