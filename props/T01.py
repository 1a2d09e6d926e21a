"""T01: tile objects.  Every kind is a case of a complete split (37 printable kinds); the states of the interning
pools are enumerated as a fixpoint under every constructor call (induction over histories)."""
from props.lib import *

FUNCS = ['tile.definition.Tile.__new__', 'tile.definition.AkaTile.__new__', 'tile.definition.Tile.__eq__',
         'tile.definition.Tile.__lt__', 'tile.definition.Tile.__hash__', 'tile.definition.Tile.repeat',
         'tile.definition.AkaTile.repeat', 'tile.definition.Tile.flush', 'tile.definition.Tile.pair',
         'tile.definition.Tile.triplet', 'tile.definition.Tile.next', 'tile.definition.AkaTile.next',
         'tile.definition.Tile.is_suit', 'tile.definition.tile_hash_num']
ASSUMPTIONS = ['legal arguments only: numbers 1-9 of m, p, s, 1-7 of z, and 0 of m, p, s for red fives']
ALL = KINDS + [(0, c) for c in 'mps']


def make(D, n, c):
    return D.AkaTile(0, c) if n == 0 else D.Tile(n, c)


def rank(n, c):
    return SUITS.index(c) * 10 + (n or 5)


def check_tile(D, t, n, c):
    base = n or 5
    E.prove('number and colour', same(t.number, n) and t.color == c)
    E.prove('hash is a function of the kind', hash(t) == hash(D.Tile(base, c)))
    E.prove('printed form', str(t) == '%d%s' % (n, c))
    E.prove('is_suit', t.is_suit() == (c in 'mps'))
    me = D.Tile(base, c)

    def holds(name, ts, want):
        if want is None:
            E.prove(name, ts is None)
            return
        if ts is None:
            E.prove(name, False, 'None')
            return
        got = {(k.number, k.color): v for k, v in ts.items()}
        E.prove(name, same(got, want), '%r want %r' % (got, want))
        E.prove(name + ' (plain tiles)', all(not isinstance(k, D.AkaTile) for k in ts.keys()))
    holds('pair is two copies', t.pair(), {(base, c): 2})
    holds('triplet is three copies', t.triplet(), {(base, c): 3})
    holds('flush is the run starting here', t.flush(),
          {(base, c): 1, (base + 1, c): 1, (base + 2, c): 1} if c in 'mps' and base <= 7 else None)
    nx = t.next()
    if c in 'mps' and base < 9:
        E.prove('next is the following number', nx is not None and nx == D.Tile(base + 1, c) and nx.number == base + 1)
    else:
        E.prove('no next tile', nx is None)


class Rec(dict):
    """Interning pool that records the keys it is asked for."""
    def __init__(self, *a):
        dict.__init__(self, *a)
        self.reads = set()

    def __contains__(self, k):
        self.reads.add(k)
        return dict.__contains__(self, k)

    def __getitem__(self, k):
        self.reads.add(k)
        return dict.__getitem__(self, k)

    def get(self, k, d=None):
        self.reads.add(k)
        return dict.get(self, k, d)


def h_build():
    """Constructors from every reachable pool state: the states of the pools are closed under every constructor call
    of the suit (fixpoint), and the frame obligation shows that other suits are not read: induction over histories."""
    D = M('mahjong.tile.definition')
    c = E.choose(list('mpsz'))
    kinds = [k for k in ALL if k[1] == c]
    cur = [None, []]
    E.witness_fn = lambda ev: {'case': {'kind': list(cur[0]), 'before': [list(k) for k in cur[1]]}}
    saved = D.Tile._TILE_POOL, D.AkaTile._ATILE_POOL

    def replay(hist):
        D.Tile._TILE_POOL, D.AkaTile._ATILE_POOL = Rec(), Rec()
        return [(k, make(D, *k)) for k in hist]

    def state():
        return frozenset(D.Tile._TILE_POOL.keys()), frozenset(D.AkaTile._ATILE_POOL.keys())
    try:
        replay([])
        seen = {state(): ()}
        work = [()]
        while work:
            hist = work.pop(0)
            for n, c in kinds:
                cur[:] = (n, c), hist
                old = replay(hist)
                before = dict(D.Tile._TILE_POOL)
                D.Tile._TILE_POOL.reads.clear()
                t = make(D, n, c)
                own = {10 * SUITS.index(c) + k for k in range(10)}
                E.prove('frame: only pool entries of the own suit are read',
                        D.Tile._TILE_POOL.reads | D.AkaTile._ATILE_POOL.reads <= own)
                E.prove('frame: earlier entries stay', all(dict.get(D.Tile._TILE_POOL, k) is v for k, v in before.items()))
                if n:
                    E.prove('interned', make(D, n, c) is t)
                    E.prove('a plain tile is not a red five', not isinstance(t, D.AkaTile))
                else:
                    E.prove('a red five is an object of its own', t is not D.Tile(5, c) and isinstance(t, D.AkaTile))
                s = state()
                check_tile(D, t, n, c)
                for k, o in old:
                    if k[0]:
                        E.prove('tiles built before stay the interned ones', make(D, *k) is o)
                E.prove('tiles built before equal exactly those of their kind',
                        all(bool(o == t) == ((k[0] or 5) == (n or 5)) for k, o in old))
                if s not in seen:
                    seen[s] = hist + ((n, c),)
                    work.append(hist + ((n, c),))
        E.cover('closed')
    finally:
        D.Tile._TILE_POOL, D.AkaTile._ATILE_POOL = saved


def h_order():
    D = M('mahjong.tile.definition')
    n, c = E.choose(ALL)
    a = make(D, n, c)
    cur = [None]
    E.witness_fn = lambda ev: {'case': {'kind': [n, c], 'other': cur[0]}}
    for m, d in ALL:
        cur[0] = [m, d]
        b = make(D, m, d)
        x, y = rank(n, c), rank(m, d)
        E.prove('==', bool(a == b) == (x == y))
        E.prove('!=', bool(a != b) == (x != y))
        E.prove('<', bool(a < b) == (x < y))
        E.prove('<=', bool(a <= b) == (x <= y))
        E.prove('>', bool(a > b) == (x > y))
        E.prove('>=', bool(a >= b) == (x >= y))
        E.prove('equal tiles hash equally', x != y or hash(a) == hash(b))
    E.cover('ordered')


def h_repeat():
    D = M('mahjong.tile.definition')
    n, c = E.choose(ALL)
    t = make(D, n, c)
    k = fresh_int('k', 0)
    E.witness_fn = lambda ev: {'case': {'kind': [n, c], 'repeat': ev(k)}}

    def rng(*a):
        if len(a) == 1:
            return ASeq(a[0], lambda i: i)
    E.notes['range_hook'] = rng
    ts = t.repeat(k)
    E.cover('repeated')
    for m, d in KINDS:
        E.prove('repeat(k) holds k copies and nothing else',
                same(ts[D.Tile(m, d)], k if (m, d) == (n or 5, c) else 0))
    E.prove('repeat holds plain tiles', all(not isinstance(x, D.AkaTile) for _, x in ts.keys().items))
    E.prove('size', same(ts.__len__(), k))


def harnesses(tier):
    return [Harness('construction', h_build, FUNCS, ['closed']),
            Harness('order', h_order, FUNCS, ['ordered']),
            Harness('repeat', h_repeat, FUNCS, ['repeated'])]
