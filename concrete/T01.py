import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from common import run, fresh
from oracle import KINDS

ALL = KINDS + [(0, c) for c in 'mps']


def gen(rng, tier):
    for k in ALL:
        yield {'kind': list(k), 'before': []}
    for n in range(200 if tier == 'quick' else 5000):
        k = rng.choice(ALL)
        yield {'kind': list(k), 'before': [list(rng.choice(ALL)) for _ in range(rng.randrange(1, 40))],
               'other': list(rng.choice(ALL)), 'repeat': rng.randrange(0, 9)}


def check(case):
    D = fresh('mahjong.tile.definition')

    def make(n, c):
        return D.AkaTile(0, c) if n == 0 else D.Tile(n, c)

    def rank(n, c):
        return 'mpsz'.index(c) * 10 + (n or 5)
    old = [(k, make(*k)) for k in map(tuple, case.get('before', []))]
    n, c = case['kind']
    t = make(n, c)
    seen = old + [((n, c), t)] + [((a, b), make(a, b)) for a, b in [case.get('other', [n, c])]]
    for k, o in seen:
        if k[0] and o is not make(*k):
            return '%s is not interned' % (k,)
    for (a, b), o in seen:
        base = a or 5
        if (o.number, o.color, str(o)) != (a, b, '%d%s' % (a, b)):
            return '%s%s reads %r %r %s' % (a, b, o.number, o.color, o)
        if isinstance(o, D.AkaTile) != (a == 0):
            return 'class of %s' % o
        if o.is_suit() != (b in 'mps'):
            return 'is_suit of %s' % o
        for name, ts, want in [('pair', o.pair(), {(base, b): 2}), ('triplet', o.triplet(), {(base, b): 3}),
                               ('repeat', o.repeat(case.get('repeat', 4)), {(base, b): case.get('repeat', 4)})]:
            got = {(x.number, x.color): v for x, v in ts.items() if v}
            want = {k: v for k, v in want.items() if v}
            if got != want:
                return '%s of %s is %s' % (name, o, got)
        fl = o.flush()
        want = {(base + i, b): 1 for i in range(3)} if b in 'mps' and base <= 7 else None
        if (fl if fl is None else {(x.number, x.color): v for x, v in fl.items()}) != want:
            return 'flush of %s is %s' % (o, fl)
        nx = o.next()
        want = (base + 1, b) if b in 'mps' and base < 9 else None
        if (nx if nx is None else (nx.number, nx.color)) != want:
            return 'next of %s is %s' % (o, nx)
        for (a2, b2), o2 in seen:
            x, y = rank(a, b), rank(a2, b2)
            if ((o == o2), (o != o2), (o < o2), (o <= o2), (o > o2), (o >= o2)) != (x == y, x != y, x < y, x <= y, x > y, x >= y):
                return 'comparison of %s and %s' % (o, o2)
            if x == y and hash(o) != hash(o2):
                return 'hash of %s and %s' % (o, o2)


if __name__ == '__main__':
    run(gen, check, 'tiles built in a random order in a fresh module; the tile and every earlier one are compared with the definition')
