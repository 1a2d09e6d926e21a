"""Random hands and the decompositions they contain (independent of /repo)."""
from oracle import KINDS, NAMES

PAIRS = [((k, 2),) for k in range(34)]
MELDS = [tuple((k + i, 1) for i in range(3)) for k in range(27) if k % 9 < 7] + [((k, 3),) for k in range(34)]


def rand_hand(rng, size, four=True):
    """34 counts of a hand of the given size, in one of several shapes."""
    shape = rng.randrange(6)
    lim = 4 if four else 6
    h = [0] * 34
    pool = list(range(34))
    if shape == 0:
        c = rng.randrange(3)
        pool = list(range(9 * c, 9 * c + 9))
    elif shape == 1:
        c = rng.sample(range(3), 2)
        pool = [k for x in c for k in range(9 * x, 9 * x + 9)]
    elif shape == 2:
        pool = list(range(27, 34)) + [0, 8, 9, 17, 18, 26]
    elif shape == 3:          # few kinds, many copies
        pool = rng.sample(range(34), max(5, size // 3 + 1))
    if shape in (4, 5):       # start from units
        n = 0
        for _ in range(40):
            if n >= size:
                break
            u = rng.choice(PAIRS if rng.random() < (.3 if shape == 4 else .85) else MELDS)
            if all(h[k] + c <= lim for k, c in u) and n + sum(c for _, c in u) <= size:
                for k, c in u:
                    h[k] += c
                n += sum(c for _, c in u)
        for _ in range(rng.randrange(0, 4)):
            ks = [k for k in range(34) if h[k]]
            if ks:
                k = rng.choice(ks)
                h[k] -= 1
    while len(pool) * lim < size:
        pool.append(rng.randrange(34))
        pool = sorted(set(pool))
    while sum(h) < size:
        k = rng.choice(pool if rng.random() < .95 else list(range(34)))
        if h[k] < lim:
            h[k] += 1
    while sum(h) > size:
        k = rng.choice([k for k in range(34) if h[k]])
        h[k] -= 1
    return h


def names_of(rng, h):
    """Tile names of a hand, a five sometimes red, in a random order."""
    out = []
    for k, c in enumerate(h):
        for i in range(c):
            red = KINDS[k][0] == 5 and KINDS[k][1] != 'z' and i == 0 and rng.random() < .3
            out.append('0' + KINDS[k][1] if red else NAMES[k])
    rng.shuffle(out)
    return out


def counts(names):
    h = [0] * 34
    for s in names:
        h[NAMES.index(s.replace('0', '5'))] += 1
    return h


def build(names):
    from mahjong.tile.definition import Tile, AkaTile
    from mahjong.container.set import TileSet
    return TileSet([AkaTile(0, s[1]) if s[0] == '0' else Tile(int(s[0]), s[1]) for s in names])


def kind(t):
    return KINDS.index((t.number or 5, t.color))


def view(s):
    """34 counts of a TileSet."""
    h = [0] * 34
    for t, c in dict.items(s):
        h[kind(t)] += c
    return h


def unit(s):
    return tuple(sorted((kind(t), c) for t, c in dict.items(s)))


def choices(h, units, n, start=0):
    """All multisets of n of the units inside h, as tuples of indices into units."""
    if n == 0:
        yield ()
        return
    for i in range(start, len(units)):
        u = units[i]
        if all(h[k] >= c for k, c in u):
            for k, c in u:
                h[k] -= c
            for rest in choices(h, units, n - 1, i):
                yield (i,) + rest
            for k, c in u:
                h[k] += c


def decompositions(h, P, M):
    out = set()
    h = list(h)
    for ps in choices(h, PAIRS, P):          # the pairs are taken out of h while the generator waits
        for ms in choices(h, MELDS, M):
            out.add(tuple(sorted([PAIRS[i] for i in ps] + [MELDS[i] for i in ms])))
    return out


def pair_sets(h, n):
    import itertools
    ks = [k for k in range(34) if h[k] >= 2]
    return {tuple(sorted(((k, 2),) for k in c)) for c in itertools.combinations(ks, n)}
