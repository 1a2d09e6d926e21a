import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from common import run
from oracle import KINDS, NAMES

KEYS = NAMES + ['0m', '0p', '0s']


def gen(rng, tier):
    def some(neg=False):
        ks = rng.sample(KEYS, rng.choice([0, 1, 2, 3, 5, 8, 14, 37]))
        return {k: rng.choice([0, 1, 1, 1, 2, 2, 3, 4, 5]) for k in ks}
    for n in range(3000 if tier == 'quick' else 60000):
        a = some()
        b = some()
        if rng.random() < .5:
            b = {k: rng.randrange(0, v + 2) for k, v in a.items() if rng.random() < .7}
        yield {'a': a, 'b': b}


def check(case):
    from mahjong.tile.definition import Tile, AkaTile
    from mahjong.container.set import TileSet

    def tile(s):
        return AkaTile(0, s[1]) if s[0] == '0' else Tile(int(s[0]), s[1])

    def build(d):
        s = TileSet()
        for k, v in d.items():
            s[tile(k)] = s[tile(k)] + v
        return s

    def plain(d):
        r = dict.fromkeys(KINDS, 0)
        for k, v in d.items():
            r[(int(k[0]) or 5, k[1])] += v
        return r

    def view(s):
        r = dict.fromkeys(KINDS, 0)
        for k, v in dict.items(s):
            r[(k.number or 5, k.color)] += v
        return r
    a, b = build(case['a']), build(case['b'])
    A, B = plain(case['a']), plain(case['b'])

    def test(name, got, want, positive=True):
        if view(got) != want:
            return '%s: %s' % (name, dict(got))
        if positive and any(v <= 0 for v in dict.values(got)):
            return '%s keeps a count that is not positive: %s' % (name, dict(got))
        if type(got) is not TileSet:
            return '%s is a %s' % (name, type(got))
        if view(a) != A or view(b) != B:
            return '%s changed an operand' % name
        if got is a or got is b:
            return '%s returns its operand' % name
    m = test('a+b', a + b, {k: A[k] + B[k] for k in KINDS}) or \
        test('a-b', a - b, {k: max(0, A[k] - B[k]) for k in KINDS}) or \
        test('a&b', a & b, {k: min(A[k], B[k]) for k in KINDS}) or \
        test('a|b', a | b, {k: max(A[k], B[k]) for k in KINDS})
    if m:
        return m
    fits = all(A[k] >= B[k] for k in KINDS)
    if a.contains(b) is not fits:
        return 'contains is %r' % a.contains(b)
    e = a.exclude(b)
    if (e is not None) != fits:
        return 'exclude is %r' % e
    if fits:
        m = test('exclude', e, {k: A[k] - B[k] for k in KINDS})
        if m:
            return m
    if len(a) != sum(A.values()):
        return 'len is %d' % len(a)
    lst = list(a.tiles())
    got = dict.fromkeys(KINDS, 0)
    for t in lst:
        got[(t.number or 5, t.color)] += 1
    if got != A:
        return 'tiles() lists %s' % lst
    if view(a) != A or view(b) != B:
        return 'an operand changed'
    c = build(case['a'])
    before = [(id(k), v) for k, v in dict.items(c)]
    c.re_sort()
    after = [(id(k), v) for k, v in dict.items(c)]
    if sorted(before) != sorted(after):
        return 're_sort changed the entries'
    ks = list(dict.keys(c))
    if any(not x < y for x, y in zip(ks, ks[1:])):
        return 're_sort left %s' % ks


if __name__ == '__main__':
    run(gen, check, 'random pairs of multisets over 34 kinds and red fives (zero entries, sub-multisets, empty)',
        nontrivial=lambda c: bool(c['a']) and bool(c['b']))
