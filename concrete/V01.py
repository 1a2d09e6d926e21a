import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from common import run
from hands import rand_hand, names_of, counts, build, view, unit, decompositions


def gen(rng, tier):
    n = 6000 if tier == 'quick' else 100000
    for i in range(n):
        M = rng.choice([0, 1, 2, 3, 4, 4, 4])
        P = rng.choice([0, 1, 1, 1, 1, 2])
        size = max(0, 3 * M + 2 * P + rng.choice([-1, 0, 0, 0, 0, 1, 2]))
        if i % 8 == 7:        # any multiset: many copies of few kinds
            M, P = rng.choice([(0, 1), (1, 0), (1, 1), (2, 1), (2, 2), (0, 3), (3, 0)])
            h = [0] * 34
            k = rng.randrange(34)
            for t in {k} | {rng.randrange(34) for _ in range(2)} | ({k + 1} if k < 33 else set()):
                h[t] = rng.choice([1, 2, 3, 5, 7, 8, 9, 12])
            yield {'P': P, 'M': M, 'hand': names_of(rng, h)}
            continue
        yield {'P': P, 'M': M, 'hand': names_of(rng, rand_hand(rng, size, rng.random() < .9))}


def check(case):
    from mahjong.container.pattern.win import NormalTypeWin
    P, M = case['P'], case['M']
    hand = build(case['hand'])
    h = counts(case['hand'])
    want = decompositions(h, P, M)
    got = set()
    for sel in NormalTypeWin(P, M).win_selections(hand):
        u = tuple(sorted(unit(s) for s in sel))
        if u not in want:
            return 'yielded %s, which is no decomposition' % (sel,)
        got.add(u)
    if got != want:
        return 'missed %s' % (sorted(want - got)[:2],)
    if view(hand) != h:
        return 'the hand was changed'
    if NormalTypeWin(P, M).match(hand) is not bool(want):
        return 'match is wrong'


if __name__ == '__main__':
    run(gen, check, 'random hands of several shapes (one suit, honours, built from units), 0-2 pairs and 0-4 melds, red fives',
        lambda c: len(c['hand']) > 2)
