import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from common import run
from hands import rand_hand, names_of, counts, build, view, unit, pair_sets


def gen(rng, tier):
    n = 6000 if tier == 'quick' else 100000
    for i in range(n):
        m = rng.choice([0, 1, 2, 3, 5, 6, 7, 7, 7, 7])
        size = max(0, 2 * m + rng.choice([-1, 0, 0, 0, 1, 3]))
        h = rand_hand(rng, size, rng.random() < .9)
        if rng.random() < .5:      # many pairs, some of them doubled
            h = [0] * 34
            for k in rng.sample(range(34), min(34, max(1, m + rng.choice([-1, 0, 0, 1, 2])))):
                h[k] = rng.choice([1, 2, 2, 2, 2, 3, 4])
        if i % 7 == 6:         # any multiset, any number of pairs
            ks = rng.sample(range(34), rng.choice([1, 3, 6, 9, 12]))
            few = rng.random() < .5
            h = [(2 if few else rng.choice([1, 2, 2, 3, 5, 8])) if k in ks else 0 for k in range(34)]
            have = sum(1 for x in h if x >= 2)
            m = max(0, have - rng.choice([0, 0, 1, -1]))
        yield {'n': m, 'hand': names_of(rng, h)}


def check(case):
    from mahjong.container.pattern.win import UniquePairs
    n = case['n']
    hand = build(case['hand'])
    h = counts(case['hand'])
    want = pair_sets(h, n)
    got = set()
    pat = UniquePairs(n)
    for sel in pat.win_selections(hand):
        u = tuple(sorted(unit(s) for s in sel))
        if u not in want:
            return 'yielded %s, which is no set of different pairs of the hand' % (sel,)
        got.add(u)
    if got != want:
        return 'missed %s' % (sorted(want - got)[:2],)
    if view(hand) != h:
        return 'the hand was changed'
    for _ in range(2):       # the pattern object can be used again
        if pat.match(hand) is not (sum(1 for x in h if x >= 2) >= n):
            return 'match is wrong'


if __name__ == '__main__':
    run(gen, check, 'random hands, 0-7 pairs, four of a kind, red fives', lambda c: len(c['hand']) > 2)
