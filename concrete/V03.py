import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from common import run
from hands import rand_hand, names_of, counts, build, view, unit, pair_sets, decompositions


def gen(rng, tier):
    n = 4000 if tier == 'quick' else 60000
    for i in range(n):
        if i % 3 == 0:
            k = rng.choice([0, 1, 2, 5, 12, 30])
            yield {'items': [[rng.randrange(rng.choice([2, 4, 9])) for _ in range(rng.choice([1, 1, 2]))] for _ in range(k)]}
        elif i % 3 == 1:
            m = rng.choice([1, 2, 3, 7])
            h = [0] * 34
            for k in rng.sample(range(34), m + rng.choice([0, 1, 2])):
                h[k] = rng.choice([2, 2, 3, 4])
            yield {'n': m, 'hand': names_of(rng, h)}
        else:
            M, P = rng.choice([1, 2, 3, 4, 4, 4]), rng.choice([0, 1, 1, 1, 2])
            yield {'P': P, 'M': M, 'hand': names_of(rng, rand_hand(rng, 3 * M + 2 * P + rng.choice([0, 0, 0, 1, 2])))}


def check(case):
    from mahjong.container.utils import distinct
    from mahjong.container.pattern.win import NormalTypeWin, UniquePairs
    if 'items' in case:
        items = [tuple(x) for x in case['items']]
        want = []
        for x in items:
            if x not in want:
                want.append(x)
        got = list(distinct(iter(items)))
        return None if got == want else 'distinct gives %s, expected %s' % (got, want)
    hand = build(case['hand'])
    h = counts(case['hand'])
    if 'n' in case:
        pat, want = UniquePairs(case['n']), pair_sets(h, case['n'])
    else:
        pat, want = NormalTypeWin(case['P'], case['M']), decompositions(h, case['P'], case['M'])
    got = []
    for sel in pat.unique_win_selections(hand):
        us = [list(map(tuple, dict.items(s))) for s in sel]
        if us != sorted(us):
            return 'units of %s are not sorted' % (sel,)
        got.append(tuple(sorted(unit(s) for s in sel)))
    if len(set(got)) != len(got):
        return 'a decomposition is listed twice'
    if set(got) != want:
        return 'decompositions missing or invented: %s' % (sorted(set(got) ^ want)[:2],)
    if view(hand) != h:
        return 'the hand was changed'


if __name__ == '__main__':
    run(gen, check, 'random item lists; random hands of both patterns', lambda c: len(c.get('hand', c.get('items'))) > 2)
