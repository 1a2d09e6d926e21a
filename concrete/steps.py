"""Shared by S01-S04 and K01: hands of the domain and the defining oracle."""
from oracle import KINDS, NAMES, mincost, pairs_cost, useful
from hands import rand_hand, names_of, counts, build, view, kind


def pattern(case):
    from mahjong.container.pattern.win import NormalTypeWin, UniquePairs
    return UniquePairs() if case['M'] is None else NormalTypeWin(1, case['M'])


def step_fn(M):
    return (lambda h: pairs_cost(h, 7) - 1) if M is None else (lambda h: mincost(tuple(h), M, 1) - 1)


def domain(rng, M, sizes):
    """A hand of 3M+1 (13) tiles plus one of the given extra sizes, close to complete more often than by chance."""
    size = (13 if M is None else 3 * M + 1) + rng.choice(sizes)
    h = rand_hand(rng, size)
    if M is None and rng.random() < .7:
        h = [0] * 34
        for k in rng.sample(range(34), rng.choice([4, 5, 6, 7, 8, 9])):
            h[k] = rng.choice([1, 2, 2, 2, 3, 4])
        while sum(h) > size:
            k = rng.choice([k for k in range(34) if h[k]])
            h[k] -= 1
        while sum(h) < size:
            k = rng.choice([k for k in range(34) if h[k] < 4])
            h[k] += 1
    return names_of(rng, h)


def shape(rng):
    return rng.choice([None, 0, 1, 1, 2, 2, 3, 3, 4, 4, 4])
