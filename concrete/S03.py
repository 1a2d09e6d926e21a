import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from common import run
from steps import *


def gen(rng, tier):
    for i in range(20000 if tier == 'quick' else 200000):
        M = shape(rng)
        names = domain(rng, M, [1])
        if step_fn(M)(counts(names)) >= 0:
            yield {'M': M, 'hand': names}


def check(case):
    from mahjong.container.pattern.reasoning import HeuristicPatternMatchWaiting
    hand = build(case['hand'])
    h = counts(case['hand'])
    f = step_fn(case['M'])
    s = f(h)
    want = {}
    for k in range(34):
        if h[k]:
            g = list(h)
            g[k] -= 1
            if f(g) == s:
                want[k] = useful(g, f)
    got = {}
    for tile, step, use in HeuristicPatternMatchWaiting(pattern(case)).batch_waiting_and_useful_tiles(hand):
        if kind(tile) in got:
            return '%s is listed twice' % tile
        if step != s:
            return 'step %s of discard %s, expected %d' % (step, tile, s)
        got[kind(tile)] = {kind(t) for t in use}
        if len(got[kind(tile)]) != len(use):
            return 'useful tiles of %s are listed twice' % tile
    if set(got) != set(want):
        return 'discards %s, expected %s' % ([NAMES[k] for k in sorted(got)], [NAMES[k] for k in sorted(want)])
    for k in want:
        if got[k] != want[k]:
            return 'useful after %s: %s, expected %s' % (NAMES[k], [NAMES[x] for x in sorted(got[k])], [NAMES[x] for x in sorted(want[k])])
    if view(hand) != h:
        return 'the hand was changed'


if __name__ == '__main__':
    run(gen, check, 'random incomplete hands of 3M+2 (14) tiles of several shapes for 0-4 melds and seven pairs, red fives')
