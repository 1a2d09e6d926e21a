import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from common import run
from steps import *


def gen(rng, tier):
    for i in range(20000 if tier == 'quick' else 200000):
        M = shape(rng)
        yield {'M': M, 'hand': domain(rng, M, [0, 0, 0, 1, 2])}


def check(case):
    from mahjong.container.pattern.reasoning import HeuristicPatternMatchWaiting
    hand = build(case['hand'])
    h = counts(case['hand'])
    f = step_fn(case['M'])
    want = f(h)
    tiles = useful(h, f) if want >= 0 else set()
    w = HeuristicPatternMatchWaiting(pattern(case))
    a, b = w.waiting_and_useful_tiles(hand)
    if a != want:
        return 'waiting step %s, expected %d' % (a, want)
    for got in (b, HeuristicPatternMatchWaiting(pattern(case)).useful_tiles(hand)):
        if {kind(t) for t in got} != tiles or len(got) != len(tiles):
            return 'useful tiles %s, expected %s' % (sorted(map(str, got)), [NAMES[k] for k in sorted(tiles)])
    if view(hand) != h:
        return 'the hand was changed'


if __name__ == '__main__':
    run(gen, check, 'random hands of several shapes for 0-4 melds and seven pairs, up to one tile more than the pattern, red fives')
