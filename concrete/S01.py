import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from common import run
from steps import *


def gen(rng, tier):
    for i in range(20000 if tier == 'quick' else 200000):
        M = shape(rng)
        yield {'M': M, 'hand': domain(rng, M, [0, 0, 1, 1, 2])}


def check(case):
    from mahjong.container.pattern.reasoning import HeuristicPatternMatchWaiting
    hand = build(case['hand'])
    h = counts(case['hand'])
    want = step_fn(case['M'])(h)
    w = HeuristicPatternMatchWaiting(pattern(case))
    for _ in range(2):
        got = w.before_waiting_step(hand)
        if got != want:
            return 'waiting step %s, expected %d' % (got, want)
    if view(hand) != h:
        return 'the hand was changed'
    if (want == -1) is not pattern(case).match(hand):
        return 'step -1 and match disagree'


if __name__ == '__main__':
    run(gen, check, 'random hands of several shapes for 0-4 melds and seven pairs, up to one tile more than the pattern, red fives')
