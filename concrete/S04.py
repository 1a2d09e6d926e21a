import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from common import run
from steps import *


def gen(rng, tier):
    for i in range(20000 if tier == 'quick' else 200000):
        M = rng.choice([None, 0, 1, 1, 2, 2, 3, 3, 4])
        names = domain(rng, M, [0, 0, 1, 1, 2])
        s = step_fn(M)(counts(names))
        if s <= (3 if M in (None, 0, 1, 2) else 1):
            yield {'M': M, 'hand': names}


def check(case):
    from mahjong.container.pattern.reasoning import PatternMatchWaiting, BruteForceWaiting
    h = counts(case['hand'])
    f = step_fn(case['M'])
    want = f(h)
    tiles = useful(h, f) if want >= 0 else set()
    engines = [PatternMatchWaiting]
    if want <= 0 or (want == 1 and case['M'] in (0, 1)):
        engines.append(BruteForceWaiting)
    for cls in engines:
        hand = build(case['hand'])
        if cls(pattern(case)).before_waiting_step(hand) != want:
            return '%s: waiting step %s, expected %d' % (cls.__name__, cls(pattern(case)).before_waiting_step(hand), want)
        a, b = cls(pattern(case)).waiting_and_useful_tiles(hand)
        c = cls(pattern(case)).useful_tiles(hand)
        if a != want:
            return '%s: waiting step %s, expected %d' % (cls.__name__, a, want)
        for got in (b, c):
            if {kind(t) for t in got} != tiles or len(got) != len(tiles):
                return '%s: useful tiles %s, expected %s' % (cls.__name__, sorted(map(str, got)), [NAMES[k] for k in sorted(tiles)])
        if view(hand) != h:
            return '%s changed the hand' % cls.__name__


if __name__ == '__main__':
    run(gen, check, 'random hands close to complete for 0-4 melds and seven pairs, red fives')
