import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from common import run
from oracle import NAMES

ALL = NAMES + ['0m', '0p', '0s']


def spec(name):
    n, c = int(name[0]), name[1]
    if c == 'z':
        return [{'1z': '2z', '2z': '3z', '3z': '4z', '4z': '1z', '5z': '6z', '6z': '7z', '7z': '5z'}[name]]
    n = n or 5
    return ['%d%s' % (1 if n == 9 else n + 1, c)] + (['0' + c] if n == 4 else [])


def gen(rng, tier):
    for x in ALL:
        yield {'indicators': [x]}
    yield {'indicators': []}
    for a in (3, 4):
        for b in (False, True):
            yield {'players': a, 'aka': b}
    for n in range(2000 if tier == 'quick' else 30000):
        yield {'indicators': [rng.choice(ALL) for _ in range(rng.randrange(0, 9))]}
        yield {'players': rng.choice([3, 4]), 'aka': rng.random() < .5}


def check(case):
    from mahjong.record import const
    if 'indicators' in case:
        got = list(const.doras(list(case['indicators'])))
        want = [d for x in case['indicators'] for d in spec(x)]
        return None if got == want else 'doras(%s) = %s, expected %s' % (case['indicators'], got, want)
    got = sorted(const.initial_tiles(case['players'], case['aka']))
    want = []
    for x in NAMES:
        if case['players'] == 3 and x[1] == 'm' and x[0] in '2345678':
            continue
        want += [x] * 4
    if case['aka']:
        for c in ('mps' if case['players'] == 4 else 'ps'):
            want.remove('5' + c)
            want.append('0' + c)
    return None if got == sorted(want) else 'initial_tiles(%s, %s) = %s' % (case['players'], case['aka'], got)


if __name__ == '__main__':
    run(gen, check, 'every indicator, random lists of indicators, the four kinds of games in random order')
