import os, sys, random
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from common import run
from oracle import KINDS, NAMES


def gen(rng, tier):
    for n in range(400 if tier == 'quick' else 8000):
        mode = rng.choice(['full', 'few', 'some', 'one'])
        if mode == 'full':
            w = dict.fromkeys(NAMES, 4)
        else:
            ks = rng.sample(NAMES, {'few': 3, 'some': 12, 'one': 1}[mode])
            w = {k: rng.choice([0, 1, 1, 2, 3, 4, 7]) for k in ks}
        tot = sum(w.values())
        yield {'wall': w, 'n': rng.choice([tot, tot, rng.randint(0, tot)]), 'seed': rng.randrange(10 ** 6),
               'picks': rng.sample([k for k in w for _ in range(w[k])], min(5, tot))}


def check(case):
    from mahjong.tile.definition import Tile
    from mahjong.container.set import TileSet
    from mahjong.container.distribution import StaticWall, TileDistribution
    t = {k: Tile(int(k[0]), k[1]) for k in NAMES}
    ts = TileSet({t[k]: v for k, v in case['wall'].items()})
    if [str(x) for x in TileDistribution.ALL_TILES] != NAMES:
        return 'ALL_TILES'
    src = [case['wall'].get(k, 0) for k in NAMES]

    def now(w):
        return [w.weight_of(t[k]) for k in NAMES]
    w = StaticWall(ts)
    if list(w.weights()) != src or now(w) != src:
        return 'weights %s' % list(w.weights())
    cur, left = w, list(src)
    for k in case.get('picks', []):
        prev = cur
        cur = cur.pick(t[k])
        if now(prev) != left:
            return 'pick changed the wall it started from'
        left[NAMES.index(k)] -= 1
        if now(cur) != left or list(cur.weights()) != left:
            return 'after picking %s the weights are %s' % (k, now(cur))
    if now(w) != src:
        return 'pick changed the source wall'
    if 'n' in case:
        random.seed(case.get('seed', 1))
        got = list(w.sample(case['n']))
        if len(got) != case['n']:
            return 'sample(%d) drew %d' % (case['n'], len(got))
        for k, s in zip(NAMES, src):
            if sum(1 for x in got if x == t[k]) > s:
                return 'sample overdraws %s: %s' % (k, got)
        if now(w) != src or {k: ts[t[k]] for k in NAMES} != dict(zip(NAMES, src)):
            return 'sample changed the source wall'


if __name__ == '__main__':
    run(gen, check, 'random walls with zero entries, drawn to the end', nontrivial=lambda c: c['n'] > 0)
