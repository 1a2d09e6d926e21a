import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from common import run
from oracle import KINDS


def gen(rng, tier):
    for i in range(136):
        yield {'id': i}
    for n, c in KINDS:
        yield {'tile': [n, c]}
    for c in 'mps':
        yield {'tile': [0, c]}


def check(case):
    from mahjong.tile.definition import Tile, AkaTile
    from mahjong.record.utils.value.tile import tile_from_tenhou, tile_to_tenhou_range
    if 'id' in case:
        i = case['id']
        t = tile_from_tenhou(i)
        n, c = KINDS[i // 4]
        red = i in (16, 52, 88)
        want = '%d%s' % (0 if red else n, c)
        if str(t) != want or isinstance(t, AkaTile) != red or t != Tile(n, c) or hash(t) != hash(Tile(n, c)):
            return 'tile_from_tenhou(%d) is %s, expected %s' % (i, t, want)
        return None
    n, c = case['tile']
    t = AkaTile(0, c) if n == 0 else Tile(n, c)
    got = list(tile_to_tenhou_range(t))
    want = [i for i in range(136) if KINDS[i // 4] == (n or 5, c)]
    if got != want:
        return 'tile_to_tenhou_range(%s) is %s, expected %s' % (t, got, want)
    by_tile = [i for i in range(136) if tile_from_tenhou(i) == t]
    if got != by_tile:
        return 'tile_to_tenhou_range(%s) is %s, ids whose tile equals it are %s' % (t, got, by_tile)


if __name__ == '__main__':
    run(gen, check, 'every id 0..135 and every tile object', exhaustive=True)
