import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from common import run
from oracle import KINDS


def scan(text):
    """(digit, suit) of every tile of the text: a group is digits and then m, p or s, or digits 1-7 and then z."""
    out, i = [], 0
    while i < len(text):
        j = i
        while j < len(text) and text[j] in '0123456789':
            j += 1
        if j > i and j < len(text) and text[j] in 'mps':
            out += [(int(d), text[j]) for d in text[i:j]]
            i = j + 1
            continue
        j = i
        while j < len(text) and text[j] in '1234567':
            j += 1
        if j > i and j < len(text) and text[j] == 'z':
            out += [(int(d), 'z') for d in text[i:j]]
            i = j + 1
            continue
        i += 1
    return out


def gen(rng, tier):
    n = 20000 if tier == 'quick' else 300000
    for a in '0123456789mpsz x':
        for b in '0123456789mpsz x':
            for c in '05189mpsz ':
                yield {'text': a + b + c}
    for _ in range(n):
        k = rng.randrange(4)
        if k == 0:
            yield {'text': ''.join(rng.choice('0123456789mpsz -ab\u0663\uff11') for _ in range(rng.randrange(12)))}
        elif k == 1:
            yield {'text': ''.join(''.join(rng.choice('0123456789') for _ in range(rng.randrange(1, 9))) + rng.choice('mpsz ')
                                   for _ in range(rng.randrange(1, 6)))}
        else:
            kinds = rng.sample(range(37), rng.randrange(0, 20))
            tiles = [['%d' % KINDS[x][0] + KINDS[x][1] if x < 34 else '0' + 'mps'[x - 34],
                      rng.choice([1, 1, 2, 3, 4, 4, 12])] for x in kinds]
            yield {'tiles': tiles, 'order': rng.randrange(2)}


def check(case):
    from mahjong.container.utils import tiles_from_string, tile_set_from_string
    from mahjong.container.set import TileSet
    from mahjong.tile.definition import Tile, AkaTile

    def count(s, n, c):
        return s[Tile(n, c)]

    if 'text' in case:
        want = scan(case['text'])
        got = list(tiles_from_string(case['text']))
        if [(t.number, t.color) for t in got] != want:
            return 'parsed %s, expected %s' % (got, want)
        for t, (n, c) in zip(got, want):
            if type(t) is not (AkaTile if n == 0 else Tile):
                return '%s of type %s' % (t, type(t))
        s = tile_set_from_string(case['text'])
        cnt = {}
        for n, c in want:
            cnt[n or 5, c] = cnt.get((n or 5, c), 0) + 1
        if type(s) is not TileSet or {(t.number or 5, t.color): v for t, v in s.items()} != cnt:
            return 'multiset %r, expected %s' % (dict(s), cnt)
        if [KINDS.index((t.number or 5, t.color)) for t in s] != sorted(KINDS.index(k) for k in cnt):
            return 'order of the multiset %s' % list(s)
        return None
    tiles = []
    for name, k in case['tiles']:
        n, c = int(name[0]), name[1]
        tiles += [Tile(n, c) if n else AkaTile(0, c)] * k
    s = TileSet(tiles)
    cnt = {}
    for t in tiles:
        cnt[t.number or 5, t.color] = cnt.get((t.number or 5, t.color), 0) + 1
    back = tile_set_from_string(str(s))
    if {(t.number or 5, t.color): v for t, v in back.items()} != cnt:
        return '%s parses to %s, expected %s' % (s, dict(back), cnt)
    if not (back == s) or len(back) != len(tiles) or str(back) != str(s):
        return 'parsed multiset differs from the printed one'
    if {(t.number or 5, t.color): v for t, v in s.items()} != cnt:
        return 'printing changed the multiset'


if __name__ == '__main__':
    run(gen, check, 'all texts of length 3 over the alphabet of the notation, random texts and groups, random multisets with red fives')
