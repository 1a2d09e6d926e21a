import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from common import run, Event


def spec(c, who):
    """(kind of meld, tiles, borrowed id or None, source) of a code, None if it is not well formed."""
    kui = c & 3
    src = (who + kui) % 4
    if c & 4:
        t = c >> 10
        if t >= 63:
            return None
        base, r = divmod(t, 3)
        k = base // 7 * 9 + base % 7
        tiles = [4 * (k + i) + ((c >> (3 + 2 * i)) & 3) for i in range(3)]
        return 'flush', tiles, tiles[r], src
    if c & 8:
        t = c >> 9
        if t >= 102:
            return None
        tiles = [4 * (t // 3) + i for i in range(4) if i != (c >> 5) & 3]
        return 'triplet', tiles, tiles[t % 3], src
    if c & 16:
        t = c >> 9
        if t >= 102:
            return None
        return 'add_kan', [4 * (t // 3) + ((c >> 5) & 3)], None, src
    t = c >> 8
    if t >= 136:
        return None
    if c & 32:
        return 'kita', [t], None, src
    tiles = [4 * (t // 4) + i for i in range(4)]
    return 'kan', tiles, (tiles[t % 4] if kui else None), src


def gen(rng, tier):
    codes = list(range(65536))
    rng.shuffle(codes)
    for c in codes:
        who = rng.randrange(4)
        if spec(c, who):
            yield {'code': c, 'who': who}
            if spec(c, who)[0] == 'triplet':
                k = spec(c, who)[1][0] // 4
                yield {'code': c, 'who': who, 'added': 16 + (c & 3) + (c & 96) + 512 * (3 * k + rng.randrange(3))}
                j = rng.randrange(34)
                if j != k:
                    yield {'code': c, 'who': who, 'added': 16 + (c & 3) + 32 * rng.randrange(4) + 512 * (3 * j + rng.randrange(3))}


def check(case):
    from mahjong.record.utils.value import meld as ML
    c, who = case['code'], case['who']
    kind, tiles, b, src = spec(c, who)
    m = ML.meld_from(Event('N', who=str(who), m=str(c)))
    cls = {'flush': ML.Flush, 'triplet': ML.Triplet, 'add_kan': ML.TenhouAddedKan, 'kita': ML.Kita, 'kan': ML.TenhouKan}[kind]
    if type(m) is not cls or ML.meld_type(str(c)) is not getattr(ML.MeldType, kind):
        return 'type %s %s, expected %s' % (type(m), ML.meld_type(str(c)), kind)
    if set(m.borrowed_tiles) != ({b} if b is not None else set()):
        return 'borrowed %s, expected %s' % (m.borrowed_tiles, b)
    if set(m.self_tiles) != set(tiles) - {b}:
        return 'self tiles %s, expected %s' % (m.self_tiles, set(tiles) - {b})
    if m.from_who != src:
        return 'from %s, expected %s' % (m.from_who, src)
    if bool(m.is_opened()) != (b is not None):
        return 'is_opened'
    if kind == 'kan' and bool(m.is_opened_kan) != (b is not None):
        return 'is_opened_kan'
    if 'added' in case:
        a = ML.meld_from(Event('N', who=str(who), m=str(case['added'])))
        k, j = tiles[0] // 4, spec(case['added'], who)[1][0] // 4
        if bool(ML.is_triplet_of_added_kan(m, a)) != (k == j):
            return 'is_triplet_of_added_kan of kinds %d and %d' % (k, j)
        if k == j:
            kan = ML.KanFromTriplet(m, a)
            if set(kan.self_tiles) | set(kan.borrowed_tiles) != set(range(4 * k, 4 * k + 4)) or \
                    set(kan.self_tiles) & set(kan.borrowed_tiles) or set(kan.borrowed_tiles) != {b}:
                return 'added kan holds %s and %s' % (kan.self_tiles, kan.borrowed_tiles)
            if kan.from_who != src or kan.is_opened() is not True or kan.is_opened_kan is not True:
                return 'added kan from %s' % kan.from_who


if __name__ == '__main__':
    run(gen, check, 'every well-formed meld code with a player, triplets with added tiles of the same and of other kinds')
