"""C02: tenhou ids."""
from props.lib import *

FUNCS = ['record.utils.value.tile.tile_from_tenhou', 'record.utils.value.tile.tile_to_tenhou_range',
         'record.category.MixedCategory.category', 'record.category.MixedCategory.index',
         'record.category.SubCategory._category_iter', 'record.category.SubCategory.index']
ASSUMPTIONS = []


def h_from():
    T = M('mahjong.record.utils.value.tile')
    D = M('mahjong.tile.definition')
    i = fresh_int('id', 0, 135)
    E.witness_fn = lambda ev: {'case': {'id': ev(i)}}
    t = T.tile_from_tenhou(i)
    E.cover('tile')
    red = Or(i == 16, i == 52, i == 88)
    E.prove('red five exactly for 16, 52, 88', Iff(isinstance(t, D.AkaTile), red))
    k = i // 4
    E.prove('suit', k // 9 == SUITS.index(t.color))
    E.prove('number', t.number == ite(red, 0, k % 9 + 1))
    if isinstance(t, D.AkaTile):
        E.prove('red five equals the plain five', t == D.Tile(5, t.color))
    else:
        E.prove('plain tile is the one interned object', t is D.Tile(int(t.number), t.color))


def h_range():
    T = M('mahjong.record.utils.value.tile')
    D = M('mahjong.tile.definition')
    j = fresh_int('id', 0, 135)
    k = fresh_int('kind', 0, 33)
    n, c = KINDS[k.__index__()]
    red = E.choose([False, True]) if n == 5 and c != 'z' else False
    E.witness_fn = lambda ev: {'case': {'tile': [0 if red else n, c]}}
    tile = D.AkaTile(0, c) if red else D.Tile(n, c)
    r = T.tile_to_tenhou_range(tile)
    E.cover('range')
    eq('the range is the four ids of the kind', list(r), [4 * k.__index__() + q for q in range(4)])
    E.prove('id in range iff its kind is the kind of the tile', Iff(Or([j == x for x in r]), j // 4 == k))


def harnesses(tier):
    return [Harness('tile_from_tenhou', h_from, FUNCS, ['tile']),
            Harness('tile_to_tenhou_range', h_range, FUNCS, ['range'])]
