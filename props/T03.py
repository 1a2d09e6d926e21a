"""T03: TileSet operators, for arbitrary symbolic multisets over all 34 kinds."""
from props.lib import *
from props import tilesets as ts

FUNCS = ['container.set.TileSet.' + f for f in ('contains', 'exclude', '__add__', '__sub__', '__and__', '__or__', '__len__',
                                                'tiles', 're_sort')]
ASSUMPTIONS = ['counts of a multiset are not negative (entries with count zero are allowed); a red five is the same kind as '
               'the plain five']


def setup(lo=0):
    ts.install()
    S = M('mahjong.container.set')
    tiles = ts.tiles34()
    a = ts.sym_counter(S.TileSet, 'a', tiles, lo)
    b = ts.sym_counter(S.TileSet, 'b', tiles, lo)
    ca, cb = ts.counts(a, tiles), ts.counts(b, tiles)
    E.witness_fn = lambda ev: {'case': {'a': ts.ev_hand(ev, tiles, ca), 'b': ts.ev_hand(ev, tiles, cb)}}
    return S, tiles, a, b, ca, cb


def unchanged(tiles, a, b, ca, cb):
    E.prove('frame: operand a keeps its counts', And([x == y for x, y in zip(ts.counts(a, tiles), ca)]))
    E.prove('frame: operand b keeps its counts', And([x == y for x, y in zip(ts.counts(b, tiles), cb)]))
    E.prove('frame: no other keys', set(a._pv_d) <= set(tiles) and set(b._pv_d) <= set(tiles))


def pointwise(r, tiles, want, name):
    for t, w in zip(tiles, want):
        p, c = r._pv_get(t)
        E.prove('%s: count' % name, same(ts.count(r, t), w))
        E.prove('%s: only positive counts are kept' % name, Implies(ts._g(p), c > 0))
    E.prove('%s: no other keys' % name, set(r._pv_d) <= set(tiles))


def fits(ca, cb):
    return And([x >= y for x, y in zip(ca, cb)])


def op(name, f, want):
    def h():
        S, tiles, a, b, ca, cb = setup()
        r = f(a, b)
        E.cover('done')
        E.prove('result is a TileSet', type(r) is S.TileSet)
        E.prove('result is a new object', r is not a and r is not b)
        pointwise(r, tiles, [want(x, y) for x, y in zip(ca, cb)], name)
        unchanged(tiles, a, b, ca, cb)
    return h


def h_contains():
    S, tiles, a, b, ca, cb = setup()
    r = a.contains(b)
    E.cover('yes' if r is True else 'no')
    E.prove('contains iff every count fits', Iff(r, fits(ca, cb)))
    unchanged(tiles, a, b, ca, cb)


def h_exclude():
    S, tiles, a, b, ca, cb = setup()
    r = a.exclude(b)
    if r is None:
        E.cover('none')
        E.prove('None only if b does not fit', Not(fits(ca, cb)))
    else:
        E.cover('some')
        E.prove('difference only if b fits', fits(ca, cb))
        pointwise(r, tiles, [x - y for x, y in zip(ca, cb)], 'exclude')
    unchanged(tiles, a, b, ca, cb)


def h_len():
    S, tiles, a, b, ca, cb = setup()
    n = a.__len__()
    E.cover('len')
    E.prove('len is the number of tiles', same(n, sum(ca[1:], ca[0])))
    E.prove('len() is __len__', same(S.__dict__['__builtins__']['len'](a), n))
    unchanged(tiles, a, b, ca, cb)


def h_resort():
    S, tiles, a, b, ca, cb = setup()
    r = a.re_sort()
    E.cover('sorted')
    E.prove('counts stay', And([x == y for x, y in zip(ts.counts(a, tiles), ca)]))
    E.prove('entries are in tile order', a._pv_order and list(a._pv_d) == [t for t in tiles if t in a._pv_d])
    E.prove('no other keys', set(a._pv_d) <= set(tiles))


class TilesCut(Cut):
    """TileSet.tiles: ghost log of what was yielded; after i entries it is count copies of each of the first i."""
    name = 'TileSet.tiles/loop'

    def match(self, seq, loc):
        return isinstance(seq, GSeq) and seq.tag == 'items'

    def invariant(self, seq, i, loc):
        log = E.notes['yields']
        out = []
        for k, (g, (t, c)) in enumerate(seq.items):
            out.append(same(log.get(t, 0), ts.gite(g, c, 0) if k < i else 0))
        return [('yielded so far', And(out)), ('only tiles of the set', set(log) <= {v[0] for g, v in seq.items})]

    def havoc(self, seq, i, loc):
        log = E.notes['yields']
        log.clear()
        for g, (t, c) in seq.items[:i]:
            log[t] = ts.gite(g, c, 0)
        return {}


def h_tiles():
    S, tiles, a, b, ca, cb = setup()
    log = E.notes['yields'] = {}
    CUTS['TileSet.tiles'] = [TilesCut()]
    E.notes['yield_log'] = True
    for x in a.tiles():
        # one yield stands for a run: `yield from [tile] * num`
        t, n = x if isinstance(x, tuple) else (x, 1)
        log[t] = log.get(t, 0) + n
    E.cover('listed')
    for t, c in zip(tiles, ca):
        E.prove('every tile as often as it is held', same(log.get(t, 0), c))
    unchanged(tiles, a, b, ca, cb)


def harnesses(tier):
    mx = lambda x, y: ite(x >= y, x, y)
    mn = lambda x, y: ite(x <= y, x, y)
    return [Harness('contains', h_contains, FUNCS, ['yes', 'no']),
            Harness('exclude', h_exclude, FUNCS, ['none', 'some']),
            Harness('add', op('a+b', lambda a, b: a + b, lambda x, y: x + y), FUNCS, ['done']),
            Harness('sub', op('a-b', lambda a, b: a - b, lambda x, y: mx(x - y, 0)), FUNCS, ['done']),
            Harness('and', op('a&b', lambda a, b: a & b, mn), FUNCS, ['done']),
            Harness('or', op('a|b', lambda a, b: a | b, mx), FUNCS, ['done']),
            Harness('len', h_len, FUNCS, ['len']),
            Harness('re_sort', h_resort, FUNCS, ['sorted']),
            Harness('tiles', h_tiles, FUNCS, ['listed'])]
