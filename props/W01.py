"""W01: walls.  random.choices is under its documented contract: it returns one of the items whose weight is positive
(it raises when there is none); every answer it can give is a case of the proof."""
from props.lib import *
from props import tilesets as ts

FUNCS = ['container.distribution.TileDistribution.sample', 'container.distribution.TileDistribution.weights',
         'container.distribution.StaticWall.weight_of', 'container.distribution.StaticWall.pick']
TRUSTED = ['contract of random.choices: the answer is an item of positive weight']
ASSUMPTIONS = ['counts of a wall are not negative']


def setup():
    ts.install()
    W = M('mahjong.container.distribution')
    S = M('mahjong.container.set')
    tiles = ts.tiles34()
    a = ts.sym_counter(S.TileSet, 'wall', tiles, 0)
    ca = ts.counts(a, tiles)
    return W, S, tiles, a, ca


def wall_counts(W, w, tiles):
    return [w.weight_of(t) for t in tiles]


def h_pick():
    W, S, tiles, a, ca = setup()
    k = E.choose(list(range(34)))
    E.assume_checked(ca[k] > 0)
    E.witness_fn = lambda ev: {'case': {'wall': ts.ev_hand(ev, tiles, ca), 'picks': [str(tiles[k])]}}
    w = W.StaticWall(a)
    before = wall_counts(W, w, tiles)
    E.prove('weight_of is the count', And([x == y for x, y in zip(before, ca)]))
    w2 = w.pick(tiles[k])
    E.cover('picked')
    after = wall_counts(W, w2, tiles)
    for i in range(34):
        E.prove('one copy of the picked tile goes, nothing else', same(after[i], ca[i] - (1 if i == k else 0)))
    E.prove('the source wall keeps its weights', And([x == y for x, y in zip(wall_counts(W, w, tiles), ca)]))
    E.prove('the source set keeps its counts', And([x == y for x, y in zip(ts.counts(a, tiles), ca)]))
    E.prove('the new wall is another wall', w2 is not w)


def h_weights():
    W, S, tiles, a, ca = setup()
    E.witness_fn = lambda ev: {'case': {'wall': ts.ev_hand(ev, tiles, ca), 'picks': []}}
    E.prove('all tiles in tile order', [str(t) for t in W.TileDistribution.ALL_TILES] == ['%d%s' % k for k in KINDS])
    ws = W.StaticWall(a).weights()
    E.cover('weights')
    eq('weights in tile order', list(ws), ca)
    E.prove('the source set keeps its counts', And([x == y for x, y in zip(ts.counts(a, tiles), ca)]))


class SampleCut(Cut):
    """sample: after m draws the current wall is the source minus the ghost log of the draws, and the log never
    exceeds the source."""
    name = 'TileDistribution.sample/loop'

    def match(self, seq, loc):
        return isinstance(seq, ASeq) and 'current' in loc

    def enter(self, seq, loc):
        self.src = loc['self']

    def length(self, seq, loc):
        return seq.n

    def indices(self, seq, loc):
        m = fresh_int('m', 0)
        E.assume_checked(m < seq.n)
        return [m]

    def element(self, seq, i, loc):
        return True, i

    def invariant(self, seq, i, loc):
        N = E.notes
        cur = loc['current']
        cc = [cur.weight_of(t) for t in N['tiles']]
        tot = sum(N['drawn'][1:], N['drawn'][0])
        return [('current wall is the source minus the draws', And([c == s - d for c, s, d in zip(cc, N['src'], N['drawn'])])),
                ('draws never exceed the source', And([And(0 <= d, d <= s) for s, d in zip(N['src'], N['drawn'])])),
                ('as many draws as iterations', tot == i)]

    def havoc(self, seq, i, loc):
        N = E.notes
        N['drawn'] = [fresh_int('drawn', 0) for _ in N['tiles']]
        for s, d in zip(N['src'], N['drawn']):
            E.assume(d <= s)
        E.assume(sum(N['drawn'][1:], N['drawn'][0]) == i)
        w = N['S'].TileSet()
        for t, s, d in zip(N['tiles'], N['src'], N['drawn']):
            # representation of a wall after some picks: the entry may be gone once the count is zero
            p = z3.Bool(E.fresh_name('cur.has'))
            E.assume(Implies(SBool(z3.Not(p)), s - d == 0))
            w._pv_d[t] = (p, s - d)
        w._pv_order = False
        return {'current': N['W'].StaticWall(w)}

    def modifies(self, loc):
        return []


def h_sample():
    W, S, tiles, a, ca = setup()
    n = fresh_int('n', 0)
    tot = sum(ca[1:], ca[0])
    E.assume(n <= tot)
    N = E.notes
    N.update(W=W, S=S, tiles=tiles, src=ca, drawn=[0] * 34)
    N['range_hook'] = lambda *x: ASeq(x[0], lambda i: i) if len(x) == 1 else None
    CUTS['TileDistribution.sample'] = [SampleCut()]

    def choices(population, weights, k):
        E.prove('the population is all tiles', list(population) == tiles and k == 1)
        ws = list(weights)
        E.prove('one weight per tile', len(ws) == 34)
        # some tile is left: fewer draws than the size of the wall
        E.prove('some weight is positive (random.choices cannot fail)', Or([w > 0 for w in ws]))
        i = E.choose(list(range(34)))
        E.assume_checked(ws[i] > 0)
        return [population[i]]
    N['random_choices'] = choices
    E.witness_fn = lambda ev: {'case': {'wall': ts.ev_hand(ev, tiles, ca), 'n': ev(n), 'seed': 1}}
    first = E.choose([True])
    for x in W.StaticWall(a).sample(n):
        E.cover('drawn')
        i = next(i for i in range(34) if tiles[i] == x)
        # property: the wall still held this tile
        E.prove('a drawn tile was still in the wall', N['drawn'][i] < ca[i])
        N['drawn'] = [d + 1 if j == i else d for j, d in enumerate(N['drawn'])]
    E.cover('finished')
    E.prove('exactly n tiles', sum(N['drawn'][1:], N['drawn'][0]) == n)
    E.prove('the source set keeps its counts', And([x == y for x, y in zip(ts.counts(a, tiles), ca)]))


def harnesses(tier):
    return [Harness('pick', h_pick, FUNCS, ['picked']), Harness('weights', h_weights, FUNCS, ['weights']),
            Harness('sample', h_sample, FUNCS, ['drawn', 'finished'])]
