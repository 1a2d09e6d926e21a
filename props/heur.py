"""Contracts of HeuristicPatternMatchWaiting, shared by S01, S02, S03.

_win_selections_in_tiles(H, state g, limits L, groups G, stage b, pruning) with U = max_used_tiles.  B(H) is what the hand H
already borrows, m(u|H) = B(H-u) - B(H) the marginal cost of a unit, cost(x) the cost of a completion x of H, n = size of g.
Precondition P: B(H) + n*b <= U.  For a completion x within the limits:
  E: every unit of x is allowed and has b <= m(u|H);  I1: m(u|H) <= c, c > b  ==>  its tile is in G[c];
  I2: m(u|H) == b ==> its tile is in G[b].
Pruning 1: at the end U < cost(x) for every such x.  Pruning 0 (U is the least cost K): every such x of cost K is handed out.
Always: what is handed out is a completion within the limits, with its cost (<= U at that time) and what it needs; then
U = cost - pruning; U changes in no other way.
The argument: let c* be the least marginal of the units of x and u* the first unit with that marginal.  When the loops reach
stage c* and unit u*, the recursion on x - u* has the precondition again (marginals only grow), and the cut is not taken
before, as cost(x) >= B(H) + n*c* (harness lemma)."""
from props.steplib import *
from pv.model import Abstract
from props import S04 as s4

R = 'container.pattern.reasoning.'
H = 'HeuristicPatternMatchWaiting.'
SEARCH = H + '_win_selections_in_tiles'
FUNCS = [R + H + f for f in ('_win_selections_in_tiles', 'init_search_by_hand', 'before_waiting_step')] + \
    [R + f for f in ('borrowed_tile_count', 'need_to_borrow', 'borrowed_limit')] + \
    ['container.pattern.win.' + c + '.' + f for c in ('NormalTypeWin', 'UniquePairs')
     for f in ('next_states', 'has_win', 'need_units', 'max_unit_length')]
TRUSTED = ['model of collections.Counter (pv/model.py)', 'sorted, groupby: an ordered list grouped by its first component']
ASSUMPTIONS = ['counts of a hand are between 0 and 4; a red five is the kind of its plain five', 'ignore_4counts=True (the default)',
               're_sort by its contract (T03)',
               'one call at a time on an engine object: max_used_tiles is not changed while a result is being consumed']


def marginal(u, h):
    """m(u|H): what taking the unit adds to what the hand borrows."""
    return total([over(c, h[t]) - over(0, h[t]) for t, c in uses(u).items()])


def maxlen(S, g):
    return ite(g[1] > 0, 3, 2) if S is Normal else 2


# ---------------------------------------------------------------- lemmas over the definitions
def h_lemma(S):
    def h():
        W = M('mahjong.container.pattern.win')
        g = S.ghost(W, S.state(W))
        x = fresh_vector(S, 'x')
        for n, c in choice(S, g, x):
            E.assume(c)
        hand = fresh_counts('hand')
        D = [over(use(S, x, t), hand[t]) for t in range(34)]
        what = E.choose(['facts', 'marginal', 'cost', 'grow'])
        if what == 'facts':
            for t in range(34):
                E.prove('within the limits', Implies(hand[t] - use(S, x, t) >= 0, hand[t] >= 0))
                E.prove('without units only what is borrowed is needed', Implies(S.size(g) == 0, D[t] == over(0, hand[t])))
            for u in S.units:
                E.prove('units are allowed', Implies(x[u] > 0, S.allowed(g, u)))
        elif what == 'marginal':
            for u in S.units:
                m = marginal(u, hand)
                E.prove('a marginal is between 0 and the size of the unit', And(m >= 0, m <= sum(uses(u).values())))
                E.prove('and at most what the pattern allows', Implies(x[u] > 0, m <= maxlen(S, g)))
                tt = fresh_counts('after')
                for t in range(34):
                    E.assume(tt[t] == hand[t] - uses(u).get(t, 0))
                E.prove('the marginal is what the hand borrows more',
                        total([over(0, a) for t, a in enumerate(tt) if t in uses(u)]) ==
                        total([over(0, hand[t]) for t in uses(u)]) + m)
        elif what == 'grow':
            for u in S.units:
                less = fresh_counts('less')
                for t in uses(u):
                    E.assume(less[t] <= hand[t])
                E.prove('marginals grow as the hand shrinks', marginal(u, less) >= marginal(u, hand))
        else:
            # cost(x) >= B(H) + sum of x_u * m(u|H), tile by tile
            def part(k, c, v):
                """v * (over(c, h) - over(0, h)), as a linear term."""
                return ite(k <= 0, c * v, ite(k == 1, (c - 1) * v, ite(k == 2, max(c - 2, 0) * v, 0)))
            q = {}
            for t in range(34):
                ps = []
                for u in S.units:
                    if t in uses(u):
                        q[u, t] = fresh_int('part')
                        E.prove('the part of a unit is its marginal at the tile, as often as it is taken',
                                part(hand[t], uses(u)[t], 1) == over(uses(u)[t], hand[t]) - over(0, hand[t]))
                        ps.append(part(hand[t], uses(u)[t], x[u]))
                E.prove('the parts of a tile are part of the cost', total(ps) + over(0, hand[t]) <= D[t])
            for k in range(4):
                for u in S.units:
                    E.prove('a unit with marginal k or more costs at least k each time',
                            Implies(Implies(x[u] > 0, marginal(u, hand) >= k),
                                    total([part(hand[t], c, x[u]) for t, c in uses(u).items()]) >= k * x[u]))
            # the sums, over fresh names for the parts
            d, b = fresh_counts('d'), fresh_counts('b')
            for t in range(34):
                E.assume(total([q[u, t] for u in S.units if t in uses(u)]) + b[t] <= d[t])
            for k in range(4):
                y = {u: fresh_int('y', 0) for u in S.units}
                hyp = And([total([q[u, t] for t in uses(u)]) >= k * y[u] for u in S.units])
                n = fresh_int('n')
                E.prove('so the whole costs at least k for each unit',
                        Implies(And(hyp, total(list(y.values())) == n), total(d) >= total(b) + k * n))
                E.prove('the number of units is the size', total(list(x.values())) == S.size(g))
        E.cover(what)
    return h


# ---------------------------------------------------------------- next_states
def unit_set(SE, tiles, u):
    s = SE.TileSet()
    for t, c in uses(u).items():
        s._pv_d[tiles[t]] = (True, c)
    return s


def next_state(S, W, st, g, u):
    """The state after a unit."""
    if S is Normal:
        a, b = (1, 0) if u[0] == 'pair' else (0, 1)
        return W.NormalTypeWin(g[0] - a, g[1] - b)
    D = M('mahjong.tile.definition')
    tile = D.Tile(*KINDS[u[1]])
    return W.UniquePairs(g[0] - 1, SymSet({t: (True if t == tile else truth(g[1][k])) for k, t in enumerate(ts.tiles34())}))


def h_next(S):
    """next_states(tile) offers exactly the units the state allows, each with the rest of the pattern; the numbers of a state."""
    def h():
        W = M('mahjong.container.pattern.win')
        tiles = ts.tiles34()
        st = S.state(W)
        g = S.ghost(W, st)
        t = E.choose(list(range(34)))
        got = {}
        for unit, nxt in st.next_states(tiles[t]):
            u = unit_of(unit)
            E.prove('a unit that starts with the tile, once', u in S.units and u[1] == t and u not in got)
            E.prove('the rest of the pattern', S.next_is(g, u, S.ghost(W, nxt)))
            E.prove('of the same kind', type(nxt) is type(st))
            got[u] = nxt
        for u in S.units:
            if u[1] == t:
                E.prove('a unit is offered iff the state allows it', Iff(S.allowed(g, u), u in got))
                n2 = next_state(S, W, st, g, u)
                E.prove('the state of the contract', S.next_is(g, u, S.ghost(W, n2)))
        E.prove('the longest unit', st.max_unit_length() == maxlen(S, g))
        E.prove('how many units', st.need_units() == S.size(g))
        E.prove('complete iff nothing is needed', Iff(_sb(st.has_win()), S.size(g) == 0))
        E.cover('tile')
    return h


def _sb(x):
    return x if isinstance(x, (bool, SBool)) else wrapb(x)


# ---------------------------------------------------------------- the search
class State:
    """What the loops share: U, and whether the ghost completion is settled."""


class StageCut(Cut):
    name = 'search/stages'

    def __init__(self, ctx):
        self.c = ctx

    def match(self, seq, loc):
        return isinstance(seq, GSeq) and seq.tag == 'stages'

    def element(self, seq, i, loc):
        self.c.stage = i
        self.c.group = None
        return seq.items[i]

    def indices(self, seq, loc):
        if self.c.only == 'end':
            raise PathEnd()
        return [i for i in range(len(seq.items)) if self.c.only is None or i == self.c.only[0]]

    def exit_index(self, seq, loc):
        if self.c.only not in (None, 'end'):
            raise PathEnd()
        return len(seq.items)

    def invariant(self, seq, i, loc):
        return self.c.invariant(i, 0)

    def havoc(self, seq, i, loc):
        self.c.havoc(i, 0)
        return {}

    def modifies(self, loc):
        return [self.c.engine.__dict__]


class GroupCut(Cut):
    name = 'search/tiles'

    def __init__(self, ctx):
        self.c = ctx

    def match(self, seq, loc):
        return isinstance(seq, GSeq) and seq.tag.startswith('group')

    def enter(self, seq, loc):
        c = self.c
        mine = {id(v): v for v in loc.values() if isinstance(v, GSeq) and v is not seq and v.tag == seq.tag and
                all(v is not x for x in c.groups)}
        if len(mine) > 1:
            raise Unsupported('which list of tiles shrinks?')
        self.list = list(mine.values())[0] if mine else None
        E.prove('the tiles of the group of the stage, in order', seq.order_ok and
                SBool(same_list(seq.items, c.groups[c.stage].items, c.tiles)))
        if self.list is not None:
            E.prove('the tiles of the group of the stage', SBool(same_list(self.list.items, c.groups[c.stage].items, c.tiles)))
        # the loop goes over the tiles in order: the conditions are those of the group
        self.items = [(truth(c.G[c.stage][t]), tile) for t, tile in enumerate(c.tiles)]

    def rest(self, i):
        return [x for t, x in enumerate(self.items) if t >= i]

    def indices(self, seq, loc):
        o = self.c.only
        return [i for i in range(34) if o in (None, 'end') or o[1] in (None, i % NSPLIT)]

    def exit_index(self, seq, loc):
        if self.c.only not in (None, 'end') and self.c.only[1] not in (0, None):
            raise PathEnd()
        return 34

    def element(self, seq, i, loc):
        self.c.tile = i
        return self.items[i]

    def invariant(self, seq, i, loc):
        out = self.c.invariant(self.c.stage, i)
        if self.list is not None:
            out.append(('the tiles left in the group', SBool(same_list(self.list.items, self.rest(i), self.c.tiles))))
        return out

    def havoc(self, seq, i, loc):
        self.c.havoc(self.c.stage, i)
        if self.list is not None:
            self.list.items = self.rest(i)
        return {}

    def modifies(self, loc):
        return [self.c.engine.__dict__] + ([self.list] if self.list is not None else [])


class UnitCut(Cut):
    name = 'search/units'

    def __init__(self, ctx):
        self.c = ctx

    def match(self, seq, loc):
        return isinstance(seq, GSeq) and seq.tag == 'next'

    def element(self, seq, i, loc):
        c = self.c
        c.unit = u = c.at(c.tile)[i]
        if c.mode == 'complete':
            E.assume(c.m[u] == marginal(u, c.h))
        return seq.items[i]

    def invariant(self, seq, i, loc):
        return self.c.invariant(self.c.stage, self.c.tile, i)

    def havoc(self, seq, i, loc):
        self.c.havoc(self.c.stage, self.c.tile, i)
        return {}

    def modifies(self, loc):
        return [self.c.engine.__dict__]


def same_list(got, want, tiles):
    """Same list of distinct tiles in tile order, whatever the way its conditions are written."""
    ix = {t: i for i, t in enumerate(tiles)}
    ks = [ix.get(v, -1) for _, v in got]
    if ks != sorted(ks) or -1 in ks or len(set(ks)) != len(ks):
        return z3.BoolVal(False)
    a = {v: g for g, v in got}
    b = {v: g for g, v in want}
    return z3.And([as_z3bool(ts._g(a.get(t, False))) == as_z3bool(ts._g(b.get(t, False))) for t in tiles])


NSPLIT = 2


@memo
def ghost_facts(S, g, pos, m, b, G, cstar, ustar):
    """E, I1, I2 for the ghost completion, and what its least marginal and the first unit with it mean."""
    NE = S.size(g) > 0
    ml = maxlen(S, g)
    out = []
    for k, u in enumerate(S.units):
        fs = [S.allowed(g, u), b <= m[u], m[u] <= ml, cstar <= m[u], Implies(m[u] == cstar, ustar <= k)]
        for c in range(len(G)):
            fs.append(Implies(Or(And(m[u] <= c, c > b), And(m[u] == c, c == b)), G[c][u[1]]))
        out.append(Implies(pos[u], And(fs)))
        out.append(Implies(And(NE, ustar == k), And(pos[u], m[u] == cstar)))
    return out


class Search:
    def __init__(self, S, mode, pruning, only=None, short=False):
        self.S, self.mode, self.pruning, self.only = S, mode, pruning, only
        W, SE, RE = M('mahjong.container.pattern.win'), M('mahjong.container.set'), M('mahjong.container.pattern.reasoning')
        self.W, self.SE, self.RE = W, SE, RE
        self.tiles = tiles = ts.tiles34()
        self.hand0 = ts.sym_counter(SE.TileSet, 'hand', tiles, None, None)
        self.h = h = ts.counts(self.hand0, tiles)
        self.limits = limits_of(SE, 'limit', tiles)
        self.L = ts.counts(self.limits, tiles)
        self.st = S.state(W)
        self.g = g = S.ghost(W, self.st)
        self.n = S.size(g)
        self.b = fresh_int('stage', 0)
        E.assume(self.b <= 3)
        n_groups = 4 if S is Normal else 3
        if short:                       # a pattern that never had melds: groups up to stage 2
            E.assume(g[1] == 0)
            n_groups = 3
        self.G = [[fresh_bool('group%d.%d' % (c, t)) for t in range(34)] for c in range(n_groups)]
        self.groups = [GSeq([(truth(self.G[c][t]), tile) for t, tile in enumerate(tiles)], True, 'group%d' % c) for c in range(n_groups)]
        self.group_list = list(self.groups)
        self.U0 = fresh_int('bound')
        self.engine = RE.HeuristicPatternMatchWaiting(self.st)
        self.engine.max_used_tiles = self.U0
        self.lastU = self.U0
        self.borrowed = entry_values(-self.hand0, tiles)
        self.BH = total(self.borrowed)
        E.assume(self.BH + self.times(self.b) <= self.U0)           # P
        self.K = self.U0                                             # pruning 0: U is the least cost
        self.found = False
        self.stage = self.tile = self.unit = None
        self.x = None
        self.given = False
        if mode == 'complete':
            self.ghost()
        elif not pruning:
            # the least cost: the empty choice, if the pattern is complete, costs at least K
            E.assume(Implies(And([self.n == 0] + [hh >= ll for hh, ll in zip(self.h, self.L)]), self.BH >= self.K))
        o = vars(RE.HeuristicPatternMatchWaiting).get('_win_selections_in_tiles')
        if o is None:
            raise Unsupported('the search is not where it was')
        self.orig = o
        stub(RE.HeuristicPatternMatchWaiting, '_win_selections_in_tiles', self.bound_stub())
        cls = W.NormalTypeWin if S is Normal else W.UniquePairs
        stub(cls, 'next_states', lambda s, tile: self.next_states(s, tile))
        E.notes['range_hook'] = self.stages
        CUTS[SEARCH] = [StageCut(self), GroupCut(self), UnitCut(self)]

    def bound_stub(self):
        def _win_selections_in_tiles(eng, hand, ignore_4counts, current_state, borrow_limits, searching_group, borrowed_stage,
                                     waiting_step_pruning):
            return self.recursive(eng, hand, ignore_4counts, current_state, borrow_limits, searching_group, borrowed_stage,
                                  waiting_step_pruning)
        return _win_selections_in_tiles

    def times(self, k):
        """n * k for 0 <= k <= 3"""
        if isinstance(k, int):
            return k * self.n
        n = self.n
        return ite(k <= 0, 0, ite(k == 1, n, ite(k == 2, 2 * n, 3 * n)))

    def at(self, t):
        return [u for u in self.S.units if u[1] == t]

    def ghost(self):
        """The ghost completion: which units it has, their marginals, its cost; the rest of its facts when they are needed."""
        S, g = self.S, self.g
        self.x = fresh_vector(S, 'x')
        self.D = fresh_counts('need', 0)
        self.cost = fresh_int('cost', 0)
        self.whole = False
        self.pos = pos = {u: fresh_bool('has.%s%d' % u) for u in S.units}
        for t in range(34):
            E.assume(self.h[t] >= self.L[t])                          # within the limits (lemma 'facts')
        if not self.pruning:
            E.assume(self.cost == self.K)
        # marginals (their definition is used at the unit at hand)
        self.m = m = {u: fresh_int('marginal', 0, 3) for u in S.units}
        ml = maxlen(S, g)
        self.cstar = fresh_int('least_marginal', 0, 3)
        self.ustar = fresh_int('first_unit', 0, len(S.units) - 1)
        self.NE = self.n > 0
        for f in ghost_facts(S, g, pos, m, self.b, self.G, self.cstar, self.ustar):
            E.assume(f)
        for k in range(4):                                                                              # lemma 'cost'
            E.assume(Implies(And(self.NE, self.cstar >= k), self.cost >= self.BH + self.times(k)))
        E.assume(Implies(Not(self.NE), self.cost == self.BH))                                           # lemma 'facts'

    def all_facts(self):
        if self.whole:
            return
        self.whole = True
        S, x, D = self.S, self.x, self.D
        for n, c in choice(S, self.g, x) + simple_facts(S, self.g, x):
            E.assume(c)
        for c in lacks(S, x, self.h, D):
            E.assume(c)
        for t in range(34):
            E.assume(self.h[t] - use(S, x, t) >= self.L[t])
        E.assume(total(D) == self.cost)
        for u in S.units:
            E.assume(Iff(self.pos[u], x[u] > 0))

    # -- contracts of callees
    def stages(self, *a):
        if len(a) != 2:
            return None
        lo, hi = a
        E.prove('the stages begin with the given one', lo == self.b)
        return GSeq([(truth(And(c >= lo, c < hi)), c) for c in range(len(self.G))], True, 'stages')

    def next_states(self, s, tile):
        S = self.S
        E.prove('the units of this state', s is self.st)
        t = self.tiles.index(tile)
        return GSeq([(truth(S.allowed(self.g, u)), (unit_set(self.SE, self.tiles, u), next_state(S, self.W, s, self.g, u)))
                     for u in self.at(t)], True, 'next')

    def recursive(self, eng, hand, ignore, state, limits, groups, stage, pruning):
        S, c = self.S, self.stage
        E.prove('the same engine', eng is self.engine)
        g = S.ghost(self.W, state)
        E.prove('the search is for a smaller pattern', And(S.size(g) == self.n - 1, S.size(g) >= 0))
        u = self.unit
        E.prove('the rest of the pattern', S.next_is(self.g, u, g))
        E.prove('the same limits and rules', limits is self.limits and ignore is True and pruning is self.pruning)
        E.prove('the stage is kept', stage == c)
        hc = ts.counts(hand, self.tiles)
        for t in range(34):
            E.prove('the hand without the unit', hc[t] == self.h[t] - uses(u).get(t, 0))
        E.prove('the unit has the marginal of the stage', marginal(u, self.h) == c)
        # what the smaller hand borrows: the marginal more (lemma 'marginal')
        nb = self.BH + c
        U = eng.max_used_tiles
        E.prove('P for the rest', nb + c * S.size(g) <= U)
        ok = isinstance(groups, list) and len(groups) == len(self.G) and all(isinstance(x, GSeq) and x.order_ok for x in groups)
        E.prove('the groups', ok)
        G2 = []
        for k, x in enumerate(groups):
            d = {v: q for q, v in x.items}
            E.prove('the groups list tiles in order, once each', list_ok(x.items, self.tiles))
            G2.append([_sb(wrapb(as_z3bool(ts._g(d.get(t, False))))) for t in self.tiles])
        if self.mode == 'sound':
            if self.given or E.choose([False, True]):
                return iter(())
            self.given = True
            y = fresh_vector(S, 'y')
            D = fresh_counts('need', 0)
            for n, cnd in choice(S, g, y) + simple_facts(S, g, y):
                E.assume(cnd)
            for cnd in lacks(S, y, hc, D):
                E.assume(cnd)
            E.assume(within(S, y, hc, self.L))
            E.assume(total(D) <= U)
            if not self.pruning:
                E.assume(total(D) == self.K)
            self.lastD = D
            return self.handing(eng, total(D), D, Sel(y))
        # complete
        self.lowered(eng)
        here = And(self.NE, self.cstar == c, self.ustar == S.units.index(u))
        if not E.branch(as_z3bool(here)):
            return iter(())
        E.cover('rest')
        self.all_facts()
        x = self.x
        y = minus(x, u)
        for n, cnd in choice(S, g, y):
            E.prove('the rest of the completion: ' + n, cnd)
        for t, (a, b) in enumerate(zip(lacks(S, x, self.h, self.D), lacks(S, y, hc, self.D))):
            E.prove_valid('the rest needs the same', Implies(And(a, hc[t] == self.h[t] - uses(u).get(t, 0)), b))
        for t in range(34):
            E.prove('the rest is within the limits', hc[t] - use(S, y, t) >= self.L[t])
        m1 = {v: fresh_int('marginal', 0, 3) for v in S.units}
        for v in S.units:
            E.assume(m1[v] >= self.m[v])                      # lemma 'grow': marginals grow as the hand shrinks
        for v in S.units:
            E.prove('E for the rest', Implies(y[v] > 0, And(S.allowed(g, v), m1[v] >= c)))
            for k in range(len(G2)):
                if k > c:
                    E.prove('I1 for the rest', Implies(And(y[v] > 0, m1[v] <= k), G2[k][v[1]]))
                elif k == c:
                    E.prove('I2 for the rest', Implies(And(y[v] > 0, m1[v] == k), G2[k][v[1]]))
        if self.pruning:
            E.assume(eng.max_used_tiles < self.cost)
            return iter(())
        return iter([(self.cost, Sel(y), need_set(self.SE, self.D, self.tiles))])

    def handing(self, eng, cnt, D, sel):
        """A generator: the bound is lowered when the completion is handed out."""
        eng.max_used_tiles = cnt - self.pruning
        yield cnt, sel, need_set(self.SE, D, self.tiles)

    def lowered(self, eng):
        """The bound after a search."""
        if self.pruning:
            U = fresh_int('bound')
            E.assume(U <= eng.max_used_tiles)
            eng.max_used_tiles = U

    # -- invariants
    def settled(self, stage, tile, k):
        """The search has passed the first unit with the least marginal."""
        idx = 0
        for t in range(tile):
            idx += len(self.at(t))
        idx += k
        return And(self.NE, Or(self.cstar < stage, And(self.cstar == stage, self.ustar < idx)))

    def invariant(self, stage, tile, k=0):
        U = self.engine.max_used_tiles
        out = []
        if self.mode == 'sound':
            return [('the bound changes only when something is handed out', U == self.lastU), ('the bound only falls', U <= self.U0)] + \
                   ([] if self.pruning else [('the bound stays', U == self.K)])
        if self.pruning:
            out.append(('the bound only falls', U <= self.U0))
            out.append(('below the cost of completions passed', Implies(self.settled(stage, tile, k), U < self.cost)))
        else:
            out.append(('the bound stays', U == self.K))
            out.append(('completions passed are handed out', Implies(self.settled(stage, tile, k), self.found)))
        return out

    def havoc(self, stage, tile, k=0):
        if self.mode == 'sound':
            if self.pruning:
                U = fresh_int('bound')
                E.assume(U <= self.U0)
                self.engine.max_used_tiles = self.lastU = U
            else:
                self.engine.max_used_tiles = self.lastU = self.K
            return
        if self.pruning:
            U = fresh_int('bound')
            E.assume(U <= self.U0)
            E.assume(Implies(self.settled(stage, tile, k), U < self.cost))
            self.engine.max_used_tiles = U
        else:
            self.engine.max_used_tiles = self.K
            self.found = _sb(self.settled(stage, tile, k))


def list_ok(got, tiles):
    ix = {t: i for i, t in enumerate(tiles)}
    ks = [ix.get(v, -1) for _, v in got]
    return ks == sorted(ks) and -1 not in ks and len(set(ks)) == len(ks)


def h_search(S, mode, pruning, only=None, short=False):
    def h():
        c = Search(S, mode, pruning, only, short)
        ref, refL = ts.record(c.hand0), ts.record(c.limits)
        zero = {u: 0 for u in S.units}
        it = c.orig(c.engine, c.hand0, True, c.st, c.limits, c.group_list, c.b, pruning)
        for cnt, sel, need in iter(it):
            v = sel.vec if isinstance(sel, Sel) else vector_of(zero, list(sel))
            U = c.engine.max_used_tiles
            if mode == 'complete':
                if pruning:
                    E.prove('the bound is below what was handed out', U <= cnt - 1)
                else:
                    c.all_facts()
                    E.prove('the bound stays', U == c.K)
                    E.prove('the cost', cnt == c.cost)
                    E.prove('what the completion needs', is_need(need, c.D, c.tiles))
                    c.found = Or(c.found, And([v[u] == c.x[u] for u in S.units]))
                E.cover('handed out')
                continue
            for n, cond in choice(S, c.g, v):
                E.prove('a choice of the pattern: ' + n, cond)
            D = c.lastD if isinstance(sel, Sel) else c.borrowed
            for cond in lacks(S, v, c.h, D):
                E.prove('what it needs of each tile', cond)
            for t in range(34):
                E.prove('within the limits', c.h[t] - use(S, v, t) >= c.L[t])
            E.prove('what it needs', is_need(need, D, c.tiles))
            E.prove('its cost', cnt == total(D))
            E.prove('at most the bound', cnt <= c.lastU)
            E.prove('the bound after it', U == cnt - pruning)
            if not pruning:
                E.prove('the least cost', cnt == c.K)
            c.lastU = U
            E.cover('selection')
        E.prove('the hand keeps its entries', SBool(ts.same_entries(c.hand0, ref, c.tiles)))
        E.prove('the limits keep their entries', SBool(ts.same_entries(c.limits, refL, c.tiles)))
        E.prove('the groups stay', len(c.group_list) == len(c.groups) and all(a is b for a, b in zip(c.group_list, c.groups)) and
                all(SBool(same_list(x.items, [(truth(c.G[k][t]), tile) for t, tile in enumerate(c.tiles)], c.tiles))
                    for k, x in enumerate(c.groups)))
        U = c.engine.max_used_tiles
        E.cover('end')
        if mode == 'sound':
            E.prove('the bound changes only when something is handed out', U == c.lastU)
        elif pruning:
            E.prove('the bound is below the cost of every completion', U < c.cost)
            E.prove('the bound only falls', U <= c.U0)
        else:
            E.prove('every cheapest completion has been handed out', c.found)
            E.prove('the bound stays', U == c.K)
    return h


# ---------------------------------------------------------------- the groups of a hand
def groups_ok(S, r, G, tiles):
    """The lists r of init_search_by_hand have the contents G."""
    out = [len(r) == len(G)]
    for c in range(min(len(r), len(G))):
        items = r[c].items if isinstance(r[c], GSeq) else [(True, v) for v in r[c]]
        out.append(list_ok(items, tiles) and (r[c].order_ok if isinstance(r[c], GSeq) else isinstance(r[c], list)))
        d = {v: q for q, v in items}
        out += [Iff(wrapb(as_z3bool(ts._g(d.get(tile, False)))), G[c][t]) for t, tile in enumerate(tiles)]
    return out


@memo
def group_facts(S, g, h, n):
    """init_search_by_hand: list c has exactly the tiles a unit of which adds c or less to what the hand borrows."""
    return [[Or([And(S.allowed(g, u), marginal(u, h) <= c) for u in S.units if u[1] == t]) for t in range(34)] for c in range(n)]


def h_groups(S):
    def h():
        t = s4.Top(S, 'HeuristicPatternMatchWaiting')
        E.notes['flat'] = True
        ref = ts.record(t.hand)
        stub(t.DI.TileDistribution, 'ALL_TILES', GSeq([(True, x) for x in t.tiles]))
        r = t.engine.init_search_by_hand(t.hand)
        n = 4 if S is Normal and E.branch(as_z3bool(t.g[1] > 0)) else 3
        E.prove('a list for each stage up to the longest unit', isinstance(r, list) and len(r) == n)
        for k, c in enumerate(groups_ok(S, r, group_facts(S, t.g, t.h, n), t.tiles)):
            E.prove('the tiles of a unit that adds the stage or less, in order', c)
        E.prove('each stage has its own list', len(set(map(id, r))) == len(r))
        E.prove('the hand keeps its entries', SBool(ts.same_entries(t.hand, ref, t.tiles)))
        E.cover('groups')
    return h


# ---------------------------------------------------------------- the callers
class HTop(s4.Top):
    """An engine on a hand of the domain whose search and groups are their contracts."""
    light = False

    def __init__(self, S, domain='more'):
        super().__init__(S, 'HeuristicPatternMatchWaiting')
        self.engine.max_used_tiles = fresh_int('left_over')
        E.assume(self.C <= total(self.h))                     # lemma 'reach' (the domain has enough tiles)
        stub(self.RE.HeuristicPatternMatchWaiting, 'init_search_by_hand', lambda eng, hand: self.groups(eng, hand))
        stub(self.RE.HeuristicPatternMatchWaiting, '_win_selections_in_tiles', self.stub_search())
        self.G = None

    def stub_search(self):
        def _win_selections_in_tiles(eng, hand, ignore_4counts, current_state, borrow_limits, searching_group, borrowed_stage,
                                     waiting_step_pruning):
            return self.search(eng, hand, ignore_4counts, current_state, borrow_limits, searching_group, borrowed_stage,
                               waiting_step_pruning)
        return _win_selections_in_tiles

    def same_hand(self, hand):
        return And([a == b for a, b in zip(ts.counts(hand, self.tiles), self.h)])

    def groups(self, eng, hand):
        S = self.S
        E.prove('the engine', eng is self.engine)
        E.prove('the groups of the whole hand', self.same_hand(hand))
        if self.light:
            return [GSeq([(True, tile) for tile in self.tiles], True, 'group') for c in range(4)]
        n = 4 if S is Normal and E.branch(as_z3bool(self.g[1] > 0)) else 3
        self.G = [[fresh_bool('group%d.%d' % (c, t)) for t in range(34)] for c in range(n)]
        for c, f in enumerate(group_facts(S, self.g, self.h, n)):
            for t in range(34):
                E.assume(Iff(self.G[c][t], f[t]))
        return [GSeq([(truth(self.G[c][t]), tile) for t, tile in enumerate(self.tiles)], True, 'group%d' % c) for c in range(n)]

    def search(self, eng, hand, ignore, state, limits, groups, stage, pruning):
        """The contract: what it needs is checked here, its precondition on the bound when the results are used."""
        S = self.S
        if self.light:                  # checked by another harness that runs the same code up to here
            return self.results()
        E.prove('the engine and its pattern', eng is self.engine and state is self.st and ignore is True)
        E.prove('the whole hand', self.same_hand(hand))
        for t, tile in enumerate(self.tiles):
            p, c = limits._pv_get(tile)
            E.prove('limits: at most four copies of a kind are used', And(wrapb(as_z3bool(ts._g(p))), c == self.h[t] - 4))
        E.prove('from the first stage', stage == 0)
        E.prove('cut off or complete', pruning is self.pruning)
        n = 4 if S is Normal and E.branch(as_z3bool(self.g[1] > 0)) else 3
        E.prove('a list for each stage', isinstance(groups, list) and len(groups) == n and all(isinstance(x, GSeq) for x in groups))
        for c, x in enumerate(groups):
            E.prove('tiles in order, once each', x.order_ok and list_ok(x.items, self.tiles))
            d = {v: q for q, v in x.items}
            for u in S.units:
                E.prove('every unit of a completion is reached in time',
                        Implies(And(S.allowed(self.g, u), marginal(u, self.h) <= c),
                                wrapb(as_z3bool(ts._g(d.get(self.tiles[u[1]], False))))))
        return self.results()


class Costs(Abstract):
    """What the search with pruning hands out, each with the given value: every element is a completion (so it costs C or
    more), each lowers the bound to its cost - 1, nothing else does; in the end the bound is below C."""
    pv_abstract = True

    def __init__(self, top, fs=()):
        self.top, self.fs, self.used = top, fs, False

    def pv_comp(self, kind, elt, cond):
        if cond is not None or kind not in ('list', 'gen'):
            raise Unsupported('some of the results')
        r = Costs(self.top, self.fs + (elt,))
        return r

    def value(self, cost):
        v = (cost, Sel({}), need_set(self.top.SE, fresh_counts('need', 0), self.top.tiles))
        for f in self.fs:
            v = f(v)
        return v

    def __iter__(self):
        raise Unsupported('going through the results one by one')

    def pv_minmax(self, name, k):
        t = self.top
        if name != 'min' or set(k) - {'default'}:
            raise Unsupported('the largest of the results')
        U0 = t.engine.max_used_tiles
        E.prove('the bound allows the least cost', t.C <= U0)
        n, U, last = fresh_int('results', 0), fresh_int('bound'), fresh_int('cost')
        E.assume(U < t.C)
        E.assume(last >= t.C)
        E.assume(Implies(n == 0, U == U0))
        E.assume(Implies(n > 0, U == last - 1))
        E.prove('something is handed out', n > 0)
        t.engine.max_used_tiles = U
        some = fresh_int('cost')
        E.assume(some >= t.C)
        r = fresh_int('least')
        E.assume(r == self.value(some))
        E.assume(r <= self.value(last))
        return r


class StepTop(HTop):
    pruning = 1

    def results(self):
        return Costs(self)


def h_before(S):
    def h():
        t = StepTop(S)
        r = t.engine.before_waiting_step(t.hand)
        E.prove('the waiting step', r == t.C - 1)
        t.counts_kept()
        E.cover('step')
    return h


def h_reach(S):
    """A hand of the domain has a completion that costs no more than it has tiles, so the bound is at least C."""
    def h():
        W = M('mahjong.container.pattern.win')
        g = S.ghost(W, s4.pattern(S, W))
        hand = fresh_counts('hand', 0, 4)
        E.assume(total(hand) >= (3 * g[1] + 1 if S is Normal else 13))
        E.prove('some tile is held', Or([c > 0 for c in hand]))
        j = E.choose(list(range(34)))
        E.assume(hand[j] > 0)
        E.prove('the bound is not negative and nothing is borrowed', And(total(hand) >= 0, total([over(0, c) for c in hand]) == 0))
        v = {u: 0 for u in S.units}
        v[('pair', j)] = 1
        others = [k for k in range(34) if k != j]
        if S is Normal:
            for k in range(4):
                v[('triplet', others[k])] = ite(g[1] > k, 1, 0)
        else:
            for k in range(6):
                v[('pair', others[k])] = 1
        for n, c in choice(S, g, v):
            E.prove('a completion: ' + n, c)
        for t in range(34):
            E.prove('a completion: within the limits', use(S, v, t) <= 4)
        E.prove('it costs no more than the hand has tiles', total([over(use(S, v, t), hand[t]) for t in range(34)]) <= total(hand))
        E.prove('the whole pattern is not complete', S.size(g) > 0)
        E.cover('reach')
    return h


def search_harnesses(nm, S, pruning):
    out = [Harness(nm + ': lemma', h_lemma(S), FUNCS, ['facts', 'marginal', 'cost', 'grow']),
           Harness(nm + ': next states', h_next(S), FUNCS, ['tile']),
           Harness(nm + ': choices', h_choice_lemma(S), FUNCS, ['lemma'])]
    for mode in ('sound', 'complete'):
        cov = ['selection'] if mode == 'sound' else ([] if pruning else ['handed out'])
        out.append(Harness('%s: %s, end' % (nm, mode), h_search(S, mode, pruning, 'end'), FUNCS, cov + ['end']))
        for c in range(4 if S is Normal else 3):
            for k in range(NSPLIT):
                out.append(Harness('%s: %s, stage %d.%d' % (nm, mode, c, k), h_search(S, mode, pruning, (c, k)), FUNCS,
                                   ['selection'] if mode == 'sound' else ['rest']))
    if S is Normal:
        for mode in ('sound', 'complete'):
            out.append(Harness('%s: %s, pair only, end' % (nm, mode), h_search(S, mode, pruning, 'end', True), FUNCS, ['end']))
            for c in range(3):
                out.append(Harness('%s: %s, pair only, stage %d' % (nm, mode, c), h_search(S, mode, pruning, (c, None), True),
                                   FUNCS, ['selection'] if mode == 'sound' else ['rest']))
    return out


class Optimal(s4.Found):
    """What the search without pruning hands out when the bound is the least cost C: optimal completions only, the ghost one
    among them."""

    def __init__(self, top):
        super().__init__(top.C)
        self.top = top
        self.at_call = None

    def consumed(self):
        t = self.top
        E.prove('the bound is the least cost when the search runs', t.engine.max_used_tiles == t.C)

    def pv_flat(self, kind, inner, cond):
        t = self.top
        self.consumed()
        if cond is not None or kind not in ('gen', 'set', 'list'):
            raise Unsupported('some of the completions')
        D = fresh_counts('need', 0)
        E.assume(total(D) == t.C)
        for k in range(34):
            E.assume(Implies(D[k] > 0, t.W[k]))
        out = {}
        for k, b in enumerate(tiles_in(inner(t.handed(D)), t.tiles)):
            E.prove('only tiles an optimal completion needs are collected', Implies(b, t.W[k]))
        mine = tiles_in(inner(t.handed(t.D)), t.tiles)
        for k, tile in enumerate(t.tiles):
            out[tile] = z3.Bool(E.fresh_name('collected'))
            b = wrapb(out[tile])
            E.assume(Implies(b, t.W[k]))
            E.assume(Implies(mine[k], b))
        return SymSet(out) if kind == 'set' else Flat(out)


class Flat(Abstract):
    pv_abstract = True

    def __init__(self, g):
        self.g = g

    def pv_as_set(self):
        return SymSet(self.g)

    def __iter__(self):
        raise Unsupported('the tiles one by one')


def tiles_in(v, tiles):
    """Which tiles a collection has."""
    if isinstance(v, PCounter):
        ps = [v._pv_get(t)[0] for t in tiles]
        extra = set(v._pv_d) - set(tiles)
    elif isinstance(v, SymSet):
        ps = [v.g.get(t, False) for t in tiles]
        extra = set(v.g) - set(tiles)
    elif isinstance(v, GSeq):
        d = {}
        for q, x in v.items:
            d[x] = z3.Or(as_z3bool(ts._g(d[x])), as_z3bool(ts._g(q))) if x in d else q
        ps = [d.get(t, False) for t in tiles]
        extra = set(d) - set(tiles)
    else:
        vs = set(v)
        ps = [t in vs for t in tiles]
        extra = vs - set(tiles)
    E.prove('only tiles are collected', not extra)
    return [wrapb(as_z3bool(ts._g(p))) for p in ps]


class OptimalCut(s4.FoundCut):
    def enter(self, seq, loc):
        seq.consumed()
        super().enter(seq, loc)


class UsefulTop(HTop):
    pruning = 0

    def __init__(self, S):
        super().__init__(S)

        def before_waiting_step(eng, hand, ignore_4counts=True):
            """S01."""
            E.prove('the waiting step of the hand, by the engine', And(eng is self.engine, self.same_hand(hand)))
            E.prove('the rules', ignore_4counts is True)
            eng.max_used_tiles = fresh_int('left_over')
            return self.C - 1
        stub(self.RE.HeuristicPatternMatchWaiting, 'before_waiting_step', before_waiting_step)

    def handed(self, D):
        return total(D), Sel({}), need_set(self.SE, D, self.tiles)

    def results(self):
        return Optimal(self)


def h_collect(S):
    def h():
        t = UsefulTop(S)
        CUTS[H + 'waiting_and_useful_tiles'] = [OptimalCut(t)]
        CUTS[H + 'useful_tiles'] = [OptimalCut(t)]
        if E.choose([True, False]):
            r, u = t.engine.waiting_and_useful_tiles(t.hand)
            E.prove('the waiting step', r == t.C - 1)
            E.cover('both')
        else:
            u = t.engine.useful_tiles(t.hand)
            E.cover('useful')
        t.counts_kept()
        E.prove('a set of tiles', isinstance(u, (set, SymSet)))
        for k, b in enumerate(tiles_in(u, t.tiles)):
            E.prove('only tiles an optimal completion needs', Implies(b, t.W[k]))
            E.prove('all tiles the optimal completion needs', Implies(t.D[k] > 0, b))
    return h
