"""S04: the straightforward engines, by contracts over ghost completions (props/steplib.py).

PatternMatchWaiting._win_selections_in_tiles(hand, N, state, limits, start), start the tiles from i0 on: hands out exactly the
completions of the hand with units that start at i0 or later, cost at most N and within the limits, each with what it needs."""
import itertools

from props.steplib import *
from pv.model import Abstract

R = 'container.pattern.reasoning.'
FUNCS = [R + f for f in ('PatternMatchWaiting._win_selections_in_tiles', 'PatternMatchWaiting.before_waiting_step',
         'PatternMatchWaiting.waiting_and_useful_tiles', 'PatternMatchWaiting.useful_tiles', 'borrowed_limit',
         'BruteForceWaiting.before_waiting_step', 'BruteForceWaiting.useful_tiles', 'Waiting.waiting_and_useful_tiles')]
TRUSTED = ['model of collections.Counter (pv/model.py)', 'itertools.product lists every tuple of the given length; itertools.count counts']
ASSUMPTIONS = ['counts of a hand are between 0 and 4; a red five is the kind of its plain five', 'ignore_4counts=True (the default)',
               're_sort by its contract (T03)', 'match by its contract (V01, V02)',
               'time: the search of the brute-force engine ends when its bound reaches the least cost (partial correctness)']
SEARCH = 'PatternMatchWaiting._win_selections_in_tiles'


class TilesCut(Cut):
    """for tile in the start list: tiles before the current one are left out of the hand unless borrowed; every completion
    whose first unit starts before the current tile has been handed out."""
    name = 'search/tiles'

    def __init__(self, ctx):
        self.c = ctx

    def match(self, seq, loc):
        return isinstance(seq, GSeq) and seq.tag == 'start'

    def enter(self, seq, loc):
        c = self.c
        ws = list({id(v): v for v in loc.values() if isinstance(v, PCounter) and v is not c.hand0 and v is not c.limits}.values())
        st = list({id(v): v for v in loc.values() if isinstance(v, GSeq) and v is not seq}.values())
        if len(ws) != 1 or len(st) != 1:
            raise Unsupported('which multiset and which list does the search work on?')
        self.work, self.list = ws[0], st[0]
        self.found0 = c.found
        E.prove('the working copy is of the hand', And([gite_(self.work, t) == gite_(c.hand0, t) for t in c.tiles]))
        E.prove('tiles are searched in order', seq.order_ok and [v for _, v in seq.items] == c.tiles)

    def meaning(self, i, count):
        """[condition per tile] of the working multiset before tile i: tiles before it are borrowed as in the hand, or any
        number that is not borrowed; the others are as in the hand."""
        c = self.c
        out = []
        for t, tile in enumerate(c.tiles):
            n, k = gite_(c.hand0, tile), count(tile)
            if t < i:
                out.append(Or(k == n, And(t >= c.i0, n >= 0, k >= 0)))
            else:
                out.append(k == n)
        return out

    def start_list(self, i):
        c = self.c
        return [(truth(t >= c.i0), tile) for t, tile in enumerate(c.tiles) if t >= i]

    def indices(self, seq, loc):
        c = self.c
        if c.only == 'end':
            raise PathEnd()
        return [i for i in range(34) if c.only is None or i % NGROUPS == c.only]

    def exit_index(self, seq, loc):
        if self.c.only not in (None, 'end'):
            raise PathEnd()
        return 34

    def element(self, seq, i, loc):
        self.c.i = i
        return seq.items[i]

    def invariant(self, seq, i, loc):
        c = self.c
        want = self.start_list(i)
        got = self.list.items
        same = [v for _, v in got] == [v for _, v in want] if not any(is_false(g) for g, _ in got) else False
        if same:
            same = And([wrapb(as_z3bool(ts._g(a)) == as_z3bool(ts._g(b))) for (a, _), (b, _) in zip(got, want)])
        elif i >= 1:
            same = SBool(list_guards(got, c.tiles, want))
        out = [('tiles before may be left out unless borrowed', x) for x in self.meaning(i, lambda t: gite_(self.work, t))]
        out += [('no other keys', set(self.work._pv_d) <= set(c.tiles)), ('the tiles left to start with', same)]
        if c.x is not None:
            out.append(('completions that start before are handed out', Or(c.found, c.j >= i)))
        return out

    def havoc(self, seq, i, loc):
        c = self.c
        w = self.work
        w._pv_d.clear()
        for tile in c.tiles:
            w._pv_d[tile] = (z3.Bool(E.fresh_name('work.has')), fresh_int('work'))
        for x in self.meaning(i, lambda t: gite_(w, t)):
            E.assume(x)
        w._pv_ver += 1
        self.list.items = self.start_list(i)
        if c.x is not None:
            c.found = Or(self.found0, c.j < i)
        return {}

    def modifies(self, loc):
        return [self.work, self.list]


def list_guards(got, tiles, want):
    """Same list of distinct tiles in tile order, whatever the way its guards are written."""
    ix = {t: i for i, t in enumerate(tiles)}
    ks = [ix.get(v, -1) for _, v in got]
    if ks != sorted(ks) or -1 in ks or len(set(ks)) != len(ks):
        return z3.BoolVal(False)
    a = {v: g for g, v in got}
    b = {v: g for g, v in want}
    return z3.And([as_z3bool(ts._g(a.get(t, False))) == as_z3bool(ts._g(b.get(t, False))) for t in tiles])


class Search:
    def __init__(self, S, complete, only=None):
        self.S, self.only = S, only
        W, SE, RE = M('mahjong.container.pattern.win'), M('mahjong.container.set'), M('mahjong.container.pattern.reasoning')
        self.W, self.SE, self.RE = W, SE, RE
        ts.install()
        self.tiles = tiles = ts.tiles34()
        self.hand0 = ts.sym_counter(SE.TileSet, 'hand', tiles, None, None)
        self.h = ts.counts(self.hand0, tiles)
        self.limits = limits_of(SE, 'limit', tiles)
        self.L = ts.counts(self.limits, tiles)
        self.st = S.state(W)
        self.g = S.ghost(W, self.st)
        self.most = fresh_int('most')
        self.i0 = fresh_int('start', 0, 34)
        self.start = GSeq([(truth(t >= self.i0), tile) for t, tile in enumerate(tiles)], True, 'start')
        self.engine = RE.PatternMatchWaiting(self.st)
        self.found = self.given = False
        self.x = self.j = None
        self.i = None
        if complete:
            self.x = x = fresh_vector(S, 'x')
            self.D = D = fresh_counts('need', 0)
            for n, c in choice(S, self.g, x) + simple_facts(S, self.g, x):
                E.assume(c)
            self.j = fresh_int('first', 0, 34)
            first_facts(S, self.g, x, self.j)
            E.assume(self.j >= self.i0)
            for c in lacks(S, x, self.h, D):
                E.assume(c)
            E.assume(total(D) <= self.most)
            E.assume(within(S, x, self.h, self.L))
            neg_, pos_ = -self.hand0, +self.hand0
            for t, tile in enumerate(tiles):
                E.prove('what is borrowed already is part of the cost', gite_(neg_, tile) <= D[t])
                E.prove('held or needed', use(S, x, t) <= gite_(pos_, tile) + D[t])
            E.prove('need is covered', S.need(self.g) <= total([gite_(pos_, tile) for tile in tiles]) + total(D))
        o = vars(RE.PatternMatchWaiting).get('_win_selections_in_tiles')
        if o is None:
            raise Unsupported('the search is not where it was')
        self.orig = o
        stub(RE.PatternMatchWaiting, '_win_selections_in_tiles', lambda *a, **k: self.recursive(*a, **k))
        CUTS[SEARCH] = [TilesCut(self)]

    def cut(self):
        return CUTS[SEARCH][0]

    def recursive(self, engine, hand, most, ignore, state, limits, start):
        S, c = self.S, self
        E.prove('the same engine', engine is self.engine)
        g = S.ghost(self.W, state)
        E.prove('the search is for a smaller pattern', And(S.size(g) < S.size(self.g), S.size(g) >= 0))
        E.prove('the same bound, limits and rules', And(_sb(most == self.most), limits is self.limits, ignore is True))
        E.prove('the list of start tiles is its own', start is not self.start and start is not self.cut().list and isinstance(start, GSeq))
        E.prove('the tiles from the current one on', SBool(list_guards(start.items, self.tiles, [(True, t) for t in self.tiles[self.i:]]))
                if start.order_ok else False)
        start.clear()                       # the callee may consume it
        hc = ts.counts(hand, self.tiles)
        if self.x is None:
            # an arbitrary completion of one of the calls of this round
            if self.given or E.choose([False, True]):
                return iter(())
            self.given = True
            y = fresh_vector(S, 'y')
            D = fresh_counts('need', 0)
            for n, cnd in choice(S, g, y) + simple_facts(S, g, y):
                E.assume(cnd)
            for u in S.units:
                if u[1] < self.i:
                    E.assume(y[u] == 0)
            for cnd in lacks(S, y, hc, D):
                E.assume(cnd)
            E.assume(total(D) <= self.most)
            E.assume(within(S, y, hc, self.L))
            self.lastD = D
            return iter([(Sel(y), need_set(self.SE, D, self.tiles))])
        i = self.i
        out = []
        before = ts.counts(self.cut().work, self.tiles)
        for u in S.units:
            if u[1] != i:
                continue
            if not isinstance(S.next_is(self.g, u, g), bool) and E.check(z3.Not(as_z3bool(S.next_is(self.g, u, g)))) != z3.unsat:
                continue
            if not all(same_count(hc[t], b, uses(u).get(t, 0)) for t, b in enumerate(before)):
                continue
            if E.branch(as_z3bool(And(self.j == i, self.x[u] > 0))):
                y = minus(self.x, u)
                for n, cnd in choice(S, g, y):
                    E.prove('the rest of the completion: ' + n, cnd)
                E.prove('the rest starts no earlier', And([y[v] == 0 for v in S.units if v[1] < i]))
                for t, cnd in enumerate(lacks(S, y, hc, self.D)):
                    E.prove('the rest needs the same', cnd)
                for t in range(34):
                    E.prove('the rest is within the limits', hc[t] - use(S, y, t) >= self.L[t])
                out.append((Sel(y), need_set(self.SE, self.D, self.tiles)))
                E.cover('rest')
        return out


def h_search(S, complete, only=None):
    def h():
        c = Search(S, complete, only)
        ref, refL = ts.record(c.hand0), ts.record(c.limits)
        zero = {u: 0 for u in S.units}
        c.lastD = None
        borrowed = entry_values(-c.hand0, c.tiles)
        for sel, need in iter(c.orig(c.engine, c.hand0, c.most, True, c.st, c.limits, c.start)):
            v = sel.vec if isinstance(sel, Sel) else vector_of(zero, list(sel))
            if complete:
                E.prove('what the completion needs', is_need(need, c.D, c.tiles))
                c.found = Or(c.found, And([v[u] == c.x[u] for u in S.units]))
                E.cover('handed out')
                continue
            for n, cond in choice(S, c.g, v):
                E.prove('a choice of the pattern: ' + n, cond)
            for u in S.units:
                E.prove('units start in the list', Implies(v[u] > 0, u[1] >= c.i0))
            D = c.lastD if isinstance(sel, Sel) else borrowed
            for cond in lacks(S, v, c.h, D):
                E.prove('what it needs of each tile', cond)
            E.prove('at most the given number of tiles', total(D) <= c.most)
            for t in range(34):
                E.prove('within the limits', c.h[t] - use(S, v, t) >= c.L[t])
            E.prove('what it needs', is_need(need, D, c.tiles))
            E.cover('selection')
        E.prove('the hand keeps its entries', SBool(ts.same_entries(c.hand0, ref, c.tiles)))
        E.prove('the limits keep their entries', SBool(ts.same_entries(c.limits, refL, c.tiles)))
        E.cover('end')
        if complete:
            E.prove('every completion has been handed out', c.found)
    return h


def _sb(x):
    return x if isinstance(x, (bool, SBool)) else wrapb(x)


# ---------------------------------------------------------------- the loops over the number of missing tiles
class CountCut(Cut):
    """for n in count(k): no completion costs less than n (ghost: the least cost)."""
    name = 'count'

    def __init__(self, top):
        self.t = top

    def match(self, seq, loc):
        return isinstance(seq, itertools.count)

    def enter(self, seq, loc):
        self.first = int(repr(seq)[6:-1])

    def length(self, seq, loc):
        raise Unsupported('endless')

    def modes(self, seq, loc):
        return ['step']

    def indices(self, seq, loc):
        return [fresh_int('round', 0)]

    def element(self, seq, i, loc):
        return True, i + self.first

    def invariant(self, seq, i, loc):
        return [('nothing costs less', self.t.C >= i + self.first), ('the table of tiles stays', self.t.table_same())]

    def havoc(self, seq, i, loc):
        E.assume(self.t.C >= i + self.first)
        return {}


class Found(Abstract):
    """What the search hands out for a bound: completions; the ghost one among them if it is within the bound."""
    pv_abstract = True

    def __init__(self, bound):
        self.bound = bound
        self.n = fresh_int('found', 0)

    def __iter__(self):
        raise Unsupported('the completions found, without an invariant')


class FoundCut(Cut):
    """Over the completions found: the tiles collected are needed by some optimal completion, and those of the ghost
    completion are collected once it has been handed out."""
    name = 'found'

    def __init__(self, top):
        self.t = top

    def match(self, seq, loc):
        return isinstance(seq, Found)

    def enter(self, seq, loc):
        self.sets = [n for n, v in loc.items() if isinstance(v, (set, SymSet))]
        if len(self.sets) != 1:
            raise Unsupported('which set collects the tiles?')
        self.flags = [n for n in self.carried if isinstance(loc.get(n), bool)]
        self.at = fresh_int('ghost', 0)

    def length(self, seq, loc):
        return seq.n

    def indices(self, seq, loc):
        return [fresh_int('index', 0)]

    def element(self, seq, i, loc):
        t = self.t
        E.assume(i < seq.n)
        E.assume(Implies(t.C <= seq.bound, self.at < seq.n))
        if E.choose([False, True]):
            E.assume_checked(And(i == self.at, t.C <= seq.bound))
            self.now = t.D
            return True, t.handed(t.D)
        D = fresh_counts('need', 0)
        E.assume_checked(Not(And(i == self.at, t.C <= seq.bound)))
        E.assume(total(D) <= seq.bound)
        E.assume(total(D) >= t.C)                  # C is the least cost
        E.prove('every completion found is optimal', total(D) == t.C)
        for k in range(34):
            E.assume(Implies(D[k] > 0, t.W[k]))     # what W means
        return True, t.handed(D)

    def guards(self, v):
        return v.g if isinstance(v, SymSet) else {x: True for x in v}

    def invariant(self, seq, i, loc):
        t = self.t
        g = self.guards(loc[self.sets[0]])
        out = [('only tiles', set(g) <= set(t.tiles))]
        for k, tile in enumerate(t.tiles):
            b = wrapb(as_z3bool(ts._g(g.get(tile, False))))
            out.append(('collected tiles are useful', Implies(b, t.W[k])))
            out.append(('tiles of the completion are collected', Implies(And(t.C <= seq.bound, self.at < i, t.D[k] > 0), b)))
        for n in self.flags:
            out.append(('whether any was found', Iff(_sb(loc[n]), i > 0)))
        return out

    def havoc(self, seq, i, loc):
        t = self.t
        g = {}
        for k, tile in enumerate(t.tiles):
            g[tile] = z3.Bool(E.fresh_name('collected'))
            b = wrapb(g[tile])
            E.assume(Implies(b, t.W[k]))
            E.assume(Implies(And(t.C <= seq.bound, self.at < i, t.D[k] > 0), b))
        self.new = SymSet(g)
        out = {self.sets[0]: self.new}
        for n in self.flags:
            out[n] = wrapb(as_z3bool(i > 0))
        return out

    def exit_index(self, seq, loc):
        t = self.t
        E.assume(Iff(t.C <= seq.bound, seq.n > 0))      # contract of the search: something is found iff the bound allows it
        E.assume(Implies(t.C <= seq.bound, self.at < seq.n))
        return seq.n

    def modifies(self, loc):
        return [self.new]


def resort_contract(SE):
    """TileSet.re_sort by its contract (T03): the same entries in tile order."""
    def re_sort(s):
        d = {k: s._pv_d[k] for k in sorted(s._pv_d)}
        s._pv_d.clear()
        s._pv_d.update(d)
        s._pv_order = True
        s._pv_ver += 1
    stub(SE.TileSet, 're_sort', re_sort)


class Top:
    """An engine on a hand of the domain, with the ghost least cost C, a ghost optimal completion that needs D, and the
    predicate W[t]: some optimal completion needs tile t."""

    def __init__(self, S, cls):
        W, SE, RE, DI = (M('mahjong.container.pattern.win'), M('mahjong.container.set'), M('mahjong.container.pattern.reasoning'),
                         M('mahjong.container.distribution'))
        self.S, self.W_, self.SE, self.RE, self.DI = S, W, SE, RE, DI
        resort_contract(SE)
        self.tiles = tiles = ts.tiles34()
        self.table = DI.TileDistribution.ALL_TILES
        E.prove('the table lists the 34 kinds in order', list(self.table) == tiles)
        self.hand = ts.sym_counter(SE.TileSet, 'hand', tiles, 0, 4)
        self.h = ts.counts(self.hand, tiles)
        self.st = pattern(S, W)
        self.g = S.ghost(W, self.st)
        self.engine = getattr(RE, cls)(self.st)
        self.C = fresh_int('least', 0)
        self.D = fresh_counts('need', 0)
        E.assume(total(self.D) == self.C)
        self.W = [fresh_bool('useful%d' % t) for t in range(34)]
        for t in range(34):
            E.assume(Implies(self.D[t] > 0, self.W[t]))

    def table_same(self):
        return self.DI.TileDistribution.ALL_TILES is self.table and list(self.table) == self.tiles

    def handed(self, D):
        return Sel({}), need_set(self.SE, D, self.tiles)

    def counts_kept(self):
        E.prove('the hand keeps its counts', And([a == b for a, b in zip(ts.counts(self.hand, self.tiles), self.h)]))

    def check_call(self, engine, hand, most, ignore, state, limits, start):
        E.prove('the engine and its pattern', engine is self.engine and state is self.st and ignore is True)
        E.prove('the whole hand', And([a == b for a, b in zip(ts.counts(hand, self.tiles), self.h)]))
        for t, tile in enumerate(self.tiles):
            p, c = limits._pv_get(tile)
            E.prove('limits: at most four copies of a kind are used', And(wrapb(as_z3bool(ts._g(p))), c == self.h[t] - 4))
        E.prove('all tiles to start with', isinstance(start, list) and start == self.tiles)
        E.prove('the list of start tiles is its own', start is not self.table)
        start.clear()


def pattern(S, W):
    if S is Normal:
        m = fresh_int('melds', 0, 4)
        return W.NormalTypeWin(1, m)
    return W.UniquePairs()


def h_step(S):
    def h():
        t = Top(S, 'PatternMatchWaiting')

        def search(engine, hand, most, ignore, state, limits, start):
            t.check_call(engine, hand, most, ignore, state, limits, start)
            n = E.choose([0, 1, 2])
            if n == 0:
                E.assume(most < t.C)                # nothing is found only when the bound is below the least cost
                return iter([])
            E.assume(most >= t.C)
            return iter([t.handed(fresh_counts('need', 0)) for _ in range(n)])
        stub(t.RE.PatternMatchWaiting, '_win_selections_in_tiles', search)
        for f in ('before_waiting_step', 'waiting_and_useful_tiles'):
            CUTS['PatternMatchWaiting.' + f] = [CountCut(t)]
        r = t.engine.before_waiting_step(t.hand)
        E.prove('the waiting step', r == t.C - 1)
        t.counts_kept()
        E.cover('step')
    return h


def h_useful(S):
    def h():
        t = Top(S, 'PatternMatchWaiting')

        def search(engine, hand, most, ignore, state, limits, start):
            t.check_call(engine, hand, most, ignore, state, limits, start)
            return Found(most)
        stub(t.RE.PatternMatchWaiting, '_win_selections_in_tiles', search)
        CUTS['PatternMatchWaiting.waiting_and_useful_tiles'] = [CountCut(t), FoundCut(t)]
        both = E.choose([True, False])
        if both:
            r, u = t.engine.waiting_and_useful_tiles(t.hand)
            E.prove('the waiting step', r == t.C - 1)
            E.cover('both')
        else:
            u = t.engine.useful_tiles(t.hand)
            E.cover('useful')
        t.counts_kept()
        g = u.g if isinstance(u, SymSet) else {x: True for x in u}
        E.prove('a set of tiles', isinstance(u, (set, SymSet)) and set(g) <= set(t.tiles))
        for k, tile in enumerate(t.tiles):
            b = wrapb(as_z3bool(ts._g(g.get(tile, False))))
            E.prove('only tiles an optimal completion needs', Implies(b, t.W[k]))
            E.prove('all tiles the optimal completion needs', Implies(t.D[k] > 0, b))
    return h


def h_definition(S):
    """Cost of completions and the waiting step: k tiles can be added so that the pattern matches iff a completion within
    the limits costs at most k; a tile is useful iff some optimal completion needs it."""
    def h():
        W = M('mahjong.container.pattern.win')
        g = S.ghost(W, pattern(S, W))
        hand = fresh_counts('hand', 0, 4)
        x = fresh_vector(S, 'x')
        for n, c in choice(S, g, x):
            E.assume(c)
        what = E.choose(['added', 'bought', 'drawn', 'some'])
        if what == 'added':
            a = fresh_counts('added', 0)
            for t in range(34):
                E.assume(And(hand[t] + a[t] <= 4, hand[t] + a[t] >= use(S, x, t)))
            for t in range(34):
                E.prove('a choice in the larger hand is within the limits', hand[t] - use(S, x, t) >= hand[t] - 4)
                E.prove('and needs no more than was added', over(use(S, x, t), hand[t]) <= a[t])
        elif what == 'bought':
            for t in range(34):
                E.assume(hand[t] - use(S, x, t) >= hand[t] - 4)
            for t in range(34):
                d = over(use(S, x, t), hand[t])
                E.prove('adding what a completion needs keeps four copies or fewer', And(hand[t] + d <= 4, d >= 0))
                E.prove('and holds the choice', hand[t] + d >= use(S, x, t))
        elif what == 'drawn':
            for t in range(34):
                E.assume(hand[t] - use(S, x, t) >= hand[t] - 4)
                d = over(use(S, x, t), hand[t])
                d2 = over(use(S, x, t), hand[t] + 1)
                E.prove('a draw saves one tile iff the completion needs it', d2 == d - ite(d > 0, 1, 0))
                E.prove('the same limits after a draw', Iff(hand[t] + 1 - use(S, x, t) >= hand[t] + 1 - 4, use(S, x, t) <= 4))
                E.prove('only tiles of which fewer than four are held are needed', Implies(d > 0, hand[t] < 4))
        else:
            v = {u: 0 for u in S.units}
            if S is Normal:
                v[('pair', 0)] = 1
                for k in range(4):
                    v[('triplet', k + 1)] = ite(g[1] > k, 1, 0)
            else:
                for k in range(7):
                    v[('pair', k)] = 1
            for n, c in choice(S, g, v):
                E.prove('some completion exists: ' + n, c)
            for t in range(34):
                E.prove('some completion exists: within the limits', use(S, v, t) <= 4)
        E.cover(what)
    return h


# ---------------------------------------------------------------- brute force
class Draws(Abstract):
    """A tuple of tiles known by how often each tile is in it."""

    def __init__(self, tiles, counts):
        self.tiles, self.c = tiles, counts

    def pv_counts(self):
        return list(zip(self.tiles, self.c))

    def __iter__(self):
        raise Unsupported('going through the tiles drawn one by one')


class Product(Abstract):
    """product(tiles, repeat=n)"""

    def __init__(self, n):
        self.n = n

    def __iter__(self):
        raise Unsupported('the combinations of tiles, without an invariant')


class ProductCut(Cut):
    """Over the combinations of n tiles: the cheapest addition (if it has n tiles) is still to come."""
    name = 'combinations'

    def __init__(self, top):
        self.t = top

    def match(self, seq, loc):
        return isinstance(seq, Product)

    def enter(self, seq, loc):
        self.at = fresh_int('ghost', 0)
        self.len = fresh_int('combinations', 1)
        E.assume(self.at < self.len)

    def indices(self, seq, loc):
        return [fresh_int('index', 0)]

    def exit_index(self, seq, loc):
        return self.len

    def element(self, seq, i, loc):
        t = self.t
        E.assume(i < self.len)
        if E.choose([False, True]):
            E.assume_checked(And(i == self.at, seq.n == t.C))
            return True, Draws(t.tiles, t.D)
        E.assume_checked(Not(And(i == self.at, seq.n == t.C)))
        a = fresh_counts('drawn', 0)
        E.assume(total(a) == seq.n)
        return True, Draws(t.tiles, a)

    def invariant(self, seq, i, loc):
        return [('the cheapest addition is still to come', Not(And(seq.n == self.t.C, self.at < i)))]

    def havoc(self, seq, i, loc):
        E.assume(Not(And(seq.n == self.t.C, self.at < i)))
        return {}


def h_brute(S):
    def h():
        t = Top(S, 'BruteForceWaiting')

        def match(pat, hand):
            """V01, V02 and the definition of the waiting step (harness definition)."""
            E.prove('the pattern of the engine', pat is t.st)
            hc = ts.counts(hand, t.tiles)
            a = [x - y for x, y in zip(hc, t.h)]
            b = fresh_bool('match')
            E.assume(Implies(And([b] + [And(x >= 0, y <= 4) for x, y in zip(a, hc)]), t.C <= total(a)))
            E.assume(Implies(And([x == y for x, y in zip(a, t.D)]), b))
            return True if E.branch(as_z3bool(b)) else False
        stub(t.W_.WinPattern, 'match', match)

        def product(its, n):
            E.prove('combinations of all tiles', len(its) == 1 and isinstance(its[0], list) and its[0] == t.tiles)
            return Product(n)
        E.notes['product'] = product
        # adding what the optimal completion needs keeps four copies or fewer (definition)
        for k in range(34):
            E.assume(t.h[k] + t.D[k] <= 4)
        CUTS['BruteForceWaiting.before_waiting_step'] = [CountCut(t), ProductCut(t)]
        r = t.engine.before_waiting_step(t.hand)
        E.prove('the waiting step', r == t.C - 1)
        t.counts_kept()
        E.cover('complete' if isinstance(r, int) else 'step')
    return h


def h_brute_useful(S):
    def h():
        t = Top(S, 'BruteForceWaiting')
        seen = []

        def step(engine, hand, ignore_4counts=True):
            E.prove('the engine, under the same rules', engine is t.engine and ignore_4counts is True)
            hc = ts.counts(hand, t.tiles)
            under = E.notes.get('under', [])
            same = And([x == y for x, y in zip(hc, t.h)])
            if valid_under(same):
                return t.C - 1
            d = [k for k in range(34) if valid_under(hc[k] == t.h[k] + 1)]
            if len(d) != 1 or not valid_under(And([x == y for i, (x, y) in enumerate(zip(hc, t.h)) if i != d[0]])):
                raise Unsupported('the waiting step of another hand')
            k = d[0]
            E.prove('at most four copies (else it would not end)',
                    Implies(wrapb(as_z3bool(conj(*under))) if under else True, hc[k] <= 4))
            seen.append(k)
            return t.C - 1 - ite(t.W[k], 1, 0)
        stub(t.RE.BruteForceWaiting, 'before_waiting_step', step)
        # only tiles of which fewer than four are held are needed (definition)
        for k in range(34):
            E.assume(Implies(t.W[k], t.h[k] < 4))
        stub(t.DI.TileDistribution, 'ALL_TILES', GSeq([(True, x) for x in t.tiles], False))
        if E.choose([True, False]):
            u = t.engine.useful_tiles(t.hand)
            E.cover('useful')
        else:
            r, u = t.engine.waiting_and_useful_tiles(t.hand)
            E.prove('the waiting step', r == t.C - 1)
            E.cover('both')
        t.counts_kept()
        g = u.g if isinstance(u, SymSet) else {x: True for x in u}
        E.prove('a set of tiles', isinstance(u, (set, SymSet)) and set(g) <= set(t.tiles))
        for k, tile in enumerate(t.tiles):
            E.prove('exactly the useful tiles', Iff(wrapb(as_z3bool(ts._g(g.get(tile, False)))), t.W[k]))
    return h


def valid_under(c):
    return E.check(z3.Not(as_z3bool(c))) == z3.unsat


def harnesses(tier):
    out = []
    for nm, S in (('normal', Normal), ('pairs', Pairs)):
        out += [Harness(nm + ': definition', h_definition(S), FUNCS, ['added', 'bought', 'drawn', 'some']),
                Harness(nm + ': waiting step', h_step(S), FUNCS, ['step']),
                Harness(nm + ': useful tiles', h_useful(S), FUNCS, ['both', 'useful']),
                Harness(nm + ': brute force', h_brute(S), FUNCS, ['complete', 'step']),
                Harness(nm + ': brute force, useful tiles', h_brute_useful(S), FUNCS, ['both', 'useful']),
                Harness(nm + ': choices', h_choice_lemma(S), FUNCS, ['lemma']),
                Harness(nm + ': sound, end', h_search(S, False, 'end'), FUNCS, ['selection', 'end']),
                Harness(nm + ': complete, end', h_search(S, True, 'end'), FUNCS, ['handed out', 'end'])]
        for k in range(NGROUPS):
            out += [Harness('%s: sound, tiles %d' % (nm, k), h_search(S, False, k), FUNCS, ['selection']),
                    Harness('%s: complete, tiles %d' % (nm, k), h_search(S, True, k), FUNCS, ['handed out', 'rest'])]
    return out
