"""Shared by V01, V02: solutions as ghost vectors over the units, contracts of the search of WinPattern."""
from props.lib import *
from props import tilesets as ts
from pv.core import PathEnd
from pv.model import SymSet, GSeq, PCounter, conj, disj, neg, truth, is_true, is_false

RUN_STARTS = [i for i in range(34) if i < 27 and i % 9 <= 6]


def uses(u):
    """tile index -> copies used by unit (kind, start)."""
    k, t = u
    return {t: 2} if k == 'pair' else {t: 3} if k == 'triplet' else {t: 1, t + 1: 1, t + 2: 1}


class Normal:
    """NormalTypeWin(p, m): p pairs, m triplets and runs."""
    units = [(k, t) for t in range(34) for k in ('pair', 'triplet', 'run') if k != 'run' or t in RUN_STARTS]

    @staticmethod
    def state(W):
        p, m = fresh_int('pairs', 0), fresh_int('melds', 0)
        return W.NormalTypeWin(p, m)

    @staticmethod
    def ghost(W, st):
        """(pairs, melds) of a state, from what it says it needs."""
        if not isinstance(st, W.NormalTypeWin):
            raise Unsupported('a state of another class')
        n, c = st.need_units(), st.need_count()
        return 3 * n - c, c - 2 * n

    @staticmethod
    def solution(g, x):
        p, m = g
        P = total([x[u] for u in Normal.units if u[0] == 'pair'])
        K = total([x[u] for u in Normal.units if u[0] != 'pair'])
        return [('number of pairs', P == p), ('number of melds', K == m)]

    @staticmethod
    def allowed(g, u):
        return g[0] > 0 if u[0] == 'pair' else g[1] > 0

    @staticmethod
    def next_is(g, u, g2):
        a, b = (1, 0) if u[0] == 'pair' else (0, 1)
        return And(g2[0] == g[0] - a, g2[1] == g[1] - b)

    @staticmethod
    def size(g):
        return g[0] + g[1]

    @staticmethod
    def need(g):
        return 2 * g[0] + 3 * g[1]


class Pairs:
    """UniquePairs(n, used): n pairs of different kinds, none of them used."""
    units = [('pair', t) for t in range(34)]

    @staticmethod
    def state(W):
        D = M('mahjong.tile.definition')
        n = fresh_int('pairs', 0)
        used = SymSet({D.Tile(a, c): z3.Bool(E.fresh_name('used.%d%s' % (a, c))) for a, c in KINDS})
        return W.UniquePairs(n, used)

    @staticmethod
    def ghost(W, st):
        if not isinstance(st, W.UniquePairs):
            raise Unsupported('a state of another class')
        u = getattr(st, '_used', None)
        if not isinstance(u, (SymSet, set, frozenset)):
            raise Unsupported('where are the kinds used already kept?')
        tiles = ts.tiles34()
        return st.need_units(), [u.has(t) if isinstance(u, SymSet) else (t in u) for t in tiles]

    @staticmethod
    def solution(g, x):
        n, used = g
        out = [('number of pairs', total([x[u] for u in Pairs.units]) == n)]
        for u in Pairs.units:
            out.append(('different kinds, none used', And(x[u] <= 1, Implies(used[u[1]], x[u] == 0))))
        return out

    @staticmethod
    def allowed(g, u):
        return And(g[0] > 0, Not(_sb(g[1][u[1]])))

    @staticmethod
    def next_is(g, u, g2):
        return And([g2[0] == g[0] - 1] + [Iff(_sb(b), True if t == u[1] else _sb(a)) for t, (a, b) in enumerate(zip(g[1], g2[1]))])

    @staticmethod
    def size(g):
        return g[0]

    @staticmethod
    def need(g):
        return 2 * g[0]


MEMO = {}


def _key(a):
    if isinstance(a, (SInt, SBool)):
        t = num(a) if isinstance(a, SInt) else as_z3bool(a)
        return t.get_id(), t
    if isinstance(a, z3.ExprRef):
        return a.get_id(), a
    if isinstance(a, (list, tuple)):
        ks = [_key(x) for x in a]
        return tuple(k for k, _ in ks), [r for _, r in ks]
    if isinstance(a, dict):
        ks = [_key(x) for x in a.values()]
        return tuple(a), tuple(k for k, _ in ks), [r for _, r in ks]
    if isinstance(a, type):
        return a.__name__, None
    return (type(a), a), None


def memo(f):
    """Terms built from the same terms are the same on every path."""
    def g(*args):
        ks = [_key(a) for a in args]
        key = (f.__name__,) + tuple(k[:-1] for k in ks)
        if key not in MEMO:
            MEMO[key] = (f(*args), ks)
        return MEMO[key][0]
    return g


def _sb(x):
    return x if isinstance(x, (bool, SBool)) else wrapb(x)


def total(xs):
    return SInt(z3.Sum([num(x) if not isinstance(x, int) else z3.IntVal(x) for x in xs]))


@memo
def use(S, x, t):
    return total([c * x[u] for u in S.units for s, c in uses(u).items() if s == t])


@memo
def valid(S, g, x, h):
    """[(name, condition)]: x is a choice of units of state g contained in the counts h."""
    out = [('no unit a negative number of times', And([x[u] >= 0 for u in S.units]))]
    out += S.solution(g, x)
    out += [('contained in the hand', h[t] >= use(S, x, t)) for t in range(34)]
    return out


def fresh_vector(S, name):
    return {u: fresh_int('%s.%s%d' % (name, u[0], u[1])) for u in S.units}


def minus(x, u):
    y = dict(x)
    y[u] = y[u] - 1
    return y


class Sel:
    """A selection of units known by its ghost vector (a list of TileSets)."""
    pv_is_list = True

    def __init__(self, vec):
        self.vec = vec

    def __radd__(self, o):
        if not isinstance(o, list):
            return NotImplemented
        return Sel(vector_of(self.vec, o))

    def __add__(self, o):
        if isinstance(o, Sel):
            return Sel({u: self.vec[u] + o.vec[u] for u in self.vec})
        if not isinstance(o, list):
            return NotImplemented
        return Sel(vector_of(self.vec, o))

    def __getattr__(self, n):
        if n.startswith('pv_') or n.startswith('__'):
            raise AttributeError(n)
        raise Unsupported('looking into an arbitrary selection')


def vector_of(base, units):
    """The ghost vector of a list of units (TileSets)."""
    v = dict(base)
    for s in units:
        u = unit_of(s)
        if u is None or u not in v:
            E.prove('every member of a selection is a unit of the pattern', False, repr(s))
        v[u] = v[u] + 1
    return v


def unit_of(s):
    if not isinstance(s, PCounter):
        return None
    tiles = ts.tiles34()
    ix = {t: i for i, t in enumerate(tiles)}
    c = {}
    for k, (p, n) in s._pv_d.items():
        if not is_true(p) or not isinstance(n, int) or k not in ix:
            return None
        if n:
            c[ix[k]] = n
    for u in Normal.units:
        if uses(u) == c:
            return u
    return None


def sorted_keys(s):
    ix = {t: i for i, t in enumerate(ts.tiles34())}
    ks = [ix.get(k, -1) for k in s._pv_d]
    return s._pv_order and ks == sorted(ks) and -1 not in ks


def hand_of(S_, name, lo=0):
    tiles = ts.tiles34()
    return ts.sym_counter(S_.TileSet, name, tiles, lo, None, order=True)


@memo
def fits(u, h):
    return And([h[t] >= c for t, c in uses(u).items()])


@memo
def inside(S, g, h, t, before=34):
    """Tile t is part of a unit the state allows and the hand holds, starting before the given tile."""
    return Or([False] + [And(S.allowed(g, u), fits(u, h)) for u in S.units if u[1] < before and t in uses(u)])


# ---------------------------------------------------------------- update_possible_units
class PossibleCut(Cut):
    """After the first i tiles: the possible tiles are those of the units that start before tile i."""
    name = 'update_possible_units/for'

    def __init__(self, S, g, h, pu, tiles):
        self.S, self.g, self.h, self.pu, self.tiles = S, g, h, pu, tiles
        self.i = None

    def match(self, seq, loc):
        return isinstance(seq, GSeq) and seq.tag == 'keys' and len(seq.items) == 34

    def want(self, i):
        return {t: inside(self.S, self.g, self.h, t, i) for t in range(34)}

    def element(self, seq, i, loc):
        self.i = i
        return seq.items[i]

    def invariant(self, seq, i, loc):
        w = self.want(i)
        cs = []
        for t, tile in enumerate(self.tiles):
            p, c = self.pu._pv_get(tile)
            cs.append(z3.And(as_z3bool(ts._g(p)) == as_z3bool(w[t]), z3.Implies(as_z3bool(ts._g(p)), num(c) > 0)))
        return [('the tiles of the units so far', wrapb(z3.And(cs))), ('in tile order', sorted_keys(self.pu)),
                ('no other keys', set(self.pu._pv_d) <= set(self.tiles))]

    def havoc(self, seq, i, loc):
        d = self.pu._pv_d
        d.clear()
        for t, g in self.want(i).items():
            g = g if isinstance(g, bool) else conj(g)
            if not is_false(g):
                c = fresh_int('count')
                E.assume(c > 0)
                d[self.tiles[t]] = (g, c)
        self.pu._pv_order = True
        self.pu._pv_ver += 1
        return {}

    def modifies(self, loc):
        return [self.pu]


def h_update(S):
    def h():
        E.notes['order_checks'] = True
        W, SE = M('mahjong.container.pattern.win'), M('mahjong.container.set')
        tiles = ts.tiles34()
        hand = hand_of(SE, 'hand')
        hc = ts.counts(hand, tiles)
        st = S.state(W)
        g = S.ghost(W, st)
        pu = SE.TileSet()
        ref = ts.record(hand)
        cut = PossibleCut(S, g, hc, pu, tiles)
        CUTS['WinPattern.update_possible_units'] = [cut]
        it = iter(st.update_possible_units(hand, pu))
        n = 0
        for y in it:
            n += 1
            E.cover('tile')
            i = cut.i
            E.prove('one entry per tile', n == 1)
            E.prove('the tile', isinstance(y, tuple) and len(y) == 2 and y[0] is tiles[i])
            got = {}
            for unit, nxt in y[1]:
                u = unit_of(unit)
                E.prove('a unit that starts with the tile', u is not None and u[1] == i and u in S.units and u not in got)
                got[u] = nxt
                E.prove('the rest of the pattern', S.next_is(g, u, S.ghost(W, nxt)))
            for u in S.units:
                if u[1] == i:
                    E.prove('exactly the units the hand holds', Iff(And(S.allowed(g, u), fits(u, hc)), u in got))
        E.prove('the hand keeps its entries', SBool(ts.same_entries(hand, ref, tiles)))
        E.prove('the state keeps its meaning', same_ghost(S, g, S.ghost(W, st)))
        E.cover('end')
    return h


def same_ghost(S, a, b):
    if S is Normal:
        return And(a[0] == b[0], a[1] == b[1])
    return And([a[0] == b[0]] + [Iff(_sb(x), _sb(y)) for x, y in zip(a[1], b[1])])


# ---------------------------------------------------------------- _win_selections
class RestrictCut(Cut):
    """for tile, count in possible_units.items(): the first tiles have the count of the hand."""
    name = '_win_selections/restrict'

    def __init__(self, ctx):
        self.c = ctx

    def match(self, seq, loc):
        return isinstance(seq, GSeq) and seq.tag == 'items' and seq.owner is self.c.pu

    def entries(self, i):
        c = self.c
        out = {}
        for k, (g, (tile, n)) in enumerate(self.seq0.items):
            t = c.tiles.index(tile)
            out[tile] = (g, c.h[t] if k < i else n)
        return out

    def enter(self, seq, loc):
        self.seq0 = seq

    def indices(self, seq, loc):
        if self.c.only not in (None, 'end'):
            raise PathEnd()
        return list(range(len(seq.items)))

    def invariant(self, seq, i, loc):
        return [('the first tiles are as in the hand', SBool(ts.same_entries(self.c.pu, self.entries(i), self.c.tiles))),
                ('in tile order', sorted_keys(self.c.pu))]

    def havoc(self, seq, i, loc):
        pu = self.c.pu
        pu._pv_d.clear()
        pu._pv_d.update(self.entries(i))
        pu._pv_order = True
        pu._pv_ver += 1
        return {}

    def modifies(self, loc):
        return [self.c.pu]


class UnitsCut(Cut):
    """for tile, units in unit_list: tiles before the current one are gone, and every choice whose first unit starts
    before the current tile has been handed out."""
    name = '_win_selections/units'

    def __init__(self, ctx):
        self.c = ctx

    def match(self, seq, loc):
        return isinstance(seq, GSeq) and seq.tag == 'units'

    def enter(self, seq, loc):
        c = self.c
        hs = [v for v in loc.values() if isinstance(v, PCounter) and v is not c.hand0 and all(
            isinstance(k, object) for k in v._pv_d)]
        hs = list({id(v): v for v in hs if v is c.pu or c.pu is None}.values())
        if len(hs) != 1:
            raise Unsupported('which multiset is searched?')
        self.work = hs[0]
        self.found0 = c.found
        self.base = ts.record(self.work)

    def entries(self, i):
        c = self.c
        return {tile: e for tile, e in self.base.items() if c.tiles.index(tile) >= i}

    def indices(self, seq, loc):
        if self.c.only == 'end':
            raise PathEnd()
        return [i for i in range(34) if self.c.only is None or i % NGROUPS == self.c.only]

    def exit_index(self, seq, loc):
        if self.c.only not in (None, 'end'):
            raise PathEnd()
        return 34

    def element(self, seq, i, loc):
        self.c.i = i
        g, (tile, fit) = seq.items[i]
        return g, (tile, [(u, n) for ok, u, n in fit() if E.branch(as_z3bool(ok))])

    def invariant(self, seq, i, loc):
        c = self.c
        out = [('the tiles before are gone, the others stay', SBool(ts.same_entries(self.work, self.entries(i), c.tiles))),
               ('in tile order', sorted_keys(self.work))]
        if c.x is not None:
            out.append(('choices that start before are handed out', Or(c.found, c.j >= i)))
        return out

    def havoc(self, seq, i, loc):
        c = self.c
        w = self.work
        w._pv_d.clear()
        w._pv_d.update(self.entries(i))
        w._pv_order = True
        w._pv_ver += 1
        if c.x is not None:
            c.found = Or(self.found0, c.j < i)
        return {}

    def modifies(self, loc):
        return [self.work]


class Ctx:
    def __init__(self, S, complete, only=None):
        self.S = S
        self.only = only
        W, SE = M('mahjong.container.pattern.win'), M('mahjong.container.set')
        self.W = W
        E.notes['order_checks'] = True
        ts.install()
        self.tiles = tiles = ts.tiles34()
        self.hand0 = hand_of(SE, 'hand')
        self.h = ts.counts(self.hand0, tiles)
        self.st = S.state(W)
        self.g = S.ghost(W, self.st)
        self.pu = None
        self.i = None
        self.x = self.j = None
        self.found = False
        self.made = {}
        if complete:
            self.x = fresh_vector(S, 'x')
            for n, c in valid(S, self.g, self.x, self.h):
                E.assume(c)
            self.j = fresh_int('first', 0, 34)        # the first tile a unit of the choice starts with; 34: no unit
            assume_first(S, self.x, self.j)
            # proved as the lemma harness
            for n, c in units_of_choice(S, self.g, self.x, self.h) + first_of_choice(S, self.g, self.x, self.j):
                E.assume(c)
        orig = vars(W.WinPattern)['_win_selections'] if '_win_selections' in vars(W.WinPattern) else None
        if orig is None:
            raise Unsupported('_win_selections is not where it was')
        self.orig = orig
        stub(W.WinPattern, '_win_selections', lambda s, hand: self.recursive(s, hand))
        stub(W.WinPattern, 'update_possible_units', lambda s, hand, pu: self.update(s, hand, pu))
        CUTS['WinPattern._win_selections'] = [RestrictCut(self), UnitsCut(self)]

    def update(self, s, hand, pu):
        """Contract of update_possible_units (harness h_update)."""
        S = self.S
        E.prove('the units of this state', s is self.st)
        E.prove('the possible tiles start empty', isinstance(pu, PCounter) and not pu._pv_d)
        hc = ts.counts(hand, self.tiles)
        E.prove('units are looked up in the whole hand', And([a == b for a, b in zip(hc, self.h)]) if hand is not self.hand0 else True)
        E.prove('its tiles are listed in order', sorted_keys(hand))
        self.pu = pu
        for t, tile in enumerate(self.tiles):
            g = inside(S, self.g, self.h, t)
            g = g if isinstance(g, bool) else conj(g)
            c = fresh_int('count')
            E.assume(c > 0)
            if not is_false(g):
                pu._pv_d[tile] = (g, c)
        pu._pv_order = True
        pu._pv_ver += 1
        items = []
        for t, tile in enumerate(self.tiles):
            items.append((hand._pv_get(tile)[0], (tile, lambda t=t, tile=tile: self.tuples(t, tile))))
        return GSeq(items, True, 'units')

    def tuples(self, t, tile):
        """(condition, unit, next state) of the units that start with a tile."""
        out = []
        S = self.S
        objs = {}
        for unit, nxt in self.st.next_states(tile):
            u = unit_of(unit)
            E.prove('next states as contracted', u in S.units and u[1] == t)
            out.append((fits(u, self.h), unit, nxt))
            objs[u] = nxt
        for u in S.units:
            if u[1] == t:
                E.prove('a unit is offered iff the state allows it', Iff(S.allowed(self.g, u), u in objs))
                if u in objs:
                    E.prove('with the rest of the pattern', S.next_is(self.g, u, S.ghost(self.W, objs[u])))
        return out

    def recursive(self, s, hand):
        """Contract of the search itself for a smaller pattern."""
        S = self.S
        g = S.ghost(self.W, s)
        E.prove('the search is for a smaller pattern', And(S.size(g) < S.size(self.g), S.size(g) >= 0))
        E.prove('the tiles of the rest are listed in order', sorted_keys(hand))
        hc = ts.counts(hand, self.tiles)
        E.prove('no negative counts', And([c >= 0 for c in hc]))
        if self.x is None:
            y = fresh_vector(S, 'y')
            for n, c in valid(S, g, y, hc):
                E.assume(c)
            return [Sel(y)]
        # completeness: the rest of the choice, if this call is the one it starts with
        i = self.i
        out = []
        for u in S.units:
            if u[1] != i:
                continue
            if not isinstance(S.next_is(self.g, u, g), bool) and E.check(z3.Not(as_z3bool(S.next_is(self.g, u, g)))) != z3.unsat:
                continue
            y = minus(self.x, u)
            if not all(same_count(hc[t], hc0, uses(u).get(t, 0)) for t, hc0 in enumerate(self.work_counts())):
                continue
            if E.branch(as_z3bool(And(self.j == i, self.x[u] > 0))):
                for n, c in valid(S, g, y, hc):
                    E.prove('the rest of the choice remains possible: ' + n, c)
                out.append(Sel(y))
                E.cover('rest')
        return out

    def work_counts(self):
        w = [c for c in CUTS['WinPattern._win_selections'] if isinstance(c, UnitsCut)][0].work
        return ts.counts(w, self.tiles)


def same_count(after, before, used):
    return E.check(z3.Not(num(after) == num(before) - used)) == z3.unsat


@memo
def units_of_choice(S, g, x, h):
    out = []
    for u in S.units:
        out.append(('a unit of the choice fits and is allowed', Implies(x[u] > 0, And(S.allowed(g, u), fits(u, h)))))
    for t in range(34):
        out.append(('a tile of the choice is a tile of a possible unit', use(S, x, t) <= ite(inside(S, g, h, t), h[t], 0)))
    out.append(('the choice needs its tiles', total([use(S, x, t) for t in range(34)]) == S.need(g)))
    out.append(('the hand has the tiles the choice needs', total(h) >= S.need(g)))
    out.append(('the hand has the possible tiles the choice needs',
                total([ite(inside(S, g, h, t), h[t], 0) for t in range(34)]) >= S.need(g)))
    return out


@memo
def first_of_choice(S, g, x, j):
    return [('a choice without a first unit is empty', Implies(j == 34, And([S.size(g) == 0] + [x[u] == 0 for u in S.units])))]


@memo
def first_terms(S, x, j):
    starts = [total([x[u] for u in S.units if u[1] == t]) for t in range(34)]
    return [And(Implies(t < j, starts[t] == 0), Implies(j == t, starts[t] > 0)) for t in range(34)]


def assume_first(S, x, j):
    for c in first_terms(S, x, j):
        E.assume(c)


def h_lemma(S):
    def h():
        W, SE = M('mahjong.container.pattern.win'), M('mahjong.container.set')
        hand = hand_of(SE, 'hand')
        hc = ts.counts(hand, ts.tiles34())
        g = S.ghost(W, S.state(W))
        x = fresh_vector(S, 'x')
        for n, c in valid(S, g, x, hc):
            E.assume(c)
        for t in range(34):
            E.prove('use of a tile is not negative', use(S, x, t) >= 0)
        for n, c in units_of_choice(S, g, x, hc):
            E.prove(n, c)
        j = fresh_int('first', 0, 34)
        assume_first(S, x, j)
        for n, c in first_of_choice(S, g, x, j):
            E.prove(n, c)
        E.cover('lemma')
    return h


def h_search(S, complete, only=None):
    def h():
        c = Ctx(S, complete, only)
        ref = ts.record(c.hand0)
        zero = {u: 0 for u in S.units}
        for L in iter(c.orig(c.st, c.hand0)):
            v = L.vec if isinstance(L, Sel) else vector_of(zero, list(L))
            if complete:
                c.found = Or(c.found, And([v[u] == c.x[u] for u in S.units]))
                E.cover('handed out')
            else:
                for n, cond in valid(S, c.g, v, c.h):
                    E.prove('a selection is a choice of the pattern: ' + n, cond)
                E.cover('selection')
        # the search has ended
        E.prove('the hand keeps its entries', SBool(ts.same_entries(c.hand0, ref, c.tiles)))
        E.cover('end')
        if complete:
            E.prove('every choice has been handed out', c.found)
    return h


def h_front(cls):
    """win_selections and match over the search."""
    def h():
        ts.install()
        W, SE = M('mahjong.container.pattern.win'), M('mahjong.container.set')
        tiles = ts.tiles34()
        hand = ts.sym_counter(SE.TileSet, 'hand', tiles, 0, None)
        hc = ts.counts(hand, tiles)
        st = Normal.state(W) if cls == 'normal' else Pairs.state(W)
        n = E.choose([0, 1, 2])
        sels = [Sel({}) for _ in range(n)]
        calls = []

        def search(s, h):
            calls.append(1)
            E.prove('the pattern itself', s is st)
            E.prove('the whole hand in order', sorted_keys(h) and (h is hand or And([a == b for a, b in zip(ts.counts(h, tiles), hc)])))
            return E.choose([iter, list])(sels)
        stub(W.WinPattern, '_win_selections', search)
        if E.choose([True, False]):
            r = list(st.win_selections(hand))
            E.prove('what the search gives', len(r) == n and all(a is b for a, b in zip(r, sels)) and len(calls) == 1)
            E.cover('selections')
        else:
            r = st.match(hand)
            E.prove('a match iff there is a selection', r is (n > 0))
            E.cover('match')
        E.prove('the hand keeps its counts', And([a == b for a, b in zip(ts.counts(hand, tiles), hc)]))
    return h


NGROUPS = 6


def base_harnesses(S, funcs):
    return [Harness('lemma', h_lemma(S), funcs, ['lemma']), Harness('possible units', h_update(S), funcs, ['tile', 'end']),
            Harness('sound', h_search(S, False), funcs, ['selection', 'end']),
            Harness('complete, end', h_search(S, True, 'end'), funcs, ['handed out', 'end'])] + \
           [Harness('complete, tiles %d' % k, h_search(S, True, k), funcs, ['handed out', 'rest'])
            for k in range(NGROUPS)]
