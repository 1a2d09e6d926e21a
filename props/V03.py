"""V03: distinct over a sequence of unknown length under any total order, and unique_win_selections over distinct.

distinct: the loop invariant is over an arbitrary strictly increasing list and the set of the items read so far; positions are
instantiated at arbitrary (skolem) indexes, so no quantifier reaches the solver.  Every total order of countably many items embeds
in the rationals: an item is its rank, equal items may be different objects."""
from props.lib import *
from props import winlib as wl
from props import tilesets as ts
from pv.model import ASeq
from pv.core import PathEnd

FUNCS = ['container.utils.distinct', 'container.pattern.win.WinPattern.unique_win_selections', 'container.set.TileSet.__lt__']
TRUSTED = ['bisect_left / bisect_right / insort by their documentation on a strictly increasing list', 'list comparison and sorted() of Python']
ASSUMPTIONS = ['the items of distinct are compared by a total order']


class Item:
    """An item known by its rank in the order."""
    __hash__ = None

    def __init__(self, rank):
        self.rank = rank

    def _op(name):
        def f(self, o):
            if not isinstance(o, Item):
                return NotImplemented
            return getattr(self.rank, name)(o.rank)
        f.__name__ = name
        return f
    __lt__, __le__, __gt__, __ge__, __eq__, __ne__ = map(_op, '__lt__ __le__ __gt__ __ge__ __eq__ __ne__'.split())


class DistinctCut(Cut):
    """The list kept is strictly increasing and holds exactly the items read so far; an item was handed out iff it was new."""
    name = 'distinct/for'

    def __init__(self, seq, log):
        self.seq, self.log = seq, log
        self.var = None
        self.bis = []

    def match(self, seq, loc):
        return seq is self.seq

    def length(self, seq, loc):
        return seq.n

    def enter(self, seq, loc):
        vs = [n for n, v in loc.items() if type(v) is list and not v]
        if len(vs) != 1:
            raise Unsupported('which list holds the items seen?')
        self.var = vs[0]

    def indices(self, seq, loc):
        return [0]

    def element(self, seq, i, loc):
        self.x = Item(fresh_real('item'))
        return True, self.x

    def exit_index(self, seq, loc):
        return 1

    # facts about the state before the step, at chosen places
    def facts(self, ks, rs):
        n, A, seen, pos = self.n, self.A, self.seen, self.pos
        for r in rs:
            p = pos(r)
            E.assume(wrapb(z3.Implies(seen(r), z3.And(0 <= p, p < n, A[p] == r))))
            ks = ks + [p]
        for k in ks:
            E.assume(wrapb(z3.Implies(z3.And(0 <= k, k < n), seen(A[k]))))
            for b in ks:
                E.assume(wrapb(z3.Implies(z3.And(0 <= k, k < b, b < n), A[k] < A[b])))
            for name, i, x in self.bis:
                lo, hi = (A[k] < x, A[k] >= x) if name.endswith('left') else (A[k] <= x, A[k] > x)
                E.assume(wrapb(z3.And(z3.Implies(z3.And(0 <= k, k < i), lo), z3.Implies(z3.And(i <= k, k < n), hi))))

    def all_facts(self, ks, rs):
        ks = [num(k) for k in ks] + [i for _, i, _ in self.bis] + [num(k) - 1 for k in ks]
        self.facts(ks, [num(r) for r in rs] + ([num(self.x.rank)] if hasattr(self, 'x') else []))

    def invariant(self, seq, i, loc):
        u = loc[self.var]
        if type(u) is list and not u and i == 0:
            return [('nothing seen, nothing kept', True)]
        if not isinstance(u, ASeq):
            raise Unsupported('the items seen are kept in something else')
        E.prove('handed out iff new', Iff(wrapb(z3.Not(self.was(num(self.x.rank)))), len(self.log) == 1))
        if self.log:
            E.prove('the item itself is handed out', len(self.log) == 1 and self.log[0] is self.x)
        what = E.choose(['sorted', 'sound', 'complete'])
        if what == 'sorted':
            a, b = fresh_int('a', 0), fresh_int('b', 0)
            E.assume(And(a < b, b < u.n))
            self.all_facts([a, b], [])
            return [('strictly increasing', u.at(a).rank < u.at(b).rank)]
        if what == 'sound':
            a = fresh_int('a', 0)
            E.assume(a < u.n)
            self.all_facts([a], [])
            r = u.at(a).rank
            return [('only items that were read', Or(wrapb(self.seen(num(r))), r == self.x.rank))]
        r = fresh_real('r')
        self.all_facts([], [r])
        E.assume(Or(wrapb(self.seen(num(r))), r == self.x.rank))
        cand = [wrap(self.pos(num(r))), wrap(self.pos(num(r)) + 1), wrap(self.pos(num(self.x.rank)))] + [wrap(k) for _, k, _ in self.bis]
        return [('every item that was read', Or([And(0 <= k, k < u.n, u.at(k).rank == r) if E.check(z3.And(num(k) >= 0, num(k) < num(u.n))) != z3.unsat
                                                 else False for k in cand]))]

    def was(self, r):
        self.all_facts([], [wrap(r)])
        return self.seen(r)

    def havoc(self, seq, i, loc):
        if type(loc[self.var]) is not list:
            raise Unsupported('two loops')
        self.n = num(fresh_int('kept', 0))
        self.A = z3.Array(E.fresh_name('kept'), z3.IntSort(), z3.RealSort())
        self.seen = z3.Function(E.fresh_name('seen'), z3.RealSort(), z3.BoolSort())
        self.pos = z3.Function(E.fresh_name('pos'), z3.RealSort(), z3.IntSort())
        self.bis = []
        u = ASeq(wrap(self.n), lambda k: Item(wrap(self.A[num(k)])))
        self.u0 = (u.n, u.at)
        E.notes['bisect_hook'] = self.bisect
        return {self.var: u}

    def bisect(self, name, a, x):
        if not isinstance(x, Item) or (a.n, a.at) != self.u0:
            raise Unsupported('bisect in another list')
        i = num(fresh_int('index', 0))
        E.assume(wrapb(i <= self.n))
        self.bis.append(('left' if name.endswith('left') else 'right', i, num(x.rank)))
        self.all_facts([], [])
        if name.startswith('insort'):
            a.insert(wrap(i), x)
            return None
        return wrap(i)


def h_distinct():
    U = M('mahjong.container.utils')
    n = fresh_int('items', 0)
    log = []
    seq = ASeq(n, lambda k: Unsupported)
    cut = DistinctCut(seq, log)
    CUTS['distinct'] = [cut]
    try:
        for y in U.distinct(seq):
            log.append(y)
            E.cover('handed out')
    except IndexError:
        E.prove('no position outside the list is read', False)
    E.prove('nothing is handed out after the last item', not log)
    E.cover('end')


class Sorted(ASeq):
    pass


def h_unique():
    """unique_win_selections: distinct over the sorted selections of win_selections, in their order."""
    W = M('mahjong.container.pattern.win')
    U = M('mahjong.container.utils')
    n = fresh_int('selections', 0)
    sels = {}

    def sel(k):
        key = num(k).get_id() if not isinstance(k, int) else k
        if key not in sels:
            sels[key] = (ASeq(fresh_int('units', 0), lambda i: Unsupported), k)
        return sels[key][0]
    seq = ASeq(n, sel)
    hand = object()
    st = W.NormalTypeWin(fresh_int('p', 0), fresh_int('m', 0)) if E.choose([0, 1]) else W.UniquePairs(fresh_int('n', 0))
    srt = {}

    def sorted_hook(s, key, reverse):
        E.prove('sorted in the order of the units', key is None and not reverse)
        r = Sorted(s.n, s.at)
        srt[id(r)] = (r, s)
        return r
    E.notes['sorted_hook'] = sorted_hook
    calls = []

    def front(s, h):
        E.prove('of the pattern and hand given', s is st and h is hand)
        calls.append(1)
        return seq
    stub(W.WinPattern, 'win_selections', front)
    out = object()
    got = []

    def distinct(it):
        got.append(it)
        return iter([out])
    stub_everywhere('distinct', distinct)
    r = list(st.unique_win_selections(hand))
    E.prove('the search is started once', len(calls) == 1)
    E.prove('the distinct ones', len(r) == 1 and r[0] is out and len(got) == 1)
    s = got[0]
    if not isinstance(s, ASeq):
        raise Unsupported('the sorted selections')
    E.prove('of as many selections', same(s.n, n))
    k = fresh_int('k', 0)
    E.assume(k < n)
    e = s.at(k)
    E.prove('every selection sorted', isinstance(e, Sorted) and srt[id(e)][1] is sel(k))
    E.cover('unique')


def h_order():
    """The units of a selection are totally ordered, consistently with equality: all pairs of the 89 units."""
    ts.install()
    tiles = ts.tiles34()
    units = []
    for k, t in wl.Normal.units:
        units.append((tiles[t].pair if k == 'pair' else tiles[t].triplet if k == 'triplet' else tiles[t].flush)())
    rank = []
    for a in units:
        rank.append(sum(1 for b in units if (b < a) is True))
    E.prove('a strict order: the ranks are different', sorted(rank) == list(range(len(units))))
    copies = [wl_copy(u) for u in units]
    for i, a in enumerate(units):
        for j, b in enumerate(copies):
            ok = [(a < b) is (rank[i] < rank[j]), (a > b) is (rank[i] > rank[j]), (a <= b) is (rank[i] <= rank[j]),
                  (a >= b) is (rank[i] >= rank[j]), (a == b) is (i == j), (a != b) is (i != j)]
            E.prove('comparisons follow the rank', all(ok))
    E.cover('order')


def wl_copy(u):
    return u.copy()


def harnesses(tier):
    return [Harness('distinct', h_distinct, FUNCS[:1], ['handed out', 'end']), Harness('unique', h_unique, FUNCS[1:2], ['unique']),
            Harness('order', h_order, FUNCS[2:], ['order'])]
