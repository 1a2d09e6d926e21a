"""S03: the batch analysis of discards.

With x over the completions of the hand within the limits that cost the least: discarding tile t keeps the waiting step iff some
x uses fewer copies of t than are held, and the useful tiles of the hand without t are those some such x needs (harness
'discard').  The search without pruning hands out exactly these completions (props/heur.py, contracts proved there);
batch_waiting_and_useful_tiles is proved, by invariants of its three loops, to list exactly those tiles with those useful tiles."""
from props.heur import *

BATCH = H + 'batch_waiting_and_useful_tiles'
FUNCS3 = FUNCS + [R + H + f for f in ('batch_waiting_and_useful_tiles', 'count_hand_borrow_combinition_iter')]
ASSUMPTIONS = ASSUMPTIONS + ['before_waiting_step by its contract (S01)',
                             'functools.reduce over the units of a completion adds them up (its function and start are checked)']


class Units(Abstract):
    """The units of a completion, known by how many of each tile they use."""

    def __init__(self, top, use):
        self.top, self.use = top, use

    def __iter__(self):
        raise Unsupported('the units of a completion one by one')

    def pv_reduce(self, f, *init):
        t = self.top
        if len(init) != 1 or not isinstance(init[0], PCounter):
            raise Unsupported('adding up units without a multiset to start with')
        E.prove('adding up starts with nothing', And([c == 0 for c in ts.counts(init[0], t.tiles)]))
        a, b = fresh_counts('sum', 0), fresh_counts('unit', 0)
        r = f(self.multiset(a), self.multiset(b))
        E.prove('adding up a multiset', isinstance(r, PCounter))
        for x, y, z in zip(ts.counts(r, t.tiles), a, b):
            E.prove('units are added up', x == y + z)
        return self.multiset(self.use)

    def multiset(self, c):
        t = self.top
        s = t.SE.TileSet()
        for k, tile in enumerate(t.tiles):
            s._pv_d[tile] = (truth(c[k] > 0), c[k])
        s._pv_order = False
        return s


class SetOf(Abstract):
    """A set of tiles of which only is known whether it has the tile in question (any tile)."""
    pv_abstract = True
    pv_is_set = True

    def __init__(self, top, has=False):
        self.top, self.has = top, has

    def of(self, o):
        if isinstance(o, SetOf):
            return as_z3bool(ts._g(o.has))
        return self.top.has(o)

    def update(self, *os):
        for o in os:
            self.has = z3.Or(as_z3bool(ts._g(self.has)), self.of(o))

    def __or__(self, o):
        r = SetOf(self.top, self.has)
        r.update(o)
        return r

    __ror__ = union = __or__

    def __ior__(self, o):
        self.update(o)
        return self

    def copy(self):
        return SetOf(self.top, self.has)

    def pv_as_set(self):
        return self.copy()

    def pv_version(self):
        return self.has if isinstance(self.has, bool) else self.has.get_id()

    def __iter__(self):
        raise Unsupported('going through a set of tiles')


class SMap(Abstract):
    """A dictionary from tiles to sets of tiles; a missing key is entered by a look-up iff it is a defaultdict(set)."""
    pv_abstract = True

    def __init__(self, top, default):
        self.top, self.default = top, default
        self.tiles = tiles = top.tiles
        self.ix = {t: k for k, t in enumerate(tiles)}
        self.present = [False] * 34
        self.sets = [SetOf(top) for _ in tiles]

    def pv_version(self):
        return [p if isinstance(p, bool) else p.get_id() for p in self.present], [(id(s), s.pv_version()) for s in self.sets]

    def __getitem__(self, k):
        t = self.ix[k]
        if not E.branch(self.present[t]):
            if not self.default:
                raise KeyError(k)
            self.present[t] = True
            self.sets[t] = SetOf(self.top)
        return self.sets[t]

    def __setitem__(self, k, v):
        t = self.ix[k]
        if not isinstance(v, (set, SymSet, SetOf)):
            raise Unsupported('an entry that is not a set')
        self.present[t] = True
        self.sets[t] = v if isinstance(v, SetOf) else SetOf(self.top, self.top.has(v))

    def __contains__(self, k):
        return E.branch(self.present[self.ix[k]])

    def setdefault(self, k, d):
        if k not in self:
            self[k] = d
        return self[k]

    def get(self, k, d=None):
        return self[k] if k in self else d

    def items(self):
        return GSeq([(p, (t, s)) for p, t, s in zip(self.present, self.tiles, self.sets)], False, 'items')

    def keys(self):
        return GSeq([(p, t) for p, t in zip(self.present, self.tiles)], False, 'keys')

    def __iter__(self):
        return iter(self.keys())


class BatchTop(UsefulTop):
    def __init__(self, S):
        super().__init__(S)
        E.assume(self.C > 0)                        # not complete
        self.use = fresh_counts('use', 0)
        for t in range(34):
            E.assume(self.D[t] == over(self.use[t], self.h[t]))
        # the tile in question; Dr[t]: some optimal completion leaves a copy of t; Wd[t]: some such completion needs the tile
        self.q = fresh_int('useful_tile', 0, 33)
        self.Dr = [fresh_bool('drop%d' % t) for t in range(34)]
        self.Wd = [fresh_bool('drop_useful%d' % t) for t in range(34)]
        self.asked = self.needs(self.D)
        self.meaning(self.use, self.D)

    def needs(self, D):
        return Or([And(self.q == s, D[s] > 0) for s in range(34)])

    def has(self, o):
        """Whether a collection of tiles has the tile in question."""
        return as_z3bool(Or([And(self.q == s, b) for s, b in enumerate(tiles_in(o, self.tiles))]))

    def meaning(self, use, D):
        n = self.needs(D)
        for t in range(34):
            E.assume(Implies(use[t] < self.h[t], And(self.Dr[t], Implies(n, self.Wd[t]))))

    def element(self, use, D):
        return total(D), Units(self, use), need_set(self.SE, D, self.tiles)


def b_(g):
    return wrapb(as_z3bool(ts._g(g)))


class CompletionsCut(Cut):
    name = 'completions'

    def __init__(self, top, part):
        self.t, self.part = top, part

    def modes(self, seq, loc):
        return ['exit'] if self.part == 'entries' else ['step']

    def match(self, seq, loc):
        return isinstance(seq, Optimal)

    def enter(self, seq, loc):
        seq.consumed()
        maps = [n for n, v in loc.items() if isinstance(v, (dict, SMap))]
        if len(maps) != 1 or isinstance(loc[maps[0]], SMap):
            raise Unsupported('which dictionary collects the discards?')
        self.map = maps[0]
        d = loc[self.map]
        self.default = getattr(d, 'default_factory', None) is not None and type(d.default_factory()) is set
        E.prove('nothing is listed at first', len(d) == 0)
        self.at = fresh_int('ghost', 0)
        E.assume(self.at < seq.n)

    def length(self, seq, loc):
        return seq.n

    def indices(self, seq, loc):
        return [fresh_int('index', 0)]

    def element(self, seq, i, loc):
        t = self.t
        E.assume(i < seq.n)
        if self.part[0] == 'ghost':
            E.assume_checked(i == self.at)
            return True, t.element(t.use, t.D)
        E.assume_checked(Not(i == self.at))
        use, D = fresh_counts('use', 0), fresh_counts('need', 0)
        for k in range(34):
            E.assume(D[k] == over(use[k], t.h[k]))
        E.assume(total(D) == t.C)
        t.meaning(use, D)
        return True, t.element(use, D)

    def facts(self, m, i):
        t = self.t
        done = self.at < i
        out = []
        for k in range(34):
            p, m_ = b_(m.present[k]), b_(m.sets[k].has)
            out.append(('discards keep the waiting step', Implies(p, t.Dr[k])))
            out.append(('their useful tiles', Implies(m_, And(p, t.Wd[k]))))
            out.append(('what the completion leaves is listed',
                        Implies(And(done, t.use[k] < t.h[k]), And(p, Implies(t.asked, m_)))))
        return out

    def invariant(self, seq, i, loc):
        m = loc[self.map]
        if not isinstance(m, SMap):
            return [('nothing is listed at first', isinstance(m, dict) and len(m) == 0)]
        return self.facts(m, i)

    def havoc(self, seq, i, loc):
        m = self.new = SMap(self.t, self.default)
        for k in range(34):
            m.present[k] = z3.Bool(E.fresh_name('listed'))
            m.sets[k] = SetOf(self.t, z3.Bool(E.fresh_name('useful')))
        for _, c in self.facts(m, i):
            E.assume(c)
        return {self.map: m}

    def modifies(self, loc):
        return [self.new] + self.new.sets


class DropsCut(Cut):
    """Over the tiles that are left: those done are listed, with what the completion needs."""
    name = 'left'

    def __init__(self, outer):
        self.o = outer

    def match(self, seq, loc):
        return isinstance(seq, GSeq) and any(isinstance(v, SMap) for v in loc.values())

    def enter(self, seq, loc):
        self.t = self.o.t
        self.m = [v for v in loc.values() if isinstance(v, SMap)][0]
        needs = [v for n, v in loc.items() if isinstance(v, PCounter) and getattr(v, 'pv_need', False)]
        if len(needs) != 1:
            raise Unsupported('what the completion needs')
        self.need = self.t.has(needs[0])
        self.pre = list(self.m.present), [s.has for s in self.m.sets]
        self.guard = {v: g for g, v in seq.items}
        if set(self.guard) - set(self.t.tiles):
            raise Unsupported('other tiles are left')
        self.done = [False] * 34

    def indices(self, seq, loc):
        return [fresh_int('index', 0)]

    def exit_index(self, seq, loc):
        return 'all'

    def element(self, seq, i, loc):
        k = E.choose([k for k, t in enumerate(self.t.tiles) if t in self.guard and k % 2 == self.o.part[1]])
        E.assume(Not(b_(self.done[k])))
        self.after = list(self.done)
        self.after[k] = self.guard[self.t.tiles[k]]
        self.done = self.after
        return self.guard[self.t.tiles[k]], self.t.tiles[k]

    def state(self, done):
        """(present, sets) once the tiles in done are done."""
        from pv.model import disj
        ps, ss = [], []
        for k in range(34):
            ps.append(self.pre[0][k] if done[k] is False else disj(self.pre[0][k], done[k]))
            ss.append(self.pre[1][k] if done[k] is False else disj(self.pre[1][k], conj(done[k], self.need)))
        return ps, ss

    def invariant(self, seq, i, loc):
        out = []
        if any(v is not self.m for v in loc.values() if isinstance(v, SMap)):
            return [('the same dictionary', False)]
        ps, ss = self.state(self.done)
        for k in range(34):
            out.append(('listed', Iff(b_(self.m.present[k]), b_(ps[k]))))
            out.append(('with what is needed', Iff(b_(self.m.sets[k].has), b_(ss[k]))))
        return out

    def havoc(self, seq, i, loc):
        if isinstance(i, str):
            self.done = [self.guard.get(t, False) for t in self.t.tiles]
        else:
            self.done = [z3.Bool(E.fresh_name('done')) for _ in self.t.tiles]
            for k, t in enumerate(self.t.tiles):
                E.assume(Implies(b_(self.done[k]), b_(self.guard.get(t, False))))
        ps, ss = self.state(self.done)
        for k in range(34):
            self.m.present[k] = ps[k]
            self.m.sets[k].has = ss[k]
        return {}

    def modifies(self, loc):
        return [self.m] + self.m.sets


class ItemsCut(Cut):
    """Over the entries: the tile in question has been handed out iff it was passed and is listed."""
    name = 'entries'

    def __init__(self, outer, seen):
        self.o, self.seen = outer, seen

    def match(self, seq, loc):
        return isinstance(seq, GSeq) and seq.tag == 'items'

    def enter(self, seq, loc):
        self.t = self.o.t
        self.at = fresh_int('place', 0, 33)

    def indices(self, seq, loc):
        return [fresh_int('index', 0, 33)]

    def element(self, seq, i, loc):
        k = E.choose(list(range(34)))
        E.assume(Iff(self.at == i, self.seen.tile == k))
        return seq.items[k]

    def listed(self, seq):
        return Or([And(self.seen.tile == k, b_(seq.items[k][0])) for k in range(34)])

    def want(self, seq, i):
        return ite(And(self.at < i, self.listed(seq)), 1, 0)

    def invariant(self, seq, i, loc):
        return [('each entry once', self.seen.n == self.want(seq, i))]

    def havoc(self, seq, i, loc):
        self.seen.n = self.want(seq, i)
        return {}


class Seen:
    pass


def h_batch(S, part):
    def h():
        t = BatchTop(S)
        t.light = part != 'entries'
        seen = Seen()
        seen.tile, seen.n = fresh_int('tile', 0, 33), 0
        c = CompletionsCut(t, part)
        CUTS[BATCH] = [c, ItemsCut(c, seen), DropsCut(c)]
        for tile, step, useful in iter(t.engine.batch_waiting_and_useful_tiles(t.hand)):
            E.prove('a tile', tile in t.tiles)
            k = t.tiles.index(tile)
            E.prove('the waiting step', step == t.C - 1)
            E.prove('discarding it keeps the waiting step', t.Dr[k])
            E.prove('a set of useful tiles', isinstance(useful, (set, SymSet, SetOf)))
            if not isinstance(useful, SetOf):
                useful = SetOf(t, t.has(useful))
            E.prove('useful after the discard', Implies(b_(useful.has), t.Wd[k]))
            E.prove('all useful tiles after the discard', Implies(And(t.use[k] < t.h[k], t.asked), b_(useful.has)))
            seen.n = seen.n + ite(seen.tile == k, 1, 0)
            E.cover('entry')
        t.counts_kept()
        for k in range(34):
            E.prove('a discard that keeps the waiting step is listed', Implies(And(seen.tile == k, t.use[k] < t.h[k]), seen.n == 1))
            E.prove('only such discards are listed, once', Implies(seen.tile == k, And(seen.n <= 1, Implies(seen.n > 0, t.Dr[k]))))
        E.cover('end')
    return h


def h_discard(S):
    """What discarding a tile does to the cost of a completion."""
    def h():
        W = M('mahjong.container.pattern.win')
        g = S.ghost(W, s4.pattern(S, W))
        hand = fresh_counts('hand', 0, 4)
        E.assume(total(hand) == (3 * g[1] + 2 if S is Normal else 14))
        x = fresh_vector(S, 'x')
        for n, c in choice(S, g, x):
            E.assume(c)
        for t in range(34):
            u = use(S, x, t)
            E.prove('the rest of the hand is a hand of S01', Implies(hand[t] > 0, And(hand[t] - 1 <= 4,
                    total(hand) - 1 >= (3 * g[1] + 1 if S is Normal else 13))))
            E.prove('the limits do not change', Iff(hand[t] - 1 - u >= hand[t] - 1 - 4, hand[t] - u >= hand[t] - 4))
            E.prove('it costs one more iff all copies are used',
                    Implies(hand[t] > 0, over(u, hand[t] - 1) == over(u, hand[t]) + ite(u < hand[t], 0, 1)))
            E.prove('only held tiles are left', Implies(u < hand[t], hand[t] > 0))
            E.prove('else it needs the same', Implies(u < hand[t], And(over(u, hand[t] - 1) == 0, over(u, hand[t]) == 0)))
        E.cover('discard')
    return h


def harnesses(tier):
    out = []
    for nm, S in (('normal', Normal), ('pairs', Pairs)):
        out += [Harness(nm + ': definition', s4.h_definition(S), FUNCS3, ['added', 'bought', 'drawn', 'some']),
                Harness(nm + ': discard', h_discard(S), FUNCS3, ['discard']),
                Harness(nm + ': groups', h_groups(S), FUNCS3, ['groups']),
                Harness(nm + ': batch, entries', h_batch(S, 'entries'), FUNCS3, ['entry', 'end'])]
        out += [Harness('%s: batch, %s completion, tiles %d' % (nm, w, k), h_batch(S, (w, k)), FUNCS3,
                        ['completions:step', 'left:step', 'left:exit']) for w in ('ghost', 'other') for k in (0, 1)]
        out += search_harnesses(nm, S, 0)
    return out
