"""R01: StageGroupby over a stream of any length with arbitrary INIT / not INIT keys.

Ghost state: n events, K(i) = event i is INIT, gs(i) = index of the first event of i's group, defined by
gs(0) = 0 and gs(i) = i if K(i) and not K(i-1) else gs(i-1).  The contracts say which event every next() hands out."""
from props.lib import *

FUNCS = ['record.stage.StageGroupby.__init__', 'record.stage.StageGroupby.__next__', 'record.stage.StageGroupby._grouper',
         'record.stage.StageGroupby._stage_accepted']
ASSUMPTIONS = ['the key function is a pure function of the event; the event source is a finite iterator',
               'termination of the reading loops is not proved (each iteration consumes one event of a finite stream)']
BOUNDED = ('TenhouRecord/TenhouGame construction on generated records of bounded length (concrete run); '
           'StageGroupby itself is proved for every length')
K = z3.Function('K', z3.IntSort(), z3.BoolSort())
GS = z3.Function('gs', z3.IntSort(), z3.IntSort())


class Elem:
    def __init__(self, i):
        self.i = i


class GhostStream:
    def __init__(self, n):
        self.n, self.pos = n, 0

    def __iter__(self):
        return self

    def __next__(self):
        if self.pos < self.n:
            e = Elem(self.pos)
            self.pos = self.pos + 1
            return e
        raise StopIteration

    def pv_version(self):
        return self.pos if isinstance(self.pos, int) else self.pos.t.sexpr()


def key(e):
    return SBool(K(num(e.i)))


def bnd(i):
    i = num(i)
    return z3.And(K(i), z3.Not(K(i - 1)))


def unfold(i):
    """Definition of gs at i (i >= 1)."""
    i = num(i)
    E.assume(GS(i) == z3.If(bnd(i), i, GS(i - 1)))


def same_int(a, b):
    return wrapb(num(a) == num(b))


def setup():
    S = M('mahjong.record.stage')
    n = fresh_int('n', 0)
    st = GhostStream(n)
    E.assume(GS(0) == 0)
    gb = S.StageGroupby(st, True, False, key=key)
    return S, n, st, gb


def put(gb, st, p, suffix, current=None):
    """State: event p is pending, the current group accepts `suffix`."""
    st.pos = p + 1
    gb.currvalue = Elem(p)
    gb.currkey = SBool(K(num(p)))
    if current is None:
        gb.tgtkey = list(suffix)
    else:
        current[:] = suffix


def check_pending(gb, st, p, name):
    E.prove(name + ': nothing was read ahead', same_int(st.pos, p + 1))
    E.prove(name + ': the pending event is the right one', isinstance(gb.currvalue, Elem) and same_int(gb.currvalue.i, p))
    E.prove(name + ': its key is kept', wrapb(as_z3bool(gb.currkey) == K(num(p))))


def check_accepting(gb, st, p, name):
    """State B(p): p was handed out (or is the first of its group) and the group accepts what comes next."""
    check_pending(gb, st, p, name)
    t = gb.tgtkey
    E.prove(name + ': stages left', isinstance(t, list) and (t == [True, False] or t == [False]))
    E.prove(name + ': stage is the one of the event', wrapb(K(num(p)) == z3.BoolVal(t[0] is True)))
    E.prove(name + ': stage list unchanged', list(gb.stages) == [True, False])


def arbitrary_B(gb, st, n, cur=None, name='p'):
    p = fresh_int(name, 0)
    E.assume(p < n)
    suffix = E.choose([[True, False], [False]])
    E.assume_checked(K(num(p)) == z3.BoolVal(suffix[0]))
    put(gb, st, p, suffix, cur)
    return p


def head_state(gb, st, n, lo, start, cur):
    """An arbitrary loop head: q is pending, q-1 was accepted by the group that starts at `start`."""
    q = fresh_int('q')
    E.assume(And(q > lo, q < n))
    suffix = E.choose([[True, False], [False]])
    E.assume_checked(K(num(q) - 1) == z3.BoolVal(suffix[0]))
    E.assume_checked(GS(num(q) - 1) == num(start))
    put(gb, st, q, suffix, cur)
    unfold(q)
    return q


class SkipCut(WhileCut):
    name = 'StageGroupby.__next__/skip'

    def __init__(self, gb, st, n, p):
        self.gb, self.st, self.n, self.p = gb, st, n, p
        self.q = p

    def match(self, loc):
        return isinstance(self.gb.tgtkey, list)

    def enter(self, loc):
        self.first = True

    def invariant(self, loc):
        gb, st = self.gb, self.st
        if self.first:
            return [('entered at the pending event', same_int(st.pos, self.p + 1))]
        q = st.pos - 1
        ok = isinstance(gb.currvalue, Elem) and And(same_int(gb.currvalue.i, q), wrapb(as_z3bool(gb.currkey) == K(num(q))))
        t = gb.tgtkey
        return [('one event read', same_int(q, self.q + 1)), ('pending event', ok),
                ('the skipped event was of this group', wrapb(GS(num(q) - 1) == GS(num(self.p)))),
                ('stage', wrapb(K(num(q) - 1) == z3.BoolVal(t[0] is True)) if t in ([True, False], [False]) else False)]

    def havoc(self, loc):
        self.first = False
        if E.choose(['at entry', 'later']) == 'later':
            self.q = head_state(self.gb, self.st, self.n, self.p, SInt(GS(num(self.p))), None)
        return {}

    def modifies(self, loc):
        return [self.gb.__dict__, self.gb.tgtkey, self.st]


def h_next():
    S, n, st, gb = setup()
    case = E.choose(['start', 'inside', 'boundary'])
    if case == 'start':
        try:
            _, g = next(gb)
        except StopIteration:
            E.cover('empty')
            E.prove('only an empty stream has no group', same_int(n, 0))
            return
        E.cover('start')
        check_accepting(gb, st, 0, 'first group')
        E.prove('first group starts at the first event', wrapb(GS(0) == 0))
        return
    if case == 'boundary':
        p = fresh_int('p', 1)
        E.assume_checked(p < n)
        unfold(p)
        E.assume_checked(bnd(p))
        put(gb, st, p, [])
        WCUTS['StageGroupby.__next__'] = []
        next(gb)
        E.cover('boundary')
        check_accepting(gb, st, p, 'group after a finished one')
        E.prove('it starts at its own first event', wrapb(GS(num(p)) == num(p)))
        return
    p = arbitrary_B(gb, st, n)
    cut = SkipCut(gb, st, n, p)
    WCUTS['StageGroupby.__next__'] = [cut]
    unfold(p + 1)
    try:
        next(gb)
    except StopIteration:
        E.cover('exhausted')
        q = cut.q
        E.prove('exhausted only at the end', same_int(st.pos, n))
        E.prove('every event left was of this group', wrapb(GS(num(n) - 1) == GS(num(p))))
        return
    s = st.pos - 1
    E.cover('skipped')
    check_accepting(gb, st, s, 'next group')
    E.prove('it starts at a group start', wrapb(GS(num(s)) == num(s)))
    E.prove('exactly the rest of the group was skipped', And(s > p, wrapb(GS(num(s) - 1) == GS(num(p)))))


class GrouperCut(WhileCut):
    name = 'StageGroupby._grouper/loop'

    def __init__(self, gb, st, n, s):
        self.gb, self.st, self.n, self.s, self.q = gb, st, n, s, s

    def enter(self, loc):
        self.first = True

    def invariant(self, loc):
        gb, st = self.gb, self.st
        if self.first:
            return [('entered at the first event', same_int(st.pos, self.s + 1))]
        q = st.pos - 1
        t = gb.tgtkey
        ok = isinstance(gb.currvalue, Elem) and And(same_int(gb.currvalue.i, q), wrapb(as_z3bool(gb.currkey) == K(num(q))))
        return [('one event read', same_int(q, self.q + 1)), ('pending event', ok),
                ('the event handed out was of this group', wrapb(GS(num(q) - 1) == GS(num(self.s)))),
                ('stage', wrapb(K(num(q) - 1) == z3.BoolVal(t[0] is True)) if t in ([True, False], [False]) else False)]

    def havoc(self, loc):
        self.first = False
        if E.choose(['at entry', 'later']) == 'later':
            self.q = head_state(self.gb, self.st, self.n, self.s, SInt(GS(num(self.s))), self.gb.tgtkey)
        return {}

    def modifies(self, loc):
        return [self.gb.__dict__, self.gb.tgtkey, self.st]


def h_group():
    """Reading a group hands out its events in order, nothing else, and stops exactly at its end."""
    S, n, st, gb = setup()
    where = E.choose(['first', 'later'])
    if where == 'first':
        E.assume_checked(n > 0)
        _, g = next(gb)
        s = 0
    else:
        s = fresh_int('s', 1)
        E.assume_checked(s < n)
        unfold(s)
        E.assume_checked(bnd(s))
        put(gb, st, s, [])
        _, g = next(gb)
    unfold(s + 1) if where == 'later' else unfold(SInt(z3.IntVal(1)))
    E.prove('group start', wrapb(GS(num(s)) == num(s)))
    cut = GrouperCut(gb, st, n, s)
    WCUTS['StageGroupby._grouper'] = [cut]
    it = iter(g)
    try:
        x = next(it)
    except StopIteration:
        E.cover('end at a boundary')
        q = cut.q
        E.prove('the group is not empty', q > s)
        check_pending(gb, st, q, 'after the group')
        E.prove('it ends where the next group starts', wrapb(z3.And(GS(num(q)) == num(q), bnd(q))))
        E.prove('no stage left', gb.tgtkey == [])
        return
    E.cover('event')
    q = cut.q
    E.prove('the event handed out is the pending one', isinstance(x, Elem) and same_int(x.i, q))
    E.prove('it belongs to the group', wrapb(GS(num(q)) == num(s)))
    check_accepting(gb, st, q, 'while reading')
    try:
        next(it)
    except StopIteration:
        E.cover('end of the stream')
        E.prove('ends at the end of the stream', And(same_int(st.pos, n), same_int(q, n - 1)))
        check_pending(gb, st, n - 1, 'after the stream')
        return
    E.prove('one event per step', False)


def h_stale():
    """A group that was left hands out nothing any more."""
    S, n, st, gb = setup()
    E.assume_checked(n > 1)
    _, g = next(gb)
    p = arbitrary_B(gb, st, n)
    gb.id = object()
    E.cover('stale')
    E.prove('a left group is empty', next(iter(g), None) is None)
    E.prove('and reads nothing', same_int(st.pos, p + 1))


def harnesses(tier):
    return [Harness('next group', h_next, FUNCS, ['empty', 'start', 'boundary', 'exhausted', 'skipped']),
            Harness('events of a group', h_group, FUNCS, ['end at a boundary', 'event', 'end of the stream']),
            Harness('left group', h_stale, FUNCS, ['stale'])]
