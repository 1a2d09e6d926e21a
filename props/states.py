"""Shared contracts for the state trackers of mahjong.record.state."""
from props.lib import *
from pv.model import SymSet, truth, conj, disj, neg, norm

OTHER_TAGS = ['UN', 'GO', 'TAIKYOKU', 'SHUFFLE', 'REACH', 'AGARI', 'RYUUKYOKU', 'BYE', 'X', 'Dora', 'Test']
IDS = range(136)


def sym_set(name, ids=IDS):
    return SymSet({i: z3.Bool(E.fresh_name('%s.%d' % (name, i))) for i in ids})


def guards(s):
    return dict(s.g)


def g_of(v, t):
    """Membership of id t in a value (a symbolic or an ordinary set)."""
    if isinstance(v, SymSet):
        return v.has(t)
    return t in v


def pointwise(name, value, want, ids=IDS):
    """One obligation: the set holds id t iff want(t), for every id, and nothing else."""
    cs = []
    for t in ids:
        a, b = g_of(value, t), want(t)
        cs.append(as_z3bool(a) == as_z3bool(b))
    keys = set(value.g) if isinstance(value, SymSet) else set(value)
    cs.append(z3.BoolVal(keys <= set(ids)))
    E.prove(name, wrapb(z3.And(cs)))


def unchanged(name, s, old):
    E.prove(name, isinstance(s, SymSet) and set(s.g) == set(old) and wrapb(z3.And(
        [as_z3bool(s.g[k]) == as_z3bool(old[k]) for k in old])))


class IdList:
    """A list of numbers read from a log; only its set is used."""
    pv_is_list = True

    def __init__(self, s):
        self.s = s

    def pv_as_set(self):
        return SymSet(self.s.g)


class AnyMeld:
    """A decoded meld (contract: M01): any set of tiles laid down from the hand, any borrowed tiles."""
    pv_is_meld = True

    def __init__(self, event):
        self.event = event
        self.self_tiles = sym_set('meld.self')
        self.borrowed_tiles = sym_set('meld.borrowed')


def stub_meld_from(made):
    def meld_from(event):
        if event not in made:
            made[event] = AnyMeld(event)
        return made[event]
    stub_everywhere('meld_from', meld_from)


def player(index):
    P = M('mahjong.record.player')
    return P.TenhouPlayer(index, 'name', 10, 1500.0, 'M')


class GhostEvent:
    def __init__(self, i):
        self.i = i


VAL = z3.Function('val', z3.IntSort(), z3.IntSort())
KEYF = z3.Function('key', z3.IntSort(), z3.BoolSort())


def ghost_states(S):
    """States known only by value: after k events the value is VAL(k); an event that is no key event keeps the value."""
    class Ghost(S.GameState):
        pv_abstract = True

        def __init__(self, v):
            self.v = v

        value = property(lambda self: self.v)

        def scan(self, event):
            E.prove('events are applied to the state they follow', wrapb(num(self.v) == VAL(num(event.i))))
            return Ghost(SInt(VAL(num(event.i) + 1)))

        def is_key_event(self, event):
            i = num(event.i)
            E.assume(z3.Implies(z3.Not(KEYF(i)), VAL(i + 1) == VAL(i)))
            return SBool(KEYF(i))
    return Ghost


class FoldCut(Cut):
    """After i events the state carried by the loop has value VAL(i)."""
    name = 'GameState fold'

    def __init__(self, Ghost):
        self.Ghost = Ghost

    def match(self, seq, loc):
        return isinstance(seq, ASeq)

    def state(self, loc):
        ss = [k for k, v in loc.items() if isinstance(v, self.Ghost) and k != 'self']
        if len(ss) != 1:
            raise Unsupported('state variable of the loop not found')
        return ss[0]

    def enter(self, seq, loc):
        self.var = self.state(loc)

    def indices(self, seq, loc):
        m = fresh_int('m', 0)
        E.assume_checked(m < seq.n)
        self.i = m
        return [m]

    def element(self, seq, i, loc):
        return True, seq.at(i)

    def invariant(self, seq, i, loc):
        return [('value after the events so far', wrapb(num(loc[self.var].v) == VAL(num(i))))]

    def havoc(self, seq, i, loc):
        return {self.var: self.Ghost(SInt(VAL(num(i))))}

    def exit_index(self, seq, loc):
        return seq.n


def fold_setup():
    S = M('mahjong.record.state')
    Ghost = ghost_states(S)
    n = fresh_int('n', 0)
    cut = FoldCut(Ghost)
    for f in ('GameState.with_events', 'GameState.with_key_events'):
        CUTS[f] = [cut]
    return S, Ghost, ASeq(n, GhostEvent, 'events'), n, cut


def h_with_events():
    S, Ghost, ev, n, cut = fold_setup()
    it = iter(Ghost(SInt(VAL(z3.IntVal(0)))).with_events(ev))
    try:
        x = next(it)
    except StopIteration:
        E.cover('end')
        return
    E.cover('state')
    E.prove('the state after each event is handed out', wrapb(num(x.v) == VAL(num(cut.i) + 1)))
    next(it)
    E.prove('exactly one state per event', False)


def h_with_key_events():
    S, Ghost, ev, n, cut = fold_setup()
    it = iter(Ghost(SInt(VAL(z3.IntVal(0)))).with_key_events(ev))
    try:
        x = next(it)
    except StopIteration:
        E.cover('end')
        return
    E.cover('state')
    E.prove('only key events hand out a state', SBool(KEYF(num(cut.i))))
    E.prove('the state after the key event', wrapb(num(x.v) == VAL(num(cut.i) + 1)))
    next(it)
    E.prove('at most one state per event', False)


def h_passed():
    """passed_events is the last state of with_key_events, or the state itself when there is none."""
    S, Ghost, ev, n, cut = fold_setup()
    m = fresh_int('m', 0)
    s0 = Ghost(0)
    last = Ghost(1)
    memo = {}

    def at(k):
        return memo.setdefault(z3.simplify(num(k)).sexpr(), Ghost(k))
    calls = []

    def wke(events):
        calls.append(events)
        return ASeq(m, at, 'states')
    s0.with_key_events = wke

    def reduce_last(f, seq, *init):
        a, b = Ghost(5), Ghost(6)
        E.prove('the later state wins', f(a, b) is b)
        if not (m > 0):
            if not init:
                raise TypeError('reduce() of empty iterable with no initial value')
            return init[0]
        return seq.at(m - 1)
    E.notes['reduce_hook'] = reduce_last
    r = s0.passed_events(ev)
    E.prove('the events given are used', calls == [ev])
    if not (m > 0):
        E.cover('none')
        E.prove('no key event: the state itself', r is s0)
    else:
        E.cover('some')
        E.prove('the last state', r is at(m - 1))


FOLD_FUNCS = ['record.state.GameState.with_events', 'record.state.GameState.with_key_events',
              'record.state.GameState.passed_events']


def fold_harnesses():
    return [Harness('with_events', h_with_events, FOLD_FUNCS, ['end', 'state']),
            Harness('with_key_events', h_with_key_events, FOLD_FUNCS, ['end', 'state']),
            Harness('passed_events', h_passed, FOLD_FUNCS, ['none', 'some'])]
