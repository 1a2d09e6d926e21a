"""pv.loops: loops over abstract sequences, cut at invariants."""
import sys
import z3
from pv.core import E, PathEnd, Infeasible, Unsupported, Obligation
from pv.model import Abstract, GSeq, RunSeq, PCounter, is_true, is_false, neg

CUTS = {}          # qualified function name -> list of Cut
ATTACHED = set()   # names of cuts that were used on this run


class Poison:
    """Value of a local variable that a loop may have changed and no invariant describes."""
    __slots__ = ('name',)

    def __init__(self, name):
        object.__setattr__(self, 'name', name)

    def _die(self, *a, **k):
        raise Unsupported('variable %s carried by a loop is not described by its invariant'
                          % object.__getattribute__(self, 'name'))
    __getattr__ = _die


for _n in ('call add radd sub rsub mul rmul lt le gt ge eq ne bool iter len getitem setitem contains index int '
           'float str repr hash neg and or rand ror iadd isub floordiv mod truediv next delitem').split():
    setattr(Poison, '__%s__' % _n, Poison._die)


class Cut:
    """Invariant of one loop.

    match(seq, loc)          does this cut apply to the loop (given its sequence and entry locals)?
    length(seq, loc)         number of iterations: int, or SInt for an unbounded sequence
    element(seq, i, loc)     (guard, value) of element i
    invariant(seq, i, loc)   [(name, condition)] after i elements, over the current locals
    havoc(seq, i, loc)       put the state into an arbitrary one satisfying the invariant after i elements;
                             returns the new values of carried local variables
    modifies(loc)            objects the loop body may mutate
    """
    name = 'loop'
    step_options = None

    def match(self, seq, loc):
        return True

    def length(self, seq, loc):
        if isinstance(seq, GSeq):
            return len(seq.items)
        raise Unsupported('loop of unknown length')

    def element(self, seq, i, loc):
        return seq.items[i]

    def indices(self, seq, loc):
        return list(range(self.length(seq, loc)))

    def enter(self, seq, loc):
        """Called once when the loop is reached: record the entry state."""

    def modifies(self, loc):
        return []

    def exit_index(self, seq, loc):
        return self.length(seq, loc)

    def modes(self, seq, loc):
        return ['step', 'exit']


class NativeLoop:
    __slots__ = ('it',)
    active = False
    exited = False
    ov = ()

    def __init__(self, it):
        self.it = it

    def __iter__(self):
        return iter(self.it)


def _snapshot(loc):
    snap = []
    seen = set()

    def add(o, depth=0):
        if id(o) in seen:
            return
        if isinstance(o, PCounter):
            seen.add(id(o))
            snap.append((o, o._pv_ver, None))
        elif type(o) in (list, set, dict):
            seen.add(id(o))
            snap.append((o, None, o.copy()))
            if depth < 2 and len(o) < 200:
                for x in (o.values() if isinstance(o, dict) else o):
                    add(x, depth + 1)
        elif hasattr(o, 'pv_version'):
            seen.add(id(o))
            snap.append((o, o.pv_version(), None))
        elif depth == 0 and hasattr(o, '__dict__') and type(o).__module__.startswith('mahjong'):
            seen.add(id(o))
            snap.append((o.__dict__, None, dict(o.__dict__)))
            for x in list(o.__dict__.values()):
                add(x, 1)
    for v in loc.values():
        if type(v) is not Poison:
            add(v)
    return snap


def _changed(snap):
    out = []
    for o, ver, cp in snap:
        if cp is None:
            v = o._pv_ver if isinstance(o, PCounter) else o.pv_version()
            if v != ver:
                out.append(o)
        else:
            if len(o) != len(cp):
                out.append(o)
            elif isinstance(o, dict):
                if list(o) != list(cp) or any(o[k] is not cp[k] for k in o):
                    out.append(o)
            elif isinstance(o, set):
                if {id(x) for x in o} != {id(x) for x in cp}:
                    out.append(o)
            elif any(a is not b for a, b in zip(o, cp)):
                out.append(o)
    return out


class CutLoop:
    def __init__(self, cut, seq, carried, loc, key):
        self.cut, self.seq, self.carried, self.key = cut, seq, carried, key
        self.active = False
        self.exited = False
        self.ov = {}
        self.state = 0
        self.entry = dict(loc)
        ATTACHED.add(cut.name)
        cut.carried = carried
        cut.enter(seq, loc)

    def get(self, name):
        if name in self.ov:
            return self.ov[name]
        return Poison(name)

    def __iter__(self):
        return self

    def _havoc(self, i, loc):
        ov = self.cut.havoc(self.seq, i, loc) or {}
        for n in ov:
            if n not in self.carried and n in loc:         # an object is replaced: no other local variable may hold it
                if sum(1 for v in loc.values() if v is loc[n]) > 1:
                    raise Unsupported('the object replaced by an invariant has a second name')
        return ov

    def _loc(self, depth=2):
        return sys._getframe(depth).f_locals

    def _prove(self, i, loc, what):
        for n, c in self.cut.invariant(self.seq, i, loc):
            E.prove('%s:%s:%s' % (self.cut.name, n, what), c)

    def __next__(self):
        cut = self.cut
        loc = self._loc()
        if self.state == 0:
            self._prove(0, loc, 'established')
            mode = E.choose(cut.modes(self.seq, loc))
            if mode == 'exit':
                i = cut.exit_index(self.seq, loc)
                self.ov = self._havoc(i, loc)
                self.exited = True
                self.state = 2
                E.cover('%s:exit' % cut.name)
                raise StopIteration
            i = E.choose(cut.indices(self.seq, loc))
            self.i = i
            self.ov = self._havoc(i, loc)
            g, v = cut.element(self.seq, i, loc)
            if not is_true(g):
                if E.choose(['skip', 'take']) == 'skip':
                    E.assume_checked(neg(g))
                    view = dict(loc)
                    view.update(self.ov)
                    self._prove(i + 1, view, 'skipped')
                    raise PathEnd()
                E.assume_checked(g)
            E.cover('%s:step' % cut.name)
            self.active = True
            self.state = 1
            self.snap = _snapshot(loc)
            self.allowed = [id(o) for o in cut.modifies(loc)]
            return v
        if self.state == 1:
            self.frame_check()
            self._prove(self.i + 1, loc, 'preserved')
            raise PathEnd()
        raise StopIteration

    def frame_check(self):
        for o in _changed(self.snap):
            if id(o) not in self.allowed:
                raise Unsupported('loop in %s changes an object its invariant does not mention: %s'
                                  % (self.key, type(o).__name__))


def pv_for(it, key, carried, loc):
    if isinstance(it, GSeq) and it.order_ok and it.concrete() and len(it.items) < 8:
        return NativeLoop(it)          # short concrete sequences are unrolled
    if isinstance(it, PCounter) and key in CUTS:
        it = it.keys()
    for cut in CUTS.get(key, ()):
        if cut.match(it, loc):
            return CutLoop(cut, it, carried, loc, key)
    return NativeLoop(it)


WCUTS = {}         # qualified function name -> list of WhileCut


class WhileCut:
    """Invariant of a while loop.

    invariant(loc)      [(name, condition)]
    havoc(loc)          put the state into an arbitrary one satisfying the invariant; returns new carried locals
    modifies(loc)       objects the loop may mutate
    """
    name = 'while'

    def match(self, loc):
        return True

    def enter(self, loc):
        pass

    def modifies(self, loc):
        return []


class NativeWhile:
    active = False
    __slots__ = ('n',)

    def __init__(self):
        self.n = 0

    def again(self):
        self.n += 1
        if self.n > 3000:
            raise Unsupported('while loop without an invariant does not end')
        return True


class CutWhile:
    def __init__(self, cut, carried, loc, key):
        self.cut, self.key = cut, key
        ATTACHED.add(cut.name)
        cut.enter(loc)
        for n, c in cut.invariant(loc):
            E.prove('%s:%s:established' % (cut.name, n), c)
        self.ov = cut.havoc(loc) or {}
        self.active = True
        self.calls = 0
        self.snap = None

    def get(self, name):
        return self.ov[name] if name in self.ov else Poison(name)

    def again(self):
        loc = sys._getframe(1).f_locals
        if self.calls == 0:
            self.calls = 1
            self.snap = _snapshot(loc)
            self.allowed = [id(o) for o in self.cut.modifies(loc)]
            E.cover('%s:reached' % self.cut.name)
            return True
        for o in _changed(self.snap):
            if id(o) not in self.allowed:
                raise Unsupported('loop in %s changes an object its invariant does not mention: %s'
                                  % (self.key, type(o).__name__))
        for n, c in self.cut.invariant(loc):
            E.prove('%s:%s:preserved' % (self.cut.name, n), c)
        E.cover('%s:step' % self.cut.name)
        raise PathEnd()


def pv_while(key, carried, loc):
    for cut in WCUTS.get(key, ()):
        if cut.match(loc):
            return CutWhile(cut, carried, loc, key)
    return NativeWhile()
