"""pv.model: models of library containers used by the real code.

PCounter models collections.Counter (Python 3.9 semantics, the interpreter the repository runs on) with
concrete keys and symbolic presence/counts, evaluated without splitting the path.  The model is checked
against the real Counter of the repository's interpreter (tools/conformance.py).
"""
import z3
from pv.core import E, SBool, SInt, SReal, Unsupported, as_z3bool, wrapb, wrap, num, ite, eval_model

T = True      # guards are Python bools or z3 formulas


def zb(x):
    return as_z3bool(x)


def is_true(b):
    return b is True or (isinstance(b, z3.BoolRef) and z3.is_true(b))


def is_false(b):
    return b is False or (isinstance(b, z3.BoolRef) and z3.is_false(b))


def norm(b):
    if isinstance(b, bool):
        return b
    if isinstance(b, SBool):
        b = b.t
    b = z3.simplify(b)
    if z3.is_true(b):
        return True
    if z3.is_false(b):
        return False
    return b


def conj(*bs):
    out = []
    for b in bs:
        if isinstance(b, SBool):
            b = b.t
        if is_false(b):
            return False
        if not is_true(b):
            out.append(b)
    if not out:
        return True
    return norm(z3.And(out)) if len(out) > 1 else out[0]


def disj(*bs):
    out = []
    for b in bs:
        if isinstance(b, SBool):
            b = b.t
        if is_true(b):
            return True
        if not is_false(b):
            out.append(b)
    if not out:
        return False
    return norm(z3.Or(out)) if len(out) > 1 else out[0]


def neg(b):
    if isinstance(b, bool):
        return not b
    return norm(z3.Not(b))


def gite(g, a, b):
    if is_true(g):
        return a
    if is_false(g):
        return b
    return ite(g, a, b)


class Abstract:
    """Marker: sequences a for loop must not iterate natively without thought."""

    def __getattr__(self, n):
        if n.startswith('pv_') or n.startswith('_'):
            raise AttributeError(n)
        raise Unsupported('%s.%s is not modelled' % (type(self).__name__, n))


class GSeq(Abstract):
    """A guarded sequence: element i is present iff its guard holds; the order is the listed one."""
    MAX_SPLIT = 6

    def __init__(self, items, order_ok=True, tag='gseq', owner=None):
        self.items = list(items)       # (guard z3 bool, value)
        self.order_ok = order_ok
        self.tag = tag
        self.owner = owner
        self.sorted_by = None          # (key function, keys) once sorted by symbolic keys

    def sort(self, *, key=None, reverse=False):
        keys = [key(v) if key else v for _, v in self.items]
        if any(_symbolic(k) for k in keys):
            if reverse:
                raise Unsupported('reverse sort by symbolic keys')
            self.sorted_by = (key, keys)
            self.order_ok = False
            return
        order = sorted(range(len(keys)), key=lambda i: keys[i], reverse=reverse)
        self.items = [self.items[i] for i in order]
        self.order_ok, self.sorted_by = True, None

    def __getitem__(self, i):
        if not isinstance(i, int) or i != 0 or not self.order_ok:
            raise Unsupported('an element of a conditional sequence')
        if not E.branch(disj(*[g for g, _ in self.items])):
            raise IndexError('list index out of range')
        return merged_value([(g, v) for g, v in self.items if not is_false(g)])

    def concrete(self):
        return all(is_true(g) or is_false(g) for g, _ in self.items)

    def __iter__(self):
        if not self.order_ok and len([1 for g, _ in self.items if not is_false(g)]) > 1:
            raise Unsupported('iteration in an unknown order')
        if not self.concrete():
            n = sum(1 for g, _ in self.items if not is_true(g) and not is_false(g))
            if n > self.MAX_SPLIT:
                raise Unsupported('loop over %d conditional elements without an invariant' % n)
        for g, v in self.items:
            if E.branch(g):
                yield v

    def __len__(self):
        r = self.__pv_len__()
        if isinstance(r, int):
            return r
        raise Unsupported('native len of a conditional sequence')

    def __pv_len__(self):
        r = 0
        for g, _ in self.items:
            r = r + gite(g, 1, 0)
        return r

    def __bool__(self):
        return E.branch(disj(*[g for g, _ in self.items]))

    def __contains__(self, x):
        return E.branch(disj(*[conj(g, truth(v == x)) for g, v in self.items]))

    def __add__(self, o):
        if isinstance(o, GSeq):
            return GSeq(self.items + o.items, self.order_ok and o.order_ok)
        if isinstance(o, list):
            return GSeq(self.items + [(T, v) for v in o], self.order_ok)
        return NotImplemented

    def __eq__(self, o):
        raise Unsupported('comparison of conditional sequences')

    __hash__ = None

    def copy(self):
        return GSeq(self.items, self.order_ok, self.tag, self.owner)

    def pv_as_set(self):
        return SymSet(SymSet._of(None, self))

    def remove(self, x):
        """Removes the first present element equal to x."""
        k = [i for i, (g, v) in enumerate(self.items) if not is_false(g) and v == x]
        for i in k:
            if E.branch(self.items[i][0]):
                self.items = self.items[:i] + self.items[i + 1:]
                return
        raise ValueError('list.remove(x): x not in list')

    def clear(self):
        self.items = []

    def pv_version(self):
        return [(g if isinstance(g, bool) else g.get_id(), id(v)) for g, v in self.items]

    def map(self, f, cond=None):
        out = []
        for g, v in self.items:
            if is_false(g):
                continue
            gg = g
            if cond is not None:
                gg = conj(g, truth(cond(v)))
                if is_false(gg):
                    continue
            out.append((gg, f(v)))
        return GSeq(out, self.order_ok, self.tag, self.owner)


def _symbolic(k):
    from pv.core import SReal
    if isinstance(k, (tuple, list)):
        return any(_symbolic(x) for x in k)
    return isinstance(k, (SInt, SReal))


def merged_value(items):
    """The first present value of a conditional sequence known not to be empty: equal fields of objects of one class are merged."""
    for k, (g, v) in enumerate(items):
        if is_true(g):
            items = items[:k + 1]
            break
    if len(items) == 1:
        return items[0][1]
    cls = type(items[0][1])
    if any(type(v) is not cls or not hasattr(v, '__dict__') for _, v in items):
        raise Unsupported('one of several values')

    def frozen(self, *a):
        raise Unsupported('changing one of several objects')

    def unknown(self, n):
        raise Unsupported('attribute %s of one of several objects' % n)
    r = object.__new__(type(cls.__name__, (cls,), {'__setattr__': frozen, '__delattr__': frozen, '__getattr__': unknown}))
    for n in vars(items[0][1]):
        vs = [vars(v).get(n) for _, v in items]
        if all(x is vs[0] for x in vs) or all(isinstance(x, (int, SInt)) and not isinstance(x, bool) for x in vs):
            out = vs[-1]
            for (g, _), x in reversed(list(zip(items, vs))[:-1]):
                out = gite(g, x, out)
            object.__setattr__(r, n, out)
    return r


class SortedGroups(Abstract):
    """groupby(list sorted by key, key) with symbolic keys: only the first group is known - the elements with the least key."""

    def __init__(self, seq, keys):
        self.seq, self.keys, self.used = seq, keys, False

    def __iter__(self):
        return self

    def __next__(self):
        from pv.core import fresh_int
        if self.used:
            raise Unsupported('the groups after the first')
        self.used = True
        items = [(g, v, k) for (g, v), k in zip(self.seq.items, self.keys) if not is_false(g)]
        if not E.branch(disj(*[g for g, _, _ in items])):
            raise StopIteration
        w = len(items[0][2])
        least = tuple(fresh_int('least') for _ in range(w))

        def eqk(k):
            return conj(*[truth(a == b) for a, b in zip(k, least)])

        def lek(i, k):
            if i == w:
                return True
            return disj(truth(least[i] < k[i]), conj(truth(least[i] == k[i]), lek(i + 1, k)))
        from pv.core import wrapb
        E.assume(wrapb(as_z3bool(disj(*[conj(g, eqk(k)) for g, _, k in items]))))
        for g, _, k in items:
            E.assume(wrapb(as_z3bool(disj(neg(g), lek(0, k)))))
        return least, GSeq([(conj(g, eqk(k)), v) for g, v, k in items], True)


def groups_by_first(seq, key):
    """groupby(sorted list of tuples, first component): the first components have finitely many possible values."""
    vals = {}
    for i, (g, v) in enumerate(seq.items):
        k = key(v)
        if k is not v[0]:
            raise Unsupported('grouping by another key than the one sorted by')
        for n in ([k] if isinstance(k, int) else E.feasible(k.t)):
            vals.setdefault(n, []).append((conj(g, truth(k == n)), v))
    out = []
    for n in sorted(vals):
        items = sorted(vals[n], key=lambda gv: gv[1][1:])
        out.append((disj(*[g for g, _ in items]), (n, GSeq(items, True))))
    return GSeq(out, True)


def group_guarded(seq, key):
    """itertools.groupby over a conditional sequence."""
    if seq.sorted_by is not None and seq.sorted_by[0] is None and key is not None:
        return groups_by_first(seq, key)
    if seq.sorted_by is not None:
        if seq.sorted_by[0] is not key or not all(isinstance(k, tuple) for k in seq.sorted_by[1]):
            raise Unsupported('grouping by another key than the one sorted by')
        return SortedGroups(seq, seq.sorted_by[1])
    if not seq.order_ok:
        raise Unsupported('grouping in an unknown order')
    groups = []
    for g, v in seq.items:
        if is_false(g):
            continue
        k = key(v) if key else v
        if _symbolic(k):
            raise Unsupported('grouping by a symbolic key')
        if groups and groups[-1][0] == k:
            groups[-1][1].append((g, v))
        elif any(k == k2 for k2, _ in groups):
            raise Unsupported('grouping an unsorted conditional sequence')
        else:
            groups.append((k, [(g, v)]))
    return GSeq([(disj(*[g for g, _ in it]), (k, GSeq(it))) for k, it in groups])


class Run(tuple):
    """(value, count): a whole run of equal elements handed over at once (only under a harness that logs yields)."""


class Chunk(tuple):
    """(sequence,): a whole sequence handed over at once (only under a harness that asks for it)."""
    def __new__(cls, seq):
        return tuple.__new__(cls, (seq,))

    def __getattr__(self, n):
        raise Unsupported('a whole sequence used as one element')


class RunSeq(Abstract):
    """A list made of runs: `value` repeated `count` times (count >= 0), in order."""

    def __init__(self, runs, order_ok=True):
        self.runs = list(runs)
        self.order_ok = order_ok

    def __iter__(self):
        if not self.order_ok and len(self.runs) > 1:
            raise Unsupported('iteration in an unknown order')
        for v, c in self.runs:
            if not isinstance(c, int) and E.notes.get('yield_log'):
                yield Run((v, c))
                continue
            for _ in range(c if isinstance(c, int) else c.__index__()):
                yield v

    def __pv_len__(self):
        r = 0
        for _, c in self.runs:
            r = r + c
        return r

    def __add__(self, o):
        if isinstance(o, RunSeq):
            return RunSeq(self.runs + o.runs, self.order_ok and o.order_ok)
        if isinstance(o, list):
            return RunSeq(self.runs + [(v, 1) for v in o], self.order_ok)
        return NotImplemented

    def __radd__(self, o):
        if isinstance(o, list):
            return RunSeq([(v, 1) for v in o] + self.runs, self.order_ok)
        return NotImplemented


def iff(a, b):
    if isinstance(a, bool) and isinstance(b, bool):
        return a == b
    if isinstance(a, bool):
        a, b = b, a
    if isinstance(b, bool):
        return a if b else neg(a)
    return norm(a == b)


def truth(x):
    """Truth value of an arbitrary object as a guard, without splitting where possible."""
    if isinstance(x, bool):
        return x
    if isinstance(x, int):
        return x != 0
    if isinstance(x, SBool):
        return x.t
    if isinstance(x, z3.BoolRef):
        return x
    if isinstance(x, (SInt, SReal)):
        return x.t != 0
    return bool(x)


class PCounter:
    """collections.Counter, Python 3.9."""
    pv_counter = True

    def __init__(self, iterable=None, /, **kwds):
        self._pv_d = {}
        self._pv_order = True
        self._pv_ver = 0
        self.update(iterable, **kwds)

    # -- raw access ---------------------------------------------------------
    def _pv_get(self, k):
        """(presence, count) of key k"""
        e = self._pv_d.get(k)
        return (False, 0) if e is None else e

    def _pv_put(self, k, present, count):
        present = norm(present)
        self._pv_ver += 1
        if is_false(present):
            self._pv_d.pop(k, None)
            return
        if k in self._pv_d:
            old = self._pv_d[k][0]
            # an absent key that reappears moves to the end: the listed order is then unknown
            if not is_true(old) and not (isinstance(present, z3.BoolRef) and old.eq(present)):
                if E_implies(present, old) is False and not (E.notes.get('order_checks') and self._pv_stays(k, present, old)):
                    self._pv_order = False
        self._pv_d[k] = (present, count)

    def _pv_stays(self, k, present, old):
        """A key that reappears is appended: its listed place is right iff every key listed after it is absent then."""
        ks = list(self._pv_d)
        later = [self._pv_d[x][0] for x in ks[ks.index(k) + 1:]]
        bad = conj(present, neg(old), disj(*later)) if later else False
        if is_false(bad):
            return True
        return E.check(as_z3bool(bad)) == z3.unsat

    # -- mapping ------------------------------------------------------------
    def __getitem__(self, k):
        p, c = self._pv_get(k)
        if is_true(p):
            return c
        if is_false(p):
            return self.__missing__(k)
        return ite(p, c, self.__missing__(k))

    def __missing__(self, k):
        return 0

    def get(self, k, default=None):
        p, c = self._pv_get(k)
        if is_true(p):
            return c
        if is_false(p):
            return default
        if default is None:
            return c if E.branch(p) else None
        return ite(p, c, default)

    def __setitem__(self, k, v):
        self._pv_put(k, T, v)

    def __delitem__(self, k):
        self._pv_put(k, False, 0)

    def __contains__(self, k):
        return E.branch(self._pv_get(k)[0])

    def __iter__(self):
        return iter(self.keys())

    def _pv_seq(self, f, tag):
        return GSeq([(p, f(k, c)) for k, (p, c) in self._pv_d.items()], self._pv_order, tag, self)

    def keys(self):
        return self._pv_seq(lambda k, c: k, 'keys')

    def pv_as_set(self):
        if all(is_true(p) for p, _ in self._pv_d.values()):
            return set(self._pv_d)
        return SymSet({k: p for k, (p, _) in self._pv_d.items()})

    def values(self):
        return self._pv_seq(lambda k, c: c, 'values')

    def items(self):
        return self._pv_seq(lambda k, c: (k, c), 'items')

    def clear(self):
        self._pv_d.clear()
        self._pv_order = True
        self._pv_ver += 1

    def __len__(self):
        return self.keys().__pv_len__()

    def __pv_len__(self):
        return type(self).__len__(self)

    def __bool__(self):
        n = type(self).__len__(self)
        return bool(n != 0)

    def pop(self, k, *default):
        p, c = self._pv_get(k)
        if E.branch(p):
            del self[k]
            return c
        if default:
            return default[0]
        raise KeyError(k)

    def setdefault(self, k, default=None):
        if k not in self:
            self[k] = default
        return self[k]

    def popitem(self):
        raise Unsupported('Counter.popitem')

    @classmethod
    def fromkeys(cls, iterable, v=None):
        raise NotImplementedError('Counter.fromkeys() is undefined.')

    # -- counter ------------------------------------------------------------
    def update(self, iterable=None, /, **kwds):
        if iterable is not None:
            self._pv_acc(iterable, 1)
        if kwds:
            self.update(kwds)

    def subtract(self, iterable=None, /, **kwds):
        if iterable is not None:
            self._pv_acc(iterable, -1)
        if kwds:
            self.subtract(kwds)

    def _pv_acc(self, iterable, sign):
        if isinstance(iterable, PCounter):
            for k, (p, c) in list(iterable._pv_d.items()):
                p0, c0 = self._pv_get(k)
                cc = c if sign > 0 else -c
                if is_false(p0):
                    self._pv_put(k, p, cc)
                    continue
                new = ite(p0, c0 + cc, cc) if not is_true(p0) else c0 + cc
                val = new if is_true(p) else ite(p, new, c0)
                self._pv_put(k, disj(p0, p), val)
            if not iterable._pv_order:
                self._pv_order = False
        elif isinstance(iterable, dict):
            for k, c in iterable.items():
                p0, c0 = self._pv_get(k)
                cc = c if sign > 0 else -c
                base = gite(p0, c0, 0)
                self._pv_put(k, T, base + cc)
        elif isinstance(iterable, GSeq):
            for g, v in iterable.items:
                p0, c0 = self._pv_get(v)
                base = gite(p0, c0, 0)
                self._pv_put(v, disj(p0, g), gite(g, base + sign, base))
            if not iterable.order_ok:
                self._pv_order = False
        elif isinstance(iterable, RunSeq) or hasattr(iterable, 'pv_counts'):
            for v, c in iterable.runs if isinstance(iterable, RunSeq) else iterable.pv_counts():
                p0, c0 = self._pv_get(v)
                base = gite(p0, c0, 0)
                some = truth(c > 0)
                self._pv_put(v, disj(p0, some), gite(some, base + (c if sign > 0 else -c), base))
            if not getattr(iterable, 'order_ok', False):
                self._pv_order = False
        elif isinstance(iterable, ASeq) and not isinstance(iterable.n, int):
            # a sequence of unknown length: only if its element does not depend on the position
            mark = len(E.trace)
            v = iterable.at(fresh_index(iterable.n))
            if len(E.trace) != mark or isinstance(v, (SInt, SReal, SBool)):
                raise Unsupported('Counter of a sequence of unknown length')
            self._pv_acc(RunSeq([(v, ite(iterable.n > 0, iterable.n, 0))]), sign)
        else:
            for v in iterable:
                p0, c0 = self._pv_get(v)
                base = gite(p0, c0, 0)
                self._pv_put(v, T, base + sign)

    def copy(self):
        return self.__class__(self)

    __copy__ = copy

    def elements(self):
        runs = []
        for k, (p, c) in self._pv_d.items():
            cc = c if is_true(p) else ite(p, c, 0)
            runs.append((k, cc if isinstance(cc, int) and cc >= 0 else (0 if isinstance(cc, int) else ite(cc > 0, cc, 0))))
        return RunSeq(runs, self._pv_order)

    def most_common(self, n=None):
        raise Unsupported('Counter.most_common')

    def _pv_pointwise(self, other, keep):
        """Result counter over the keys of self then the others; keep(ps, cs, po, co) -> (present, count)"""
        r = PCounter()
        for k, (p, c) in self._pv_d.items():
            po, co = other._pv_get(k) if other is not None else (False, 0)
            if other is not None and not is_true(po):
                co = ite(po, co, 0) if not is_false(po) else 0
            np_, nc = keep(p, c, po, co)
            r._pv_put(k, np_, nc)
        r._pv_order = self._pv_order
        if other is not None:
            for k, (p, c) in other._pv_d.items():
                if k not in self._pv_d:
                    np_, nc = keep(False, 0, p, c)
                    r._pv_put(k, np_, nc)
            if not other._pv_order:
                r._pv_order = False
        return r

    @staticmethod
    def _pv_chk(other):
        return isinstance(other, PCounter)

    def __add__(self, other):
        if not self._pv_chk(other):
            return NotImplemented

        def keep(ps, cs, po, co):
            mine = conj(ps, truth(cs + co > 0))
            theirs = conj(neg(ps), po, truth(co > 0))
            return disj(mine, theirs), gite(ps, cs + co, co)
        return self._pv_fix(self._pv_pointwise(other, keep), other)

    def __sub__(self, other):
        if not self._pv_chk(other):
            return NotImplemented

        def keep(ps, cs, po, co):
            mine = conj(ps, truth(cs - co > 0))
            theirs = conj(neg(ps), po, truth(co < 0))
            return disj(mine, theirs), gite(ps, cs - co, 0 - co)
        return self._pv_fix(self._pv_pointwise(other, keep), other)

    def __or__(self, other):
        if not self._pv_chk(other):
            return NotImplemented

        def keep(ps, cs, po, co):
            mx = ite(cs < co, co, cs)
            mine = conj(ps, truth(mx > 0))
            theirs = conj(neg(ps), po, truth(co > 0))
            return disj(mine, theirs), gite(ps, mx, co)
        return self._pv_fix(self._pv_pointwise(other, keep), other)

    def __and__(self, other):
        if not self._pv_chk(other):
            return NotImplemented

        def keep(ps, cs, po, co):
            mn = ite(cs < co, cs, co)
            return conj(ps, truth(mn > 0)), mn
        return self._pv_fix(self._pv_pointwise(other, keep), None)

    def _pv_fix(self, r, other):
        if other is not None:
            for k, (p, _) in self._pv_d.items():
                if not is_true(p) and not is_false(other._pv_get(k)[0]):
                    r._pv_order = False     # position depends on which operand held the key
        return r

    def __pos__(self):
        return self._pv_pointwise(None, lambda p, c, po, co: (conj(p, truth(c > 0)), c))

    def __neg__(self):
        return self._pv_pointwise(None, lambda p, c, po, co: (conj(p, truth(c < 0)), 0 - c))

    def _keep_positive(self):
        for k, (p, c) in list(self._pv_d.items()):
            self._pv_put(k, conj(p, truth(c > 0)), c)
        return self

    def __iadd__(self, other):
        self._pv_inplace(other, lambda c, o: c + o)
        return self._keep_positive()

    def __isub__(self, other):
        self._pv_inplace(other, lambda c, o: c - o)
        return self._keep_positive()

    def __ior__(self, other):
        self._pv_inplace(other, lambda c, o: ite(o > c, o, c))
        return self._keep_positive()

    def __iand__(self, other):
        for k, (p, c) in list(self._pv_d.items()):
            co = other[k]
            self._pv_put(k, p, ite(co < c, co, c))
        return self._keep_positive()

    def _pv_inplace(self, other, f):
        for k, (p, c) in list(other._pv_d.items()):
            p0, c0 = self._pv_get(k)
            base = gite(p0, c0, 0)
            self._pv_put(k, disj(p0, p), gite(p, f(base, c), base))
        if not other._pv_order:
            self._pv_order = False

    def __eq__(self, other):
        if isinstance(other, PCounter):
            keys = list(self._pv_d) + [k for k in other._pv_d if k not in self._pv_d]
            cs = []
            for k in keys:
                p, c = self._pv_get(k)
                po, co = other._pv_get(k)
                cs.append(iff(p, po))
                cs.append(disj(neg(p), truth(c == co)))
            r = conj(*cs)
            return r if isinstance(r, bool) else SBool(r)
        if isinstance(other, dict):
            return self == PCounter(other)
        return NotImplemented

    def __ne__(self, other):
        r = self.__eq__(other)
        if r is NotImplemented:
            return r
        return (not r) if isinstance(r, bool) else wrapb(z3.Not(r.t))

    __hash__ = None

    def __repr__(self):
        return 'Counter(%r)' % (self._pv_d,)


def E_implies(a, b):
    """Syntactic/solver check that a implies b (used only for order tracking)."""
    s = disj(neg(a), b)
    if is_true(s):
        return True
    return False


class PDict(PCounter):
    """A plain dict with entries that may or may not be there."""
    pv_counter = False

    def __init__(self, pairs=(), order_ok=True):
        self._pv_d = {}
        self._pv_order = True
        self._pv_ver = 0
        self._pv_pairs(pairs, order_ok)

    def _pv_pairs(self, pairs, order_ok):
        for g, (k, v) in pairs:
            if _symbolic(k):
                raise Unsupported('a dict with an arbitrary key')
            p0, c0 = self._pv_get(k)
            self._pv_put(k, disj(p0, g), v if is_true(g) or is_false(p0) else gite(g, v, c0))
        if not order_ok:
            self._pv_order = False

    def __missing__(self, k):
        raise KeyError(k)

    def __getitem__(self, k):
        p, c = self._pv_get(k)
        return c if E.branch(p) else self.__missing__(k)

    def get(self, k, default=None):
        p, c = self._pv_get(k)
        return c if E.branch(p) else default

    def __delitem__(self, k):
        if not E.branch(self._pv_get(k)[0]):
            raise KeyError(k)
        self._pv_put(k, False, 0)

    def update(self, iterable=(), /, **kwds):
        if isinstance(iterable, PCounter):
            iterable = iterable.items()
        elif isinstance(iterable, dict):
            iterable = iterable.items()
        if isinstance(iterable, GSeq):
            self._pv_pairs(iterable.items, iterable.order_ok)
        else:
            self._pv_pairs([(True, x) for x in iterable], True)
        if kwds:
            self.update(kwds)

    def copy(self):
        return PDict(self.items().items, self._pv_order)

    def _no(self, *a):
        raise Unsupported('operator of a dict with conditional entries')
    __add__ = __radd__ = __sub__ = __or__ = __and__ = __iadd__ = __isub__ = __ior__ = __iand__ = __pos__ = __neg__ = _no
    subtract = elements = most_common = _no


class ASeq(Abstract):
    """A sequence of unknown length: element i is at(i) for 0 <= i < n (n, i integers or symbolic)."""
    pv_abstract = True
    pv_is_list = True

    def __init__(self, n, at, tag='aseq'):
        self.n, self.at, self.tag = n, at, tag

    def __pv_len__(self):
        return self.n

    def __len__(self):
        if isinstance(self.n, int):
            return self.n
        raise Unsupported('native len of a sequence of unknown length')

    def __bool__(self):
        return bool(self.n != 0)

    def __iter__(self):
        if isinstance(self.n, int):
            for i in range(self.n):
                yield self.at(i)
            return
        if E.notes.get('yield_chunks'):          # the harness takes the whole sequence at once (yield from)
            yield Chunk(self)
            return
        raise Unsupported('loop over a sequence of unknown length without an invariant')

    def __getitem__(self, i):
        if isinstance(i, slice):
            a, b, st = i.start, i.stop, i.step
            if st == -1 and a is None and b is None:
                n, at = self.n, self.at
                return ASeq(n, lambda k: at(n - 1 - k), self.tag)
            if st is None and b is None and isinstance(a, int) and a >= 0:
                at = self.at
                n = self.n - a
                n = n if isinstance(n, int) and n >= 0 else (0 if isinstance(n, int) else ite(n >= 0, n, 0))
                return ASeq(n, lambda k: at(k + a), self.tag)
            if st is None and a is None and isinstance(b, int) and b < 0:
                n = self.n + b
                n = n if isinstance(n, int) and n >= 0 else (0 if isinstance(n, int) else ite(n >= 0, n, 0))
                return ASeq(n, self.at, self.tag)
            raise Unsupported('slice of a sequence of unknown length')
        if isinstance(i, int) and i < 0:
            i = self.n + i
        else:
            if not (i >= 0):
                i = self.n + i
        if not (0 <= i):
            raise IndexError('list index out of range')
        if not (i < self.n):
            raise IndexError('list index out of range')
        return self.at(i)

    def reverse(self):
        n, at = self.n, self.at
        self.at = lambda k: at(n - 1 - k)

    def pv_as_list(self):
        return ASeq(self.n, self.at, self.tag)

    pv_as_tuple = pv_as_list
    copy = pv_as_list

    def __add__(self, o):
        o = aseq(o)
        n, at = self.n, self.at

        def f(k):
            if (k < n):
                return at(k)
            return o.at(k - n)
        return ASeq(n + o.n, f)

    def __radd__(self, o):
        return aseq(o) + self

    # -- in-place operations: the object itself changes, as a list does
    def __iadd__(self, o):
        r = self + o
        self.n, self.at = r.n, r.at
        return self

    def append(self, x):
        self += [x]

    def extend(self, o):
        self += o

    def clear(self):
        self.n = 0

    def insert(self, i, x):
        n, at = self.n, self.at
        if i < 0:
            i = i + n
            i = i if i >= 0 else 0
        if i > n:
            i = n

        def f(k):
            if k < i:
                return at(k)
            if k == i:
                return x
            return at(k - 1)
        self.n, self.at = n + 1, f

    def pv_sorted(self, key=None, reverse=False):
        hook = E.notes.get('sorted_hook')
        if hook:
            return hook(self, key, reverse)
        raise Unsupported('sorting a sequence of unknown length')

    def pv_version(self):
        return (self.n if isinstance(self.n, int) else self.n.t.get_id(), id(self.at))

    def pv_comp(self, kind, elt, cond):
        if cond is not None or kind == 'set':
            raise Unsupported('filtering a sequence of unknown length')
        at = self.at
        return ASeq(self.n, lambda k: elt(at(k)), self.tag)

    def pv_all(self):
        """all(): decided by an arbitrary element; the positive answer may be used for every element."""
        k = fresh_index(self.n)
        r = truth(self.at(k))
        if E.check(z3.And(0 <= num(k), num(k) < num(self.n), z3.Not(as_z3bool(r) if not isinstance(r, bool)
                                                                    else z3.BoolVal(r)))) == z3.unsat:
            return True
        raise Unsupported('all() over a sequence of unknown length is not provably true')

    def pv_sum(self, start):
        hook = E.notes.get('sum_hook')
        if hook:
            return hook(self, start)
        raise Unsupported('sum of a sequence of unknown length')


class Splat(ASeq):
    """Stands for *args of unknown number: passed as the only argument, list(args) is the sequence."""
    pv_splat = True


def fresh_index(n):
    from pv.core import fresh_int
    return fresh_int('k')


def aseq(x):
    if isinstance(x, ASeq):
        return x
    if isinstance(x, (list, tuple)):
        x = list(x)

        def at(k):
            if isinstance(k, int):
                return x[k]
            return x[k.__index__()]
        return ASeq(len(x), at)
    raise Unsupported('not a sequence')


class SymSet(Abstract):
    """A finite set with concrete candidate elements and symbolic membership; immutable operations are modelled."""
    pv_is_set = True
    pv_abstract = True

    def __init__(self, guards):
        self.g = dict(guards)

    def _of(self, o):
        if isinstance(o, SymSet):
            return o.g
        if isinstance(o, (set, frozenset, list, tuple)):
            return {x: True for x in o}
        if isinstance(o, PCounter):
            o = o.keys()
        if isinstance(o, GSeq):
            d = {}
            for g, v in o.items:
                d[v] = disj(d.get(v, False), g)
            return d
        return None

    def has(self, x):
        return self.g.get(x, False)

    def pv_as_set(self):
        return SymSet(self.g)

    def pv_as_list(self):
        return GSeq([(g, v) for v, g in self.g.items()], False, 'set', self)

    def copy(self):
        return SymSet(self.g)

    def __contains__(self, x):
        return E.branch(self.has(x))

    def __pv_len__(self):
        r = 0
        for g in self.g.values():
            r = r + gite(g, 1, 0)
        return r

    def __bool__(self):
        return E.branch(disj(*self.g.values()))

    def __iter__(self):
        return iter(self.pv_as_list())

    def _bin(f):
        def op(self, o):
            d = self._of(o)
            if d is None:
                return NotImplemented
            r = {}
            for k in list(self.g) + [k for k in d if k not in self.g]:
                r[k] = f(self.g.get(k, False), d.get(k, False))
            return SymSet({k: v for k, v in r.items() if v is not False})
        return op

    __or__ = _bin(lambda a, b: disj(a, b))
    __and__ = _bin(lambda a, b: conj(a, b))
    __sub__ = _bin(lambda a, b: conj(a, neg(b)))
    __xor__ = _bin(lambda a, b: disj(conj(a, neg(b)), conj(b, neg(a))))
    __ror__ = __or__
    __rand__ = __and__
    __rsub__ = _bin(lambda b, a: conj(a, neg(b)))
    union = __or__
    intersection = __and__
    difference = __sub__

    # -- in-place operations: the object itself changes, as a set does
    def _inp(f):
        def op(self, o):
            r = f(self, o)
            if r is NotImplemented:
                return r
            self.g = r.g
            return self
        return op

    __ior__ = _inp(__or__)
    __iand__ = _inp(__and__)
    __isub__ = _inp(__sub__)
    __ixor__ = _inp(__xor__)

    def update(self, *os):
        for o in os:
            self.g = (self | o).g

    def difference_update(self, *os):
        for o in os:
            self.g = (self - o).g

    def intersection_update(self, *os):
        for o in os:
            self.g = (self & o).g

    def add(self, x):
        self.g = (self | {x}).g

    def discard(self, x):
        self.g = (self - {x}).g

    def remove(self, x):
        if not E.branch(self.has(x)):
            raise KeyError(x)
        self.discard(x)

    def clear(self):
        self.g = {}

    def pv_version(self):
        return {k: (v if isinstance(v, bool) else v.get_id()) for k, v in self.g.items()}

    def __eq__(self, o):
        d = self._of(o)
        if d is None or isinstance(o, (list, tuple)):
            return False
        return sbool(conj(*[iff(self.g.get(k, False), d.get(k, False)) for k in set(self.g) | set(d)]))

    def __ne__(self, o):
        r = self.__eq__(o)
        return (not r) if isinstance(r, bool) else sbool(neg(r.t))

    __hash__ = None

    def issubset(self, o):
        d = self._of(o)
        return sbool(conj(*[disj(neg(g), d.get(k, False)) for k, g in self.g.items()]))

    __le__ = issubset

    def pv_comp(self, kind, elt, cond):
        r = GSeq(list((g, v) for v, g in self.g.items()), False, 'set', self).map(elt, cond)
        if kind == 'set':
            return SymSet(self._of(r))
        return r


def sbool(g):
    return g if isinstance(g, bool) else SBool(g)


class PMap(Abstract):
    """A dictionary of any size: has(k) and at(k) for every key; keys are compared by identity or native equality.

    The order of the keys is not modelled."""
    pv_abstract = True
    pv_is_dict = True

    def __init__(self, has, at):
        self.has0, self.at0 = has, at
        self.memo = {}
        self.over = {}       # key -> (present, value): changes made to this object
        self.ver = 0

    @staticmethod
    def of(x):
        if hasattr(x, 'pv_map'):
            return x.pv_map()
        if isinstance(x, dict):
            d = dict(x)
            return PMap(lambda k: k in d, lambda k: d[k])
        raise Unsupported('not a mapping: %r' % (type(x),))

    def pv_map(self):
        return self

    def has(self, k):
        if k in self.over:
            return self.over[k][0]
        return self.has0(k)

    def value(self, k):
        if k in self.over:
            return self.over[k][1]
        if k not in self.memo:
            self.memo[k] = self.at0(k)
        return self.memo[k]

    def pv_version(self):
        return self.ver

    def __contains__(self, k):
        return bool(self.has(k))

    def __getitem__(self, k):
        if not bool(self.has(k)):
            raise KeyError(k)
        return self.value(k)

    def get(self, k, default=None):
        return self[k] if k in self else default

    def __setitem__(self, k, v):
        self.ver += 1
        self.over[k] = (True, v)

    def __delitem__(self, k):
        if k not in self:
            raise KeyError(k)
        self.ver += 1
        self.over[k] = (False, None)

    def pop(self, k, *d):
        if k not in self:
            if d:
                return d[0]
            raise KeyError(k)
        v = self[k]
        del self[k]
        return v

    def setdefault(self, k, d=None):
        if k not in self:
            self[k] = d
        return self[k]

    def copy(self):
        return self.merged(None)

    __copy__ = copy

    def update(self, o=(), **kw):
        n = self.merged(PMap.of(o if not isinstance(o, (list, tuple)) else dict(o)))
        if kw:
            n = n.merged(PMap.of(kw))
        self.has0, self.at0, self.memo, self.over = n.has0, n.at0, n.memo, n.over
        self.ver += 1

    def merged(self, o):
        """A new map: o over this one (as both are now)."""
        over = dict(self.over)
        has0, value0 = self.has0, self.value
        oo = None if o is None else (dict(o.over), o.has0, o.value)
        vals = {}

        def ohas(k):
            return False if oo is None else (oo[0][k][0] if k in oo[0] else oo[1](k))

        def has(k):
            return disj(truth(ohas(k)), truth(over[k][0] if k in over else has0(k)))

        def at(k):
            if E.branch(truth(ohas(k))):
                return oo[0][k][1] if k in oo[0] else oo[2](k)
            return over[k][1] if k in over else value0(k)
        return PMap(has, at)

    def __or__(self, o):
        return self.merged(PMap.of(o))

    def items(self):
        return PMapView(self, lambda k, v: (k, v))

    def keys(self):
        return PMapView(self, lambda k, v: k)

    def values(self):
        return PMapView(self, lambda k, v: v)

    def __iter__(self):
        return iter(self.keys())

    def pv_comp(self, kind, elt, cond):
        return self.keys().pv_comp(kind, elt, cond)


class PMapView(Abstract):
    pv_abstract = True

    def __init__(self, m, f):
        self.m, self.f = m, f

    def pv_map(self):
        raise Unsupported('a view used as a mapping')

    def __iter__(self):
        raise Unsupported('loop over a map of unknown size without an invariant')

    def pv_comp(self, kind, elt, cond):
        if kind != 'dict':
            raise Unsupported('comprehension over a map of unknown size')
        m, f = self.m, self.f
        src = m.merged(None)

        def has(k):
            h = truth(src.has(k))
            if cond is None or is_false(h):
                return h
            if not E.branch(h):
                return False
            return truth(cond(f(k, src.value(k))))

        def at(k):
            kk, v = elt(f(k, src.value(k)))
            if kk is not k and kk != k:
                raise Unsupported('a comprehension over a map of unknown size changes its keys')
            return v
        return PMap(has, at)
