"""pv.core: path engine of a deductive verifier for Python by symbolic execution.

The functions of /repo run natively (CPython) on proxy values.  Every branch on a symbolic
condition splits the path (both sides when both are feasible), every loop is either concrete,
or cut by an invariant, and every call to a function under contract may be replaced by the
contract.  All paths are explored: an obligation is `path condition => claim`, decided by z3.
"""
import time
import z3

TOK_OPEN, TOK_CLOSE = '\ue000', '\ue001'


class PathEnd(BaseException):
    """The current path is finished (a cut point was reached)."""


class Infeasible(BaseException):
    """The current path condition became unsatisfiable."""


class Unsupported(Exception):
    """The code stepped outside the subset the engine can reason about."""


class Undecided(Exception):
    pass


class Obligation:
    __slots__ = ('name', 'status', 'detail', 'model', 'secs', 'smt')

    def __init__(self, name, status, detail='', model=None, secs=0.0, smt=None):
        self.name, self.status, self.detail, self.model, self.secs, self.smt = name, status, detail, model, secs, smt


def proxy_named(msg):
    """Does the message of a TypeError or AttributeError speak of an object of this framework (a proxy or a ghost)?"""
    import re
    import sys
    words = set(re.findall(r"\w+", msg))
    for mn, m in list(sys.modules.items()):
        if mn.split('.')[0] in ('pv', 'props') and m is not None:
            for w in words & set(vars(m)):
                c = vars(m)[w]
                if isinstance(c, type) and c.__module__.split('.')[0] in ('pv', 'props'):
                    return True
    return any(w.startswith('Ghost') for w in words)


class Engine:
    def __init__(self, timeout_ms=20000, max_paths=200000, keep_smt=False):
        self.timeout_ms = timeout_ms
        self.max_paths = max_paths
        self.keep_smt = keep_smt
        self.reset_all()

    # ---- global statistics -------------------------------------------------
    def reset_all(self):
        self.obligations = []
        self.paths = 0
        self.covers = {}
        self.solver_s = 0.0
        self.deadline = None
        self.queries = 0
        self.assumed = set()
        self.unsupported = []
        self.fail_paths = 0

    # ---- one path ----------------------------------------------------------
    def _start(self, prefix):
        self.prefix = list(prefix)
        self.trace = []
        self.pending = []
        self.counter = {}
        self.solver = z3.Solver()
        self.solver.set('timeout', self.timeout_ms)
        self.known = {}
        self.guards = []
        self.tokens = []
        self.token_ids = {}
        self.witness_fn = None
        self.path_failed = False
        self.notes = {}
        for f in self.on_start:
            f()

    on_start = []

    def fresh_name(self, base):
        n = self.counter.get(base, 0)
        self.counter[base] = n + 1
        return '%s!%d' % (base, n)

    def check(self, *assumptions):
        t = time.time()
        r = self.solver.check(*assumptions)
        self.solver_s += time.time() - t
        self.queries += 1
        return r

    def assume(self, cond):
        if cond is True:
            return
        cond = as_z3bool(cond)
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return
        if z3.is_false(cond):
            raise Infeasible()
        self.solver.add(cond)
        self.known[cond.get_id()] = True
        self._keep(cond)

    def _keep(self, e):
        # keep a reference so that AST ids are not reused
        self.notes.setdefault('keep', []).append(e)

    def assume_checked(self, cond):
        self.assume(cond)
        if self.check() == z3.unsat:
            raise Infeasible()

    def branch(self, cond):
        """Decide a symbolic condition: split the path."""
        if isinstance(cond, bool):
            return cond
        if isinstance(cond, SBool):
            cond = cond.t
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        k = cond.get_id()
        if k in self.known:
            return self.known[k]
        i = len(self.trace)
        neg = z3.Not(cond)
        if i < len(self.prefix):
            c = self.prefix[i]
        else:
            if self.deadline and time.time() > self.deadline:
                raise Undecided('time budget exhausted on a path')
            if i > 5000:
                raise Unsupported('a path without end: a loop without an invariant')
            r1 = self.check(cond)
            if r1 == z3.unsat:
                c = ('f', False)
            else:
                r2 = self.check(neg)
                if r2 == z3.unsat:
                    c = ('f', True)
                else:
                    self.pending.append(self.trace + [('b', False)])
                    c = ('b', True)
        self.trace.append(c)
        v = c[1]
        if c[0] == 'b':
            self.solver.add(cond if v else neg)
        self.known[k] = v
        self._keep(cond)
        return v

    def choose(self, options, label='choose'):
        """Unconditional n-way split: every option is explored."""
        options = list(options)
        if not options:
            raise Infeasible()
        i = len(self.trace)
        if i < len(self.prefix):
            c = self.prefix[i]
        else:
            for o in range(1, len(options)):
                self.pending.append(self.trace + [('c', o)])
            c = ('c', 0)
        self.trace.append(c)
        return options[c[1]]

    def concretize(self, term, limit=400):
        """Complete case split of an integer term over its feasible values."""
        term = z3.simplify(term)
        if z3.is_int_value(term):
            return term.as_long()
        i = len(self.trace)
        if i < len(self.prefix):
            c = self.prefix[i]
        else:
            vals = []
            self.solver.push()
            while True:
                r = self.check()
                if r == z3.unsat:
                    break
                if r != z3.sat:
                    self.solver.pop()
                    raise Undecided('concretize: solver gave no answer')
                v = self.solver.model().eval(term, model_completion=True).as_long()
                vals.append(v)
                if len(vals) > limit:
                    self.solver.pop()
                    raise Unsupported('value with unbounded domain used as a concrete integer')
                self.solver.add(term != v)
            self.solver.pop()
            vals.sort()
            if not vals:
                raise Infeasible()
            for v in vals[1:]:
                self.pending.append(self.trace + [('v', v)])
            c = ('v', vals[0])
        self.trace.append(c)
        self.solver.add(term == c[1])
        return c[1]

    def feasible(self, term, limit=400):
        """Every value an integer term can have on this path (no split)."""
        term = z3.simplify(term)
        if z3.is_int_value(term):
            return [term.as_long()]
        k = ('feasible', term.get_id(), len(self.trace))
        memo = self.notes.setdefault('feasible', {})
        if k in memo:
            return memo[k]
        self._keep(term)
        vals = []
        self.solver.push()
        while True:
            r = self.check()
            if r == z3.unsat:
                break
            if r != z3.sat:
                self.solver.pop()
                raise Undecided('feasible values: solver gave no answer')
            v = self.solver.model().eval(term, model_completion=True).as_long()
            vals.append(v)
            if len(vals) > limit:
                self.solver.pop()
                raise Unsupported('number with unbounded domain put into a set')
            self.solver.add(term != v)
        self.solver.pop()
        memo[k] = sorted(vals)
        return memo[k]

    # ---- obligations -------------------------------------------------------
    def prove(self, name, cond, detail=''):
        """Obligation: path condition => cond.  Afterwards cond is assumed."""
        cond = as_z3bool(cond)
        t = time.time()
        s = z3.simplify(cond)
        if z3.is_true(s):
            self.obligations.append(Obligation(name, 'proved', 'by simplification'))
            return True
        r = self.check(z3.Not(cond))
        secs = time.time() - t
        smt = None
        if self.keep_smt:
            self.solver.push()
            self.solver.add(z3.Not(cond))
            smt = self.solver.to_smt2()
            self.solver.pop()
        if r == z3.unsat:
            self.obligations.append(Obligation(name, 'proved', detail, None, secs, smt))
            self.solver.add(cond)
            return True
        if r == z3.sat:
            m = self.solver.model()
            self._failed(name, 'refuted', detail, m, secs)
        else:
            self._failed(name, 'unknown', detail + ' solver: ' + self.solver.reason_unknown(), None, secs)
        self.solver.add(cond)
        if self.check() == z3.unsat:
            raise Infeasible()
        return False

    theorems = {}

    def prove_valid(self, name, cond):
        """An obligation expected to hold without the path condition: decided once for every path on which it comes up."""
        c = z3.simplify(as_z3bool(cond))
        k = c.get_id()
        if k not in self.theorems:
            s = z3.Solver()
            s.set('timeout', self.timeout_ms)
            s.add(z3.Not(c))
            t = time.time()
            self.theorems[k] = (c, s.check() == z3.unsat)
            self.solver_s += time.time() - t
            self.queries += 1
        if self.theorems[k][1]:
            self.obligations.append(Obligation(name, 'proved', 'valid on every path'))
            return True
        return self.prove(name, cond)

    def _failed(self, name, status, detail, model, secs=0.0):
        wit = None
        if model is not None and self.witness_fn is not None:
            try:
                wit = self.witness_fn(lambda x: eval_model(model, x))
            except Exception as e:      # the witness is a convenience only
                wit = {'witness_error': repr(e)}
        text = ''
        if model is not None:
            text = str(model)[:1500]
        self.path_failed = True
        self.obligations.append(Obligation(name, status, (detail + ' | model: ' + text) if text else detail, wit, secs))

    def fail(self, name, detail=''):
        """An obligation that is false on this path whatever the values: refuted if the path is feasible."""
        r = self.check()
        if r == z3.unsat:
            raise Infeasible()
        if r == z3.sat:
            self._failed(name, 'refuted', detail, self.solver.model())
        else:
            self._failed(name, 'unknown', detail, None)

    def cover(self, name):
        """Reachability: at least one path must reach this point with a satisfiable condition."""
        if self.covers.get(name):
            return
        r = self.check()
        self.covers[name] = (r == z3.sat) or self.covers.get(name, False)

    def expect_cover(self, *names):
        for n in names:
            self.covers.setdefault(n, False)

    # ---- exploration -------------------------------------------------------
    def explore(self, fn, name, deadline=None):
        """Run fn on every feasible path."""
        work = [[]]
        self.deadline = deadline
        while work:
            prefix = work.pop()
            if deadline and time.time() > deadline:
                self.obligations.append(Obligation(name + ':time', 'unknown', 'time budget exhausted'))
                break
            if self.paths >= self.max_paths:
                self.obligations.append(Obligation(name + ':paths', 'unknown', 'path budget exhausted'))
                break
            if self.fail_paths > 12:
                break
            self._start(prefix)
            self.paths += 1
            try:
                fn()
            except PathEnd:
                pass
            except Infeasible:
                pass
            except Undecided as e:
                self.obligations.append(Obligation(name + ':undecided', 'unknown', str(e)))
            except Unsupported as e:
                if self.check() == z3.unsat:
                    work.extend(self.pending)
                    continue
                import traceback
                tb = traceback.extract_tb(e.__traceback__)
                where = ' <- '.join('%s:%s' % (f.name, f.lineno) for f in reversed(tb[-6:]))
                self.unsupported.append('%s: %s [%s]' % (name, e, where))
                self.obligations.append(Obligation(name + ':unsupported', 'unsupported', '%s [%s]' % (e, where)))
                self.fail_paths += 1
            except z3.Z3Exception as e:
                self.obligations.append(Obligation(name + ':unsupported', 'unsupported', 'z3: %r' % (e,)))
                self.fail_paths += 1
            except RecursionError as e:
                self.obligations.append(Obligation(name + ':unsupported', 'unsupported', 'recursion without contract'))
                self.fail_paths += 1
            except Exception as e:
                if self.check() == z3.unsat:
                    work.extend(self.pending)
                    continue
                import traceback
                tb = traceback.extract_tb(e.__traceback__)
                where = ' <- '.join('%s:%s' % (f.name, f.lineno) for f in reversed(tb[-6:]))
                if (any('/verif/pv/' in f.filename or '/verif/props/' in f.filename for f in tb[-1:])
                    or (isinstance(e, (TypeError, AttributeError)) and proxy_named(str(e)))) \
                        and not getattr(e, 'pv_program', False):
                    # the engine or a harness cannot interpret what the code did
                    self.obligations.append(Obligation(name + ':unsupported', 'unsupported',
                                                       'engine: %r [%s]' % (e, where)))
                else:
                    try:
                        self.fail(name + ':no-exception', '%s: %s [%s]' % (type(e).__name__, e, where))
                    except Infeasible:
                        pass
                self.fail_paths += 1
            if self.path_failed:
                self.fail_paths += 1
            work.extend(self.pending)

    # ---- tokens: symbolic values embedded in native strings ------------------
    def token(self, value, key):
        if key in self.token_ids:
            return self.token_ids[key]
        s = '%s%d%s' % (TOK_OPEN, len(self.tokens), TOK_CLOSE)
        self.tokens.append(value)
        self.token_ids[key] = s
        return s

    def untoken(self, s):
        """The value a token string stands for, or None."""
        s = s.strip()
        if len(s) >= 3 and s[0] == TOK_OPEN and s[-1] == TOK_CLOSE and s[1:-1].isdigit():
            return self.tokens[int(s[1:-1])]
        return None


def has_token(s):
    return isinstance(s, str) and TOK_OPEN in s


E = Engine()


def engine():
    return E


def as_z3bool(x):
    if isinstance(x, SBool):
        return x.t
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if isinstance(x, z3.BoolRef):
        return x
    raise Unsupported('not a boolean: %r' % (type(x),))


def num(x):
    """A Python number or proxy as a z3 arithmetic term."""
    if isinstance(x, (SInt, SReal)):
        return x.t
    if isinstance(x, bool):
        return z3.IntVal(1 if x else 0)
    if isinstance(x, int):
        return z3.IntVal(x)
    if isinstance(x, float):
        if x != x or x in (float('inf'), float('-inf')):
            raise Unsupported('non-finite float mixed with a symbolic number')
        if x == int(x):
            return z3.RealVal(int(x))
        return z3.RealVal(repr(x))
    if isinstance(x, SBool):
        return z3.If(x.t, z3.IntVal(1), z3.IntVal(0))
    if isinstance(x, z3.ArithRef):
        return x
    return None


def wrap(t):
    """Wrap a z3 arithmetic term, folding constants to Python ints."""
    t = z3.simplify(t)
    if z3.is_int_value(t):
        return t.as_long()
    if t.is_int():
        return SInt(t)
    return SReal(t)


def wrapb(t):
    t = z3.simplify(t)
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    return SBool(t)


class SBool:
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def __bool__(self):
        return E.branch(self.t)

    def __and__(self, o):
        return wrapb(z3.And(self.t, as_z3bool(o)))

    __rand__ = __and__

    def __or__(self, o):
        return wrapb(z3.Or(self.t, as_z3bool(o)))

    __ror__ = __or__

    def __invert__(self):
        return wrapb(z3.Not(self.t))

    def __eq__(self, o):
        if isinstance(o, (bool, SBool)):
            return wrapb(self.t == as_z3bool(o))
        n = num(o)
        if n is None:
            return False
        return wrapb(num(self) == n)

    def __ne__(self, o):
        r = self.__eq__(o)
        return (not r) if isinstance(r, bool) else wrapb(z3.Not(r.t))

    def __hash__(self):
        return hash(bool(self))

    def __index__(self):
        return 1 if bool(self) else 0

    __int__ = __index__

    def __add__(self, o):
        return SInt(num(self)) + o

    __radd__ = __add__

    def __str__(self):
        return E.token(self, ('b', self.t.sexpr()))

    def __repr__(self):
        return 'SBool(%s)' % self.t


INF = float('inf')


def _cmp(op):
    def f(self, o):
        if isinstance(o, float) and (o == INF or o == -INF):
            # every symbolic number is finite
            return {'eq': False, 'ne': True, 'lt': o > 0, 'le': o > 0, 'gt': o < 0, 'ge': o < 0}[op]
        n = num(o)
        if n is None:
            if isinstance(o, float):
                raise Unsupported('comparison with non-finite float')
            if op == 'eq':
                return False
            if op == 'ne':
                return True
            return NotImplemented
        a = self.t
        r = {'eq': lambda: a == n, 'ne': lambda: a != n, 'lt': lambda: a < n, 'le': lambda: a <= n,
             'gt': lambda: a > n, 'ge': lambda: a >= n}[op]()
        return wrapb(r)
    return f


def _arith(fn, rev=False, inf=None):
    def f(self, o):
        if isinstance(o, float) and (o == INF or o == -INF) and inf is not None:
            return inf(o)
        n = num(o)
        if n is None:
            return NotImplemented
        a, b = (n, self.t) if rev else (self.t, n)
        return wrap(fn(a, b))
    return f


def pos_divisor(b):
    b = z3.simplify(b)
    if z3.is_int_value(b):
        if b.as_long() > 0:
            return
        if b.as_long() == 0:
            raise ZeroDivisionError('integer division or modulo by zero')
        raise Unsupported('negative divisor')
    if E.branch(b == 0):
        raise ZeroDivisionError('integer division or modulo by zero')
    if E.check(z3.Not(b > 0)) != z3.unsat:
        raise Unsupported('divisor not provably positive')


def divmod_terms(a, b):
    """Floor division for a provably positive divisor."""
    pos_divisor(b)
    b = z3.simplify(b)
    if z3.is_int_value(b):
        return a / b, a % b
    # symbolic divisor: Skolem quotient and remainder, defined (not assumed) by the division theorem
    key = ('dm', z3.simplify(a).sexpr(), b.sexpr())
    memo = E.notes.setdefault('divmod', {})
    if key not in memo:
        q = z3.Int(E.fresh_name('q'))
        r = z3.Int(E.fresh_name('r'))
        E.assume(z3.And(a == q * b + r, 0 <= r, r < b))
        memo[key] = (q, r, a, b)
        hook = E.notes.get('divmod_hook')
        if hook:
            hook(a, b, q, r)
    return memo[key][0], memo[key][1]


class SNum:
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    __eq__ = _cmp('eq')
    __ne__ = _cmp('ne')
    __lt__ = _cmp('lt')
    __le__ = _cmp('le')
    __gt__ = _cmp('gt')
    __ge__ = _cmp('ge')
    __add__ = _arith(lambda a, b: a + b, inf=lambda o: o)
    __radd__ = _arith(lambda a, b: a + b, True, inf=lambda o: o)
    __sub__ = _arith(lambda a, b: a - b, inf=lambda o: -o)
    __rsub__ = _arith(lambda a, b: a - b, True, inf=lambda o: o)
    __mul__ = _arith(lambda a, b: a * b)
    __rmul__ = _arith(lambda a, b: a * b, True)

    def __neg__(self):
        return wrap(-self.t)

    def __pos__(self):
        return self

    def __abs__(self):
        return wrap(z3.If(self.t >= 0, self.t, -self.t))

    def __bool__(self):
        return E.branch(self.t != 0)

    def _truediv(self, a, b):
        b = z3.simplify(b)
        if E.branch(b == 0):
            raise ZeroDivisionError('division by zero')
        hook = E.notes.get('truediv')
        if hook:
            return hook(a, b)
        a = z3.ToReal(a) if a.is_int() else a
        b = z3.ToReal(b) if b.is_int() else b
        return SReal(z3.simplify(a / b))

    def __truediv__(self, o):
        n = num(o)
        return NotImplemented if n is None else self._truediv(self.t, n)

    def __rtruediv__(self, o):
        n = num(o)
        return NotImplemented if n is None else self._truediv(n, self.t)

    def __str__(self):
        return E.token(self, ('n', z3.simplify(self.t).sexpr()))

    def __format__(self, spec):
        return str(self)

    def __repr__(self):
        return 'S(%s)' % (self.t,)


_rmul, _mul = SNum.__rmul__, SNum.__mul__


class RunText:
    """A text repeated a symbolic number of times (0 or more)."""
    __slots__ = ('text', 'n')

    def __init__(self, text, n):
        self.text, self.n = text, n

    def _no(self, *a, **k):
        raise Unsupported('a text of symbolic length')
    __add__ = __radd__ = __len__ = __iter__ = __getitem__ = __str__ = __eq__ = __contains__ = _no
    __hash__ = None


class SInt(SNum):
    __slots__ = ()

    def __rmul__(self, o):
        if isinstance(o, list) and len(o) == 1:
            from pv.model import RunSeq
            return RunSeq([(o[0], ite(self > 0, self, 0))])
        if isinstance(o, str):
            return RunText(o, ite(self > 0, self, 0))
        return _rmul(self, o)

    def __mul__(self, o):
        return self.__rmul__(o) if isinstance(o, (str, list)) else _mul(self, o)

    def __floordiv__(self, o):
        n = num(o)
        return NotImplemented if n is None else wrap(divmod_terms(self.t, n)[0])

    def __rfloordiv__(self, o):
        n = num(o)
        return NotImplemented if n is None else wrap(divmod_terms(n, self.t)[0])

    def __mod__(self, o):
        n = num(o)
        return NotImplemented if n is None else wrap(divmod_terms(self.t, n)[1])

    def __rmod__(self, o):
        if isinstance(o, str):
            return NotImplemented
        n = num(o)
        return NotImplemented if n is None else wrap(divmod_terms(n, self.t)[1])

    def __divmod__(self, o):
        return self // o, self % o

    def __rdivmod__(self, o):
        return o // self, o % self

    def __pow__(self, o):
        hook = E.notes.get('pow')
        if hook:
            return hook(self, o)
        if isinstance(o, int) and 0 <= o <= 8:
            r = 1
            for _ in range(o):
                r = self * r
            return r
        raise Unsupported('symbolic power')

    def __rpow__(self, o):
        hook = E.notes.get('pow')
        if hook:
            return hook(o, self)
        return o ** self.__index__()

    def __index__(self):
        return E.concretize(self.t)

    __int__ = __index__

    def __hash__(self):
        return hash(self.__index__())

    def __lshift__(self, o):
        if isinstance(o, int) and o >= 0:
            return self * (1 << o)
        return self.__index__() << o

    def __rshift__(self, o):
        if isinstance(o, int) and o >= 0:
            return self // (1 << o)
        return self.__index__() >> o

    def _conc2(op):
        def f(self, o):
            a = self.__index__()
            b = o.__index__()
            return op(a, b)
        return f

    __or__ = _conc2(lambda a, b: a | b)
    __ror__ = _conc2(lambda a, b: b | a)
    __xor__ = _conc2(lambda a, b: a ^ b)
    __rxor__ = __xor__
    __rlshift__ = _conc2(lambda a, b: b << a)

    def __and__(self, o):
        if isinstance(o, int) and o >= 0 and (o & (o + 1)) == 0:   # low-bit mask
            return self % (o + 1)
        return self.__index__() & o.__index__()

    __rand__ = __and__

    def is_integer(self):
        return True

    @property
    def real(self):
        return self


class SReal(SNum):
    """A float modelled as a mathematical real (stated assumption)."""
    __slots__ = ()

    def __hash__(self):
        raise Unsupported('hash of a symbolic float')

    def __float__(self):
        raise Unsupported('native float() of a symbolic number')

    def __int__(self):
        raise Unsupported('native int() of a symbolic float')


def eval_model(m, x):
    """Evaluate a proxy / term / container in a model to plain Python data."""
    if isinstance(x, SBool):
        return bool(z3.is_true(m.eval(x.t, model_completion=True)))
    if isinstance(x, SInt):
        return m.eval(x.t, model_completion=True).as_long()
    if isinstance(x, SReal):
        v = m.eval(x.t, model_completion=True)
        return float(v.as_fraction()) if z3.is_rational_value(v) else float(v.approx(10).as_fraction())
    if isinstance(x, z3.BoolRef):
        return bool(z3.is_true(m.eval(x, model_completion=True)))
    if isinstance(x, z3.ArithRef):
        v = m.eval(x, model_completion=True)
        return v.as_long() if z3.is_int_value(v) else float(v.as_fraction())
    if isinstance(x, dict):
        return {k: eval_model(m, v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [eval_model(m, v) for v in x]
    return x


class OpaqueStr(str):
    """A string known only by its identity: it can be stored, compared and copied; looking into it is unsupported."""
    pv_opaque = True

    def __new__(cls, name):
        return str.__new__(cls, '\ue002' + E.fresh_name(name))

    def __str__(self):
        return self

    def _die(self, *a, **k):
        raise Unsupported('looking into an arbitrary string')


for _n in ('__len__ __iter__ __contains__ __getitem__ __lt__ __le__ __gt__ __ge__ __mod__ __add__ __mul__ capitalize casefold '
           'center count encode endswith expandtabs find format format_map index isalnum isalpha isascii isdecimal isdigit '
           'isidentifier islower isnumeric isprintable isspace istitle isupper join ljust lower lstrip partition removeprefix '
           'removesuffix replace rfind rindex rjust rpartition rsplit rstrip split splitlines startswith strip swapcase title '
           'translate upper zfill __bool__').split():
    setattr(OpaqueStr, _n, OpaqueStr._die)


# ---- helpers for harnesses ---------------------------------------------------

def fresh_int(name, lo=None, hi=None):
    t = z3.Int(E.fresh_name(name))
    if lo is not None:
        E.assume(t >= lo)
    if hi is not None:
        E.assume(t <= hi)
    return SInt(t)


def fresh_bool(name):
    return SBool(z3.Bool(E.fresh_name(name)))


def fresh_real(name):
    return SReal(z3.Real(E.fresh_name(name)))


def ite(c, a, b):
    """If-then-else over numbers without splitting the path."""
    if isinstance(c, bool):
        return a if c else b
    c = as_z3bool(c)
    if z3.is_true(c):
        return a
    if z3.is_false(c):
        return b
    x, y = num(a), num(b)
    if x is None or y is None:
        raise Unsupported('ite over non-numbers')
    return wrap(z3.If(c, x, y))


def And(*xs):
    xs = [as_z3bool(x) for x in (xs[0] if len(xs) == 1 and isinstance(xs[0], (list, tuple)) else xs)]
    return wrapb(z3.And(*xs)) if xs else True


def Or(*xs):
    xs = [as_z3bool(x) for x in (xs[0] if len(xs) == 1 and isinstance(xs[0], (list, tuple)) else xs)]
    return wrapb(z3.Or(*xs)) if xs else False


def Not(x):
    return wrapb(z3.Not(as_z3bool(x)))


def Implies(a, b):
    return wrapb(z3.Implies(as_z3bool(a), as_z3bool(b)))


def Iff(a, b):
    return wrapb(as_z3bool(a) == as_z3bool(b))
