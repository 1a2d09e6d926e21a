"""C01: SubCategory for radix lists of any length, MixedCategory over any number of abstract parts.

Ghost functions (positions j count from the last radix, T(j) is the radix there, n radices):
  P(j)  product of the radices before position j      S(j)  product of the radices from j on
  Q(j)  the index after j divisions, D(j) = Q(j) mod T(j) (the digit)
  C(j)  digits of a tuple, V(j) the number they denote from position j on
They are defined by recursion (definitional extension); their connections are the inductive lemmas below.
"""
import math
from props.lib import *
from pv.model import Splat

FUNCS = ['record.category.' + f for f in
         ('SubCategory.__init__', 'SubCategory._category_iter', 'SubCategory.category', 'SubCategory.index', 'SubCategory.__len__',
          'MixedCategory.__init__', 'MixedCategory._accumulate', 'MixedCategory.category', 'MixedCategory.index',
          'MixedCategory.__len__', 'Category.__init__', 'flat_named_tuple_class')]
TRUSTED = ['contracts of bisect (over a proved-sorted list), functools.reduce and sum (fold over a list)']
ASSUMPTIONS = ['named tuples: radix lists of one to four radices (the radices themselves arbitrary), up to three named parts (bounded)',
               'parts of a mixed category by the contract of Category: category and index are inverse on [0, len)']

I = z3.IntSort()
T, P, S, Q, D, C, V, A, L = (z3.Function(x, I, I) for x in 'TPSQDCVAL')


def g(f, j):
    return SInt(f(num(j)))


def define(name, j):
    """Defining equation of a ghost function at position j."""
    j = num(j)
    if name == 'P':
        E.assume(P(z3.IntVal(0)) == 1)
        E.assume(P(j + 1) == P(j) * T(j))
    if name == 'S':
        E.assume(S(j) == T(j) * S(j + 1))
    if name == 'Q':        # division theorem: quotient and remainder of a number by a positive one exist
        E.assume(z3.Implies(T(j) > 0, z3.And(Q(j) == Q(j + 1) * T(j) + D(j), 0 <= D(j), D(j) < T(j))))
        E.assume(z3.Implies(T(j) == -1, D(j) == Q(j)))
    if name == 'V':
        E.assume(V(j) == V(j + 1) * T(j) + C(j))


def unique(a, b, q, r, q2, r2):
    """Instance of the lemma 'quotient and remainder are unique'."""
    return z3.Implies(z3.And(b > 0, a == q * b + r, 0 <= r, r < b, a == q2 * b + r2, 0 <= r2, r2 < b), z3.And(q == q2, r == r2))


class World:
    """A SubCategory over n radices: the real constructor runs on them."""

    def __init__(self):
        self.CAT = M('mahjong.record.category')
        self.n = n = fresh_int('n', 1)
        self.unlimited = E.choose([False, True])

        def at(k):
            j = num(n) - 1 - num(k)
            ok = z3.And(j >= 0, j < num(n))
            head = T(j) == -1 if self.unlimited else T(j) > 0
            E.assume(z3.Implies(ok, z3.If(j == num(n) - 1, head, T(j) > 0)))
            return SInt(T(j))
        self.at = at
        E.notes['reduce_hook'] = self.reduce
        E.notes['divmod_hook'] = self.divmod
        self.ghost = []
        self.cat = self.CAT.SubCategory(Splat(n, at))

    def divmod(self, a, b, q, r):
        for j in self.ghost:
            j = num(j)
            E.assume(unique(a, b, q, r, Q(j + 1), D(j)))

    def reduce(self, f, seq, *init):
        """functools.reduce over the radices, in any of the two orders: the product of all of them."""
        n = self.n
        E.prove('the product is taken of all radices', same(seq.n, n))
        if init:
            E.prove('the product starts at one', same(init[0], 1))
        x, y = fresh_int('x'), fresh_int('y')
        E.prove('factors are multiplied', wrapb(num(f(x, y)) == num(x) * num(y)))
        j = fresh_int('j', 0)
        E.assume(j < n)
        u, v = num(seq.at(j)), num(self.at(n - 1 - j))
        if E.check(u != v) != z3.unsat:
            E.prove('the radices are multiplied', wrapb(u == num(self.at(j))))
        return SInt(P(num(n)))


class IterCut(Cut):
    """After j digits the rest of the index is Q(j)."""
    name = 'digits'

    def __init__(self, w):
        self.w = w

    def match(self, seq, loc):
        return isinstance(seq, ASeq)

    def enter(self, seq, loc):
        vs = [k for k in self.carried if isinstance(loc.get(k), SInt)]
        if len(vs) != 1:
            raise Unsupported('variable of the loop not found')
        self.var = vs[0]

    def indices(self, seq, loc):
        j = fresh_int('j', 0)
        E.assume_checked(j < seq.n)
        self.i = j
        self.w.ghost = [j]
        define('Q', j)
        return [j]

    def element(self, seq, i, loc):
        return True, seq.at(i)

    def invariant(self, seq, i, loc):
        # after an unlimited radix (the last position) nothing is left to say
        done = And(i == seq.n, self.w.unlimited) if self.w.unlimited else False
        return [('the rest of the index', Or(done, SBool(num(loc[self.var]) == Q(num(i)))))]

    def havoc(self, seq, i, loc):
        return {self.var: SInt(Q(num(i)))}

    def exit_index(self, seq, loc):
        return seq.n


def start_index(w):
    i = SInt(Q(z3.IntVal(0)))
    E.assume(i >= 0)
    if not w.unlimited:
        E.assume(i < SInt(P(num(w.n))))
    return i


def h_iter():
    w = World()
    cut = IterCut(w)
    CUTS['SubCategory._category_iter'] = [cut]
    it = iter(w.cat._category_iter(start_index(w)))
    try:
        x = next(it)
    except StopIteration:
        E.cover('end')
        return
    E.cover('digit')
    eq('digit of position j', x, g(D, cut.i))
    next(it)
    E.prove('one digit per radix', False)


def h_category():
    w = World()
    i = start_index(w)
    got = []

    def digits(self, index=None):
        got.append(self if index is None else index)
        return ASeq(w.n, lambda j: g(D, j))
    stub(w.CAT.SubCategory, '_category_iter', digits)
    r = w.cat.category(i)
    eq('the index given is split', got, [i])
    eq('one component per radix', r.n if isinstance(r, ASeq) else len(r), w.n)
    k = fresh_int('k', 0)
    E.assume(k < w.n)
    eq('component k is the digit of its position', r[k], g(D, w.n - 1 - k))
    E.cover('category')


class IndexCut(Cut):
    """After m factors the number is V(n-1-m)."""
    name = 'number'

    def __init__(self, w):
        self.w = w

    def match(self, seq, loc):
        return isinstance(seq, ASeq)

    def enter(self, seq, loc):
        vs = [k for k in self.carried if isinstance(loc.get(k), SInt)]
        if len(vs) != 1:
            raise Unsupported('variable of the loop not found')
        self.var = vs[0]
        E.prove('number:all components', same(seq.n, self.w.n - 1))

    def indices(self, seq, loc):
        m = fresh_int('m', 0)
        E.assume_checked(m < seq.n)
        define('V', self.w.n - 2 - m)
        return [m]

    def element(self, seq, i, loc):
        return True, seq.at(i)

    def invariant(self, seq, i, loc):
        return [('the number so far', SBool(num(loc[self.var]) == V(num(self.w.n - 1 - i))))]

    def havoc(self, seq, i, loc):
        return {self.var: SInt(V(num(self.w.n - 1 - i)))}

    def exit_index(self, seq, loc):
        return self.w.n - 1


def h_index():
    w = World()
    n = num(w.n)
    E.assume(V(n - 1) == C(n - 1))
    CUTS['SubCategory.index'] = [IndexCut(w)]
    r = w.cat.index(ASeq(w.n, lambda k: g(C, w.n - 1 - k)))
    eq('the number the components denote', r, g(V, 0))
    E.cover('index')


def h_len():
    w = World()
    r = type(w.cat).__len__(w.cat)
    if w.unlimited:
        E.prove('unlimited', isinstance(r, float) and r == math.inf)
        E.cover('unlimited')
    else:
        eq('the product of the radices', r, g(P, w.n))
        E.cover('limited')


def h_wrong_length():
    w = World()
    m = fresh_int('m', 1)
    E.assume(Not(m == w.n))
    E.prove('a tuple of another length is refused', raises(AssertionError, lambda: w.cat.index(ASeq(m, lambda k: g(C, k)))))
    E.cover('refused')


def h_named(n):
    """Named categories: the same digits under the given names."""
    def h():
        CAT = M('mahjong.record.category')
        unl = E.choose([False, True])
        rad = [fresh_int('t%d' % k, 1) for k in range(n)]
        if unl:
            rad[0] = -1
        names = ['f%d' % k for k in range(n)]
        c = CAT.SubCategory(*rad, caption='cap', names=names)
        plain = CAT.SubCategory(*rad)
        i = fresh_int('i', 0)
        if not unl:
            E.assume(i < type(plain).__len__(plain))
            eq('length', type(c).__len__(c), type(plain).__len__(plain))
        a, b = c.category(i), plain.category(i)
        E.prove('names of the components', a._fields == tuple(names) and type(a).__name__ == 'cap')
        E.prove('an unnamed category gives a plain tuple', type(b) is tuple and len(b) == n)
        for k in range(n):
            eq('component %d' % k, getattr(a, names[k]), b[k])
        E.cover('named')
    return h


# ---------------------------------------------------------------- lemmas (induction over positions)

def h_lemmas():
    q, r, q2, r2, t, a, s, d, p, v, c = (fresh_int(x).t for x in ('q', 'r', 'q2', 'r2', 't', 'a', 's', 'd', 'p', 'v', 'c'))

    def lemma(name, hyp, concl):
        E.prove(name, wrapb(z3.Implies(z3.And(hyp), concl)))
    which = E.choose(['unique', 'rest', 'last digit', 'back', 'forth', 'bound', 'product', 'order'])
    E.cover('lemmas')
    if which == 'unique':
        # |q - q2| * t <= t - 1 forces q == q2
        lemma('q < q2 pushes the product apart', [t > 0, q + 1 <= q2], q2 * t >= (q + 1) * t)
        lemma('quotient and remainder are unique', [t > 0, q * t + r == q2 * t + r2, 0 <= r, r < t, 0 <= r2, r2 < t,
                                                    z3.Implies(q + 1 <= q2, q2 * t >= q * t + t), z3.Implies(q2 + 1 <= q, q * t >= q2 * t + t)],
              z3.And(q == q2, r == r2))
    elif which == 'rest':
        # 0 <= Q(j) < S(j), S(j) = T(j) S(j+1), Q(j) = Q(j+1) T(j) + D(j)  =>  0 <= Q(j+1) < S(j+1)
        lemma('a too large rest', [t > 0, q >= s], q * t >= s * t)
        lemma('the rest stays below the remaining product', [t > 0, 0 <= q * t + d, q * t + d < t * s, 0 <= d, d < t,
                                                             z3.Implies(q >= s, q * t >= s * t), z3.Implies(q <= -1, q * t <= -t)],
              z3.And(0 <= q, q < s))
        lemma('a negative rest', [t > 0, q <= -1], q * t <= -t)
    elif which == 'last digit':
        # at the last position S(n) = 1, so Q(n-1) < T(n-1): the digit is the rest
        lemma('the first component is the whole rest', [t > 0, 0 <= a, a < t, a == q * t + d, 0 <= d, d < t,
                                                        z3.Implies(q >= 1, q * t >= t), z3.Implies(q <= -1, q * t <= -t), z3.Implies(q == 0, q * t == 0)],
              z3.And(q == 0, d == a))
        lemma('instances used', [t > 0], z3.And(z3.Implies(q >= 1, q * t >= t), z3.Implies(q <= -1, q * t <= -t),
                                                z3.Implies(q == 0, q * t == 0)))
    elif which == 'back':
        # index(category(i)): V(j+1) = Q(j+1) and C(j) = D(j)  =>  V(j) = Q(j);  V(0) = Q(0) = i
        lemma('index undoes category', [v == q, c == d, a == q * t + d], v * t + c == a)
    elif which == 'forth':
        # category(index(c)): Q(j) = V(j) and V(j) = V(j+1) T(j) + C(j), 0 <= C(j) < T(j)  =>  Q(j+1) = V(j+1), D(j) = C(j)
        lemma('category undoes index', [t > 0, a == v * t + c, 0 <= c, c < t, a == q * t + d, 0 <= d, d < t,
                                        unique(a, t, q, d, v, c)], z3.And(q == v, d == c))
    elif which == 'bound':
        # 0 <= V(j+1) < S(j+1)  =>  0 <= V(j) < S(j): the index of components within the radices is in range
        lemma('V stays in range', [t > 0, 0 <= v, v <= s - 1, 0 <= c, c < t, v * t <= (s - 1) * t, v * t >= 0],
              z3.And(0 <= v * t + c, v * t + c < t * s))
        lemma('instance used', [t > 0, 0 <= v, v <= s - 1], z3.And(v * t <= (s - 1) * t, v * t >= 0))
    elif which == 'product':
        # P(j) S(j) does not depend on j: P(j+1) S(j+1) = P(j) T(j) S(j+1) = P(j) S(j); hence S(0) = P(n)
        lemma('the product from both sides', [p == a * t, d == t * s], p * s == a * d)
    else:
        # lexicographic order of the components is the order of the numbers: the highest differing position decides
        lemma('order', [t > 0, 0 <= c, c < t, 0 <= d, d < t, q + 1 <= v, v * t >= (q + 1) * t], q * t + c < v * t + d)
        lemma('instance used', [t > 0, q + 1 <= v], v * t >= (q + 1) * t)


# ---------------------------------------------------------------- mixed categories

class Part:
    """A category known by its contract only."""
    named_tuple_class = None

    def __init__(self, w, k):
        self.w, self.k = w, k

    def __len__(self):
        return self.w.length(self.k)

    def category(self, i):
        n = self.w.length(self.k)
        E.prove('precondition: the position lies inside the part', And(i >= 0, i < n))
        return ('part', self.k, i)

    def index(self, t):
        t = tuple(t)
        if not (len(t) == 3 and t[0] == 'part'):
            raise Unsupported('components of a part')
        E.prove('the part gets its own components', same(t[1], self.k))
        return t[2]


class MixedWorld:
    def __init__(self, build=True):
        self.CAT = M('mahjong.record.category')
        self.m = fresh_int('m', 1)
        self.unlimited = E.choose([False, True])
        self.memo, self.watch = {}, []
        E.notes['sum_hook'] = self.sum
        E.notes['bisect_hook'] = self.bisect
        E.assume(A(z3.IntVal(0)) == 0)
        if build:
            stub(self.CAT.MixedCategory, '_accumulate', lambda s: self.ranges())
            self.cat = self.CAT.MixedCategory(self.parts())

    def infinite(self, k):
        return bool(And(self.unlimited, SBool(num(k) == num(self.m) - 1))) if self.unlimited else False

    def length(self, k):
        if self.infinite(k):
            return math.inf
        E.assume(z3.And(L(num(k)) >= 1, A(num(k) + 1) == A(num(k)) + L(num(k))))
        return g(L, k)

    def part(self, k):
        kk = z3.simplify(num(k)).sexpr()
        return self.memo.setdefault(kk, Part(self, k))

    def parts(self):
        return ASeq(self.m, self.part)

    def start(self, k):
        """Where part k begins; at(m) is the total length."""
        if self.unlimited and bool(SBool(num(k) == num(self.m))):
            return math.inf
        return g(A, k)

    def ranges(self):
        return ASeq(self.m + 1, self.start)

    def sum(self, seq, start):
        E.prove('the lengths are added up from zero', same(start, 0) and same(seq.n, self.m))
        k = fresh_int('k', 0)
        E.assume(k < self.m)
        a, b = seq.at(k), self.length(k)
        E.prove('the lengths of all parts', a is b or a == b)
        return math.inf if self.unlimited else g(A, self.m)

    def bisect(self, how, a, x):
        k = fresh_int('k', 0)
        E.assume(k + 1 < a.n)
        E.assume(z3.Implies(num(k) + 1 <= num(self.m) - (1 if self.unlimited else 0),
                            z3.And(L(num(k)) >= 1, A(num(k) + 1) == A(num(k)) + L(num(k)))))
        lo, hi = a.at(k), a.at(k + 1)
        E.prove('precondition of bisect: the list is sorted', lo <= hi)
        p = fresh_int('p', 0)
        E.assume(p <= a.n)
        le = (lambda u, v: u <= v) if how in ('bisect', 'bisect_right') else (lambda u, v: u < v)
        lt = (lambda u, v: u < v) if how in ('bisect', 'bisect_right') else (lambda u, v: u <= v)
        if bool(p > 0):
            E.assume_checked(as_z3bool(le(a.at(p - 1), x)))
        if bool(p < a.n):
            E.assume_checked(as_z3bool(lt(x, a.at(p))))
        for b in self.watch:
            E.assume_checked(z3.And(self.mono(0, b), self.mono(b + 1, p - 1), self.mono(p, b)))
        return p

    def mono(self, u, v):
        """Instance of the lemma 'A is monotone'."""
        return z3.Implies(z3.And(0 <= num(u), num(u) <= num(v), num(v) <= num(self.m) - (1 if self.unlimited else 0)), A(num(u)) <= A(num(v)))


class AccCut(Cut):
    """After k lengths the sum is A(k)."""
    name = 'accumulate'

    def __init__(self, w):
        self.w = w

    def match(self, seq, loc):
        return isinstance(seq, ASeq)

    def enter(self, seq, loc):
        vs = [k for k in self.carried if isinstance(loc.get(k), (int, SInt))]
        if len(vs) != 1:
            raise Unsupported('variable of the loop not found')
        self.var = vs[0]
        E.prove('accumulate:all parts', same(seq.n, self.w.m))

    def indices(self, seq, loc):
        k = fresh_int('k', 0)
        E.assume_checked(k < seq.n)
        self.i = k
        return [k]

    def element(self, seq, i, loc):
        return True, seq.at(i)

    def invariant(self, seq, i, loc):
        w = self.w.start(i)
        v = loc[self.var]
        return [('sum of the lengths so far', v == w)]

    def havoc(self, seq, i, loc):
        return {self.var: self.w.start(i)}

    def exit_index(self, seq, loc):
        return seq.n


def h_accumulate():
    w = MixedWorld()
    _restore = vars(w.CAT.MixedCategory)['_accumulate']
    import props.lib as lib
    real = next(v for o, n, v, had in lib._undo if o is w.CAT.MixedCategory and n == '_accumulate')
    cut = AccCut(w)
    CUTS['MixedCategory._accumulate'] = [cut]
    it = iter(real(w.cat))
    x = next(it)
    eq('the first part begins at zero', x, 0)
    try:
        x = next(it)
    except StopIteration:
        E.cover('end')
        return
    E.cover('part')
    want = w.start(cut.i + 1)
    E.prove('the next part begins where this one ends', x == want)
    next(it)
    E.prove('one boundary per part', False)


def position(w):
    """An index inside the mixed category."""
    i = fresh_int('i', 0)
    if not w.unlimited:
        E.assume(i < g(A, w.m))
    return i


def h_mixed_category():
    w = MixedWorld()
    i = position(w)
    r = w.cat.category(i)
    E.prove('part, then components', isinstance(r, tuple) and len(r) == 4 and r[1] == 'part')
    b = r[0]
    E.prove('the part exists', And(b >= 0, b < w.m))
    eq('the components are those of that part', r[2], b)
    eq('the position counts from the start of the part', r[3], i - g(A, b))
    E.prove('the part holds the index', And(g(A, b) <= i, True if w.infinite(b) else i < w.start(b) + w.length(b)))
    E.cover('category')
    eq('index undoes category', w.cat.index(r), i)


def h_mixed_index():
    w = MixedWorld()
    b = fresh_int('b', 0)
    E.assume(b < w.m)
    j = fresh_int('j', 0)
    if not w.infinite(b):
        E.assume(j < w.length(b))
    x = w.cat.index((b, 'part', b, j))
    eq('index: start of the part plus the position', x, g(A, b) + j)
    E.assume(w.mono(0, b))
    w.watch = [b]
    r = w.cat.category(x)
    E.cover('index')
    eq('category undoes index: part', r[0], b)
    eq('category undoes index: position', r[3], j)


def h_mixed_len():
    w = MixedWorld()
    r = type(w.cat).__len__(w.cat)
    if w.unlimited:
        E.prove('unlimited', isinstance(r, float) and r == math.inf)
    else:
        eq('the sum of the lengths', r, g(A, w.m))
    E.cover('len')


def h_mixed_lemma():
    u, v = fresh_int('u', 0), fresh_int('v', 0)
    # induction over v: A(u) <= A(v), A(v+1) = A(v) + L(v), L(v) >= 1  =>  A(u) <= A(v+1)
    E.prove('A is monotone: step', wrapb(z3.Implies(z3.And(A(u.t) <= A(v.t), A(v.t + 1) == A(v.t) + L(v.t), L(v.t) >= 1), A(u.t) <= A(v.t + 1))))
    E.cover('lemma')


def h_mixed_named(m):
    """Merged names: up to three named parts of one or two radices."""
    def h():
        CAT = M('mahjong.record.category')
        shape = [E.choose([1, 2]) for _ in range(m)]
        parts = [CAT.SubCategory(*[fresh_int('t%d%d' % (k, i), 1) for i in range(s)], caption='p%d' % k,
                                 names=['f%d%d' % (k, i) for i in range(s)]) for k, s in enumerate(shape)]
        c = CAT.MixedCategory(parts, caption='mix', field_name='which')
        plain = CAT.MixedCategory(parts)
        i = fresh_int('i', 0)
        E.assume(i < type(plain).__len__(plain))
        a, b = c.category(i), plain.category(i)
        k = b[0]
        E.prove('fields: the part, then its own names', a._fields == ('which',) + tuple('f%d%d' % (k, x) for x in range(shape[k])))
        E.prove('same components', tuple.__len__(a) == len(b))
        for x, y in zip(a, b):
            eq('component', x, y)
        eq('index undoes category', c.index(a), i)
        E.cover('named')
    return h


def harnesses(tier):
    hs = [Harness('digits', h_iter, FUNCS, ['end', 'digit']), Harness('category', h_category, FUNCS, ['category']),
          Harness('index', h_index, FUNCS, ['index']), Harness('length', h_len, FUNCS, ['limited', 'unlimited']),
          Harness('wrong number of components', h_wrong_length, FUNCS, ['refused']), Harness('lemmas', h_lemmas, FUNCS, ['lemmas'])]
    hs += [Harness('named, %d radices (bounded)' % n, h_named(n), FUNCS, ['named']) for n in (1, 2, 3, 4)]
    hs += [Harness('accumulate', h_accumulate, FUNCS, ['end', 'part']), Harness('mixed category', h_mixed_category, FUNCS, ['category']),
           Harness('mixed index', h_mixed_index, FUNCS, ['index']), Harness('mixed length', h_mixed_len, FUNCS, ['len']),
           Harness('mixed lemma', h_mixed_lemma, FUNCS, ['lemma'])]
    hs += [Harness('mixed named, %d parts (bounded)' % m, h_mixed_named(m), FUNCS, ['named']) for m in (1, 2, 3)]
    return hs
