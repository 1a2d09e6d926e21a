"""pv.shims: symbolic-aware builtins and models of the libraries the repository imports.

Every model listed in MODULES is part of the trusted base (reported in the evidence).  tools/conformance.py compares
the model of Counter with the real one and runs the instrumented code, with these models, against the oracles of concrete/.
"""
import builtins as _b
import bisect as _bisect
import collections as _collections
import functools as _functools
import collections.abc as _abc
import re as _re
import sys
import types
import z3
from pv.core import (E, SBool, SInt, SReal, Unsupported, wrap, wrapb, num, ite, as_z3bool, has_token,
                     TOK_OPEN, TOK_CLOSE)
from pv.model import group_guarded, SymSet, ASeq, aseq, PCounter, GSeq, RunSeq, Abstract, truth, is_true, is_false, T, conj, disj, neg, gite, norm
from pv import loops


# ---------------------------------------------------------------- builtins
class _DispatchMeta(type):
    def __call__(cls, *a, **k):
        return cls._pv_call(*a, **k)

    def __instancecheck__(cls, x):
        return cls._pv_inst(x)

    def __subclasscheck__(cls, c):
        return _b.issubclass(c, cls._pv_real)

    def __getattr__(cls, n):
        return getattr(cls._pv_real, n)

    def __eq__(cls, o):
        return o is cls or o is cls._pv_real

    def __hash__(cls):
        return hash(cls._pv_real)

    def __or__(cls, o):
        return cls._pv_real | o


def _is_abstract(x):
    return isinstance(x, Abstract) or (hasattr(type(x), 'pv_abstract'))


class pv_int(metaclass=_DispatchMeta):
    _pv_real = int

    @staticmethod
    def _pv_call(x=0, *a):
        if getattr(x, 'pv_opaque', False):
            raise Unsupported('int() of an arbitrary string')
        if isinstance(x, SInt):
            return x
        if isinstance(x, SBool):
            return ite(x, 1, 0)
        if isinstance(x, SReal):
            return real_to_int(x)
        if has_token(x):
            v = E.untoken(x)
            if v is None:
                raise Unsupported('int() of a string around a symbolic value')
            if isinstance(v, SInt):
                return v
            if isinstance(v, SReal):
                raise ValueError('invalid literal for int() with base 10')
            return pv_int_token(v)
        return int(x, *a)

    @staticmethod
    def _pv_inst(x):
        return _b.isinstance(x, (int, SInt, SBool))


def pv_int_token(v):
    raise Unsupported('int() of a symbolic %s' % type(v).__name__)


def real_to_int(x):
    """int(float): truncation towards zero."""
    t = z3.simplify(x.t)
    if z3.is_to_real(t):
        return wrap(t.arg(0))
    return wrap(z3.If(t >= 0, z3.ToInt(t), -z3.ToInt(-t)))


class pv_float(metaclass=_DispatchMeta):
    _pv_real = float

    @staticmethod
    def _pv_call(x=0.0):
        if getattr(x, 'pv_opaque', False):
            raise Unsupported('float() of an arbitrary string')
        if isinstance(x, SReal):
            return x
        if isinstance(x, SInt):
            return SReal(z3.ToReal(x.t))
        if has_token(x):
            v = E.untoken(x)
            if isinstance(v, SInt):
                return SReal(z3.ToReal(v.t))
            if isinstance(v, SReal):
                return v
            raise Unsupported('float() of a string around a symbolic value')
        return float(x)

    @staticmethod
    def _pv_inst(x):
        return _b.isinstance(x, (float, SReal))


class pv_list(metaclass=_DispatchMeta):
    _pv_real = list

    @staticmethod
    def _pv_call(x=()):
        if isinstance(x, PCounter):
            x = x.keys()
        if isinstance(x, GSeq):
            if x.concrete() and x.order_ok:
                return [v for g, v in x.items if is_true(g)]
            return x.copy()
        if isinstance(x, RunSeq):
            return x
        if hasattr(x, 'pv_as_list'):
            return x.pv_as_list()
        if type(x) is tuple and len(x) == 1 and getattr(type(x[0]), 'pv_splat', False):
            return x[0].pv_as_list()        # variable arguments of unknown number
        if isinstance(x, types.GeneratorType) and E.notes.get('drain_hook'):
            return E.notes['drain_hook'](x)
        return list(x)

    @staticmethod
    def _pv_inst(x):
        return _b.isinstance(x, (list, GSeq, RunSeq)) or getattr(type(x), 'pv_is_list', False)


class pv_tuple(metaclass=_DispatchMeta):
    _pv_real = tuple

    @staticmethod
    def _pv_call(x=()):
        if hasattr(x, 'pv_as_tuple'):
            return x.pv_as_tuple()
        if isinstance(x, (GSeq, RunSeq)):
            return pv_list(x)
        return tuple(x)

    @staticmethod
    def _pv_inst(x):
        return _b.isinstance(x, tuple)


def pv_zip(*its):
    if any(isinstance(x, ASeq) for x in its):
        seqs = [aseq(x) for x in its]
        n = seqs[0].n
        for s in seqs[1:]:
            if isinstance(n, int) and isinstance(s.n, int):
                n = min(n, s.n)
            else:
                n = ite(s.n < n, s.n, n)
        return ASeq(n, lambda k: tuple(s.at(k) for s in seqs), 'zip')
    return zip(*its)


def pv_enumerate(it, start=0):
    if isinstance(it, ASeq):
        return ASeq(it.n, lambda k: (k + start, it.at(k)), it.tag)
    return enumerate(it, start)


def pv_reversed(it):
    if isinstance(it, ASeq):
        return it[::-1]
    return reversed(it)


class pv_dict(metaclass=_DispatchMeta):
    _pv_real = dict

    @staticmethod
    def _pv_call(*a, **k):
        if len(a) == 1 and hasattr(a[0], 'pv_map'):
            from pv.model import PMap
            r = PMap.of(a[0])
            return r.merged(PMap.of(k)) if k else r.copy()
        if len(a) == 1 and isinstance(a[0], (GSeq, PCounter)):
            x = a[0].items() if isinstance(a[0], PCounter) else a[0]
            return guarded_dict(x, k)
        return dict(*a, **k)

    @staticmethod
    def _pv_inst(x):
        return _b.isinstance(x, (dict, PCounter)) or getattr(type(x), 'pv_is_dict', False)


def guarded_dict(pairs, more=None):
    from pv.model import PDict
    if pairs.concrete() and pairs.order_ok:
        return dict([v for g, v in pairs.items if is_true(g)], **(more or {}))
    r = PDict(pairs.items, pairs.order_ok)
    if more:
        r.update(more)
    return r


def _symbolic_elements(xs):
    return any(isinstance(x, SInt) for x in xs)


def pv_symset(xs):
    """The set of some numbers: every feasible value of a symbolic number is a candidate."""
    g = {}
    for x in xs:
        if isinstance(x, SInt):
            for k in E.feasible(x.t):
                g[k] = disj(g.get(k, False), norm(x.t == k))
        else:
            g[x] = True
    return SymSet(g)


def pv_setlit(*xs):
    return pv_symset(xs) if _symbolic_elements(xs) else set(xs)


def pv_inplace(left, right):
    """Right operand of an in-place operation on `left`: an ordinary set can only take ordinary sets in place."""
    if isinstance(right, SymSet) and _b.isinstance(left, set):
        return {k for k, g in list(right.g.items()) if E.branch(g)}
    return right


class pv_set(metaclass=_DispatchMeta):
    _pv_real = set

    @staticmethod
    def _pv_call(x=()):
        if hasattr(x, 'pv_as_set'):
            return x.pv_as_set()
        if isinstance(x, (list, tuple)) and _symbolic_elements(x):
            return pv_symset(x)
        return set(x)

    @staticmethod
    def _pv_inst(x):
        return _b.isinstance(x, set) or getattr(type(x), 'pv_is_set', False)


def pv_len(x):
    f = getattr(type(x), '__pv_len__', None)
    if f is not None:
        return f(x)
    return len(x)


def pv_sum(it, start=0):
    if isinstance(it, PCounter):
        it = it.keys()
    if isinstance(it, GSeq):
        r = start
        for g, v in it.items:
            r = r + gite(g, v, 0)
        return r
    if hasattr(it, 'pv_sum'):
        return it.pv_sum(start)
    r = start
    for v in it:
        r = r + v
    return r


def pv_sorted(it, *, key=None, reverse=False):
    if isinstance(it, PCounter):
        it = it.keys()
    if isinstance(it, SymSet):
        it = it.pv_as_list()
    if isinstance(it, GSeq):
        items = sorted(it.items, key=_KeyOf(key), reverse=reverse)
        return GSeq(items, True, it.tag, it.owner)
    if isinstance(it, Abstract) and hasattr(it, 'pv_sorted'):
        return it.pv_sorted(key, reverse)
    if E.notes.get('sorted_list_hook'):
        it = list(it)
        r = E.notes['sorted_list_hook'](it, key, reverse)
        if r is not None:
            return r
    return sorted(it, key=key, reverse=reverse)


def _KeyOf(key):
    if key is None:
        return lambda gv: gv[1]
    return lambda gv: key(gv[1])


def pv_all(it):
    if isinstance(it, GSeq):
        return sb(conj(*[disj(neg(g), truth(v)) for g, v in it.items]))
    if hasattr(it, 'pv_all'):
        return it.pv_all()
    return all(it)


def pv_any(it):
    if isinstance(it, GSeq):
        return sb(disj(*[conj(g, truth(v)) for g, v in it.items]))
    if hasattr(it, 'pv_any'):
        return it.pv_any()
    return any(it)


def _minmax(real, lt):
    def f(*a, **k):
        if len(a) == 1 and isinstance(a[0], GSeq):
            raise Unsupported('min/max over a conditional sequence')
        if len(a) == 1 and hasattr(a[0], 'pv_minmax'):
            return a[0].pv_minmax(real.__name__, k)
        return real(*a, **k)
    return f


pv_min = _minmax(min, None)
pv_max = _minmax(max, None)


def pv_comp(kind, it, native, elt, cond):
    if isinstance(it, PCounter):
        it = it.keys()
    if kind == 'dict' and isinstance(it, GSeq):
        return guarded_dict(it.map(elt, cond))
    if kind == 'dict' and not hasattr(it, 'pv_map'):
        return native(it)
    if isinstance(it, GSeq) and not (it.concrete() and it.order_ok):
        r = it.map(elt, cond)
        if kind == 'set':
            return pv_set(r)
        return r
    f = getattr(it, 'pv_comp', None)
    if f is not None and getattr(type(it), 'pv_abstract', False):
        return f(kind, elt, cond)
    return native(it)


class pv_map(metaclass=_DispatchMeta):
    _pv_real = map

    @staticmethod
    def _pv_call(f, *its):
        if len(its) == 1 and _is_abstract(its[0]) or len(its) == 1 and isinstance(its[0], PCounter):
            return pv_comp('gen', its[0], lambda it: map(f, it), f, None)
        return map(f, *its)

    @staticmethod
    def _pv_inst(x):
        return _b.isinstance(x, map)


class pv_filter(metaclass=_DispatchMeta):
    _pv_real = filter

    @staticmethod
    def _pv_call(f, it):
        if _is_abstract(it) or isinstance(it, PCounter):
            g = f if f is not None else (lambda x: x)
            return pv_comp('gen', it, lambda it: filter(f, it), lambda x: x, g)
        return filter(f, it)

    @staticmethod
    def _pv_inst(x):
        return _b.isinstance(x, filter)


def pv_comp2(kind, it, native, inner, cond):
    """[... for a in it for b in inner(a)]"""
    if isinstance(it, PCounter):
        it = it.keys()
    flat = E.notes.get('flat')          # the harness allows eager evaluation
    f = getattr(it, 'pv_flat', None)
    if f is not None and getattr(type(it), 'pv_abstract', False):
        return f(kind, inner, cond)
    if isinstance(it, GSeq) and (flat or not (it.concrete() and it.order_ok)):
        parts, ordered = it.items, it.order_ok
    elif flat and _b.isinstance(it, (list, tuple, range)):
        parts, ordered = [(True, x) for x in it], True
    else:
        return native(it)
    out, abstract = [], isinstance(it, GSeq)
    for g, x in parts:
        if cond is not None:
            g = conj(g, truth(cond(x)))
        if g is False:
            continue
        r = inner(x)
        if isinstance(r, SymSet):
            r = r.pv_as_list()
        if isinstance(r, GSeq):
            abstract = True
            ordered = ordered and r.order_ok
            out += [(conj(g, h), v) for h, v in r.items]
        else:
            out += [(g, v) for v in r]
    if not abstract and all(g is True for g, _ in out):
        r = [v for _, v in out]
        return r if kind != 'set' else pv_set(r)
    r = GSeq(out, ordered)
    return pv_set(r) if kind == 'set' else r


def pv_join(sep, parts):
    hook = E.notes.get('join_hook')
    return hook(sep, parts) if hook else sep.join(parts)


_SPEC = _re.compile(r'%(%|([-#0 +]*[0-9]*(?:\.[0-9]+)?)([sdrifg]))')


def pv_format(fmt, args):
    """fmt % args, where numbers may be symbolic: %d of an integer and %s of a number print the number itself, any other
    printing of a symbolic number is a text of its own for each format and number."""
    vals = args if _b.isinstance(args, tuple) else (args,)
    if not any(isinstance(v, (SInt, SReal, SBool)) for v in vals):
        return fmt % args
    out, pos, i = [], 0, 0
    for m in _SPEC.finditer(fmt):
        if '%' in fmt[pos:m.start()]:
            raise Unsupported('format %r' % fmt)
        out.append(fmt[pos:m.start()])
        pos = m.end()
        if m.group(1) == '%':
            out.append('%')
            continue
        if i >= len(vals):
            raise TypeError('not enough arguments for format string')
        v = vals[i]
        i += 1
        if isinstance(v, SBool):
            v = E.branch(v.t)
        if not isinstance(v, (SInt, SReal)):
            out.append(m.group(0) % (v,))
        elif not m.group(2) and (m.group(3) in 'sr' or m.group(3) in 'di' and isinstance(v, SInt)):
            out.append(str(v))
        else:
            t = v.t if isinstance(v, SReal) or m.group(3) not in 'fg' else z3.ToReal(v.t)
            out.append(E.token((m.group(0), v), (m.group(0), z3.simplify(t).sexpr())))
    if '%' in fmt[pos:]:
        raise Unsupported('format %r' % fmt)
    if i < len(vals):
        raise TypeError('not all arguments converted during string formatting')
    out.append(fmt[pos:])
    return ''.join(out)


def pv_dictlit(*parts):
    """{**a, k: v, ...} from left to right."""
    r = {}
    for spread, a, b in parts:
        if not spread:
            r[a] = b
        elif hasattr(a, 'pv_map') or hasattr(r, 'pv_map'):
            from pv.model import PMap
            r = PMap.of(r).merged(PMap.of(a))
        else:
            r.update(a)
    return r


def sb(g):
    return g if isinstance(g, bool) else SBool(g)


def pv_not(x):
    return sb(neg(truth(x)))


def _under(g, f):
    """Evaluates f as the part of an expression that is only reached under condition g."""
    u = E.notes.setdefault('under', [])
    u.append(g)
    try:
        return f()
    finally:
        u.pop()


def pv_and(*fs):
    r = []
    for f in fs:
        t = norm(truth(_under(conj(*r), f) if r else f()))
        if t is False:
            return False
        r.append(t)
    return sb(conj(*r))


def pv_or(*fs):
    r = []
    for f in fs:
        t = norm(truth(_under(neg(disj(*r)), f) if r else f()))
        if t is True:
            return True
        r.append(t)
    return sb(disj(*r))


def pv_ite(c, a, b):
    t = norm(truth(c))
    if t is True:
        return a()
    if t is False:
        return b()
    x, y = _under(t, a), _under(neg(t), b)
    if x is y:
        return x
    if type(x) is type(y) and isinstance(x, (SInt, SReal)) or (isinstance(x, (int, SInt)) and isinstance(y, (int, SInt))
                                                              and not isinstance(x, bool) and not isinstance(y, bool)):
        return ite(t, x, y)
    return x if E.branch(t) else y


class pv_range(metaclass=_DispatchMeta):
    _pv_real = range

    @staticmethod
    def _pv_call(*a):
        if any(isinstance(x, SInt) for x in a):
            hook = E.notes.get('range_hook')
            if hook:
                r = hook(*a)
                if r is not None:
                    return r
            return range(*[x.__index__() for x in a])
        return range(*a)

    @staticmethod
    def _pv_inst(x):
        return _b.isinstance(x, range)


def pv_import(name, globals=None, locals=None, fromlist=(), level=0):
    if level == 0 and name in MODULES:
        m = MODULES[name]()
        if fromlist or '.' not in name:
            return m
        top = types.SimpleNamespace()
        cur = top
        parts = name.split('.')
        for p in parts[1:-1]:
            n = types.SimpleNamespace()
            setattr(cur, p, n)
            cur = n
        setattr(cur, parts[-1], m)
        return top
    return _b.__import__(name, globals, locals, fromlist, level)


OVERRIDES = {
    '__import__': pv_import, 'map': pv_map, 'filter': pv_filter, '__pv_format__': pv_format, 'int': pv_int, 'float': pv_float, 'list': pv_list, 'dict': pv_dict, 'set': pv_set,
    'len': pv_len, 'sum': pv_sum, 'sorted': pv_sorted, 'all': pv_all, 'any': pv_any, 'min': pv_min, 'max': pv_max,
    'range': pv_range, 'tuple': pv_tuple, 'zip': pv_zip, 'enumerate': pv_enumerate, 'reversed': pv_reversed,
    '__pv_setlit__': pv_setlit, '__pv_inplace__': pv_inplace, '__pv_for__': loops.pv_for, '__pv_while__': loops.pv_while, '__pv_comp__': pv_comp, '__pv_comp2__': pv_comp2, '__pv_not__': pv_not, '__pv_and__': pv_and,
    '__pv_or__': pv_or, '__pv_ite__': pv_ite, '__pv_dictlit__': pv_dictlit, '__pv_join__': pv_join,
}


def builtins_for(name):
    d = dict(vars(_b))
    d.update(OVERRIDES)
    return d


# ---------------------------------------------------------------- collections
def m_collections():
    m = types.ModuleType('collections')
    for n in _collections.__all__:
        setattr(m, n, getattr(_collections, n))
    for n in _abc.__all__:
        setattr(m, n, getattr(_abc, n))
    m.Counter = PCounter
    m.abc = _abc
    return m


# ---------------------------------------------------------------- struct / bitstruct
class PBytes:
    """A big-endian byte string of `nbits` bits, most significant first; a bit is a Python bool or a z3 formula."""

    def __init__(self, bits):
        self.bits = bits
        self.nbits = len(bits)


def from_bits(bits):
    """The unsigned integer with these bits (most significant first), remembered with its bits."""
    if all(isinstance(b, bool) for b in bits):
        return int(''.join('1' if b else '0' for b in bits) or '0', 2)
    n = len(bits)
    key = tuple(b if isinstance(b, bool) else b.get_id() for b in bits)
    hit = _bits_memo.get(key)
    if hit is not None:
        if isinstance(hit[0], SInt):
            E.notes.setdefault('bits', {})[hit[0].t.get_id()] = (hit[0].t, hit[1])
        return hit[0]
    v = wrap(z3.Sum([z3.If(b, 1 << (n - 1 - i), 0) for i, b in enumerate(bits) if b is not False and b is not True]
                    + [z3.IntVal(sum(1 << (n - 1 - i) for i, b in enumerate(bits) if b is True))]))
    if isinstance(v, SInt):
        E.notes.setdefault('bits', {})[v.t.get_id()] = (v.t, list(bits))
    _bits_memo[key] = (v, list(bits))      # pure function of the bits; the references keep the AST ids alive
    return v


_bits_memo = {}


def to_bits(v, n):
    """Bits of an integer known to lie in [0, 2**n), most significant first."""
    if isinstance(v, (bool, int)):
        return [bool((int(v) >> (n - 1 - i)) & 1) for i in range(n)]
    if isinstance(v, SBool):
        return [False] * (n - 1) + [v.t]
    e = E.notes.get('bits', {}).get(v.t.get_id())
    if e is not None:
        bits = e[1]
        if len(bits) <= n:
            return [False] * (n - len(bits)) + bits
        if all(b is False for b in bits[:len(bits) - n]):
            return bits[len(bits) - n:]
    # definition: a fresh bit vector whose value is v
    bits = [z3.Bool(E.fresh_name('bit')) for _ in range(n)]
    E.assume(num(v) == z3.Sum([z3.If(b, 1 << (n - 1 - i), 0) for i, b in enumerate(bits)]))
    E.notes.setdefault('bits', {})[v.t.get_id()] = (v.t, bits)
    return bits


def known_bits(v):
    e = E.notes.get('bits', {}).get(v.t.get_id()) if isinstance(v, SInt) else None
    return len(e[1]) if e else None


def m_struct():
    m = types.ModuleType('struct')

    class error(Exception):
        pass

    def pack(fmt, *vals):
        if fmt == '>H' and len(vals) == 1:
            v = vals[0]
            if not isinstance(v, (int, SInt)):
                raise error('required argument is not an integer')
            k = known_bits(v)
            if (k is None or k > 16) and not (0 <= v and v <= 65535):
                raise error('ushort format requires 0 <= number <= 65535')
            return PBytes(to_bits(v, 16))
        raise Unsupported('struct.pack %s' % fmt)

    def unpack(fmt, data):
        if fmt == '>H':
            if data.nbits != 16:
                raise error('unpack requires a buffer of 2 bytes')
            return (from_bits(data.bits),)
        raise Unsupported('struct.unpack %s' % fmt)
    m.pack, m.unpack, m.error = pack, unpack, error
    return m


def m_bitstruct():
    m = types.ModuleType('bitstruct')

    class Error(Exception):
        pass

    class Compiled:
        def __init__(self, fmt):
            if not fmt.startswith('>'):
                raise Unsupported('bitstruct format %r' % fmt)
            self.fields = []
            for t, n in _re.findall(r'([a-z])(\d+)', fmt):
                if t not in 'ub':
                    raise Unsupported('bitstruct field type %r' % t)
                self.fields.append((t, int(n)))
            if '>' + ''.join('%s%d' % f for f in self.fields) != fmt:
                raise Unsupported('bitstruct format %r' % fmt)
            self.total = sum(n for _, n in self.fields)

        def unpack(self, data):
            if data.nbits < self.total:
                raise Error('unpack requires at least %d bits' % self.total)
            off = 0
            out = []
            for t, n in self.fields:
                bits = data.bits[off:off + n]
                out.append(from_bits(bits) if t == 'u' else sb(disj(*bits)))
                off += n
            return tuple(out)

        def pack(self, *vals):
            if len(vals) < len(self.fields):
                raise Error('pack expected %d item(s) for packing (got %d)' % (len(self.fields), len(vals)))
            bits = []
            for (t, n), v in zip(self.fields, vals):
                if t == 'b':
                    bits += [False] * (n - 1) + [norm(truth(v))]
                    continue
                k = known_bits(v)
                if (k is None or k > n) and not (0 <= v and v < (1 << n)):
                    raise Error('value out of range')
                bits += to_bits(v, n)
            return PBytes(bits + [False] * (-self.total % 8))
    m.compile = Compiled
    m.Error = Error
    return m


# ---------------------------------------------------------------- re
_DIGITS = ['7', '31', '105', '4', '90', '118']


class PRegex:
    """Regular expressions over strings with embedded symbolic numbers.

    A number token stands for an unknown digit string.  The pattern is run with several digit strings of
    different lengths in its place; the answer is used only if all runs agree on where the tokens fall."""

    def __init__(self, pattern, flags=0):
        self.rx = _re.compile(pattern, flags)
        self.pattern = self.rx.pattern

    def _sub(self, s, digits):
        out, back, i = [], [], 0
        pos = 0
        while i < len(s):
            if s[i] == TOK_OPEN:
                j = s.index(TOK_CLOSE, i)
                out.append(digits)
                back.append((pos, pos + len(digits), s[i:j + 1]))
                pos += len(digits)
                i = j + 1
            else:
                out.append(s[i])
                pos += 1
                i += 1
        return ''.join(out), back

    def _unsub(self, text, span, back):
        a, b = span
        if a < 0:
            return None
        r, i = '', a
        while i < b:
            for s, e, tok in back:
                if s == i:
                    if e > b:
                        raise Unsupported('regular expression splits a symbolic number')
                    r += tok
                    i = e
                    break
            else:
                for s, e, tok in back:
                    if s < i < e:
                        raise Unsupported('regular expression splits a symbolic number')
                r += text[i]
                i += 1
        return r

    def _run(self, s, how):
        if not has_token(s):
            return how(self.rx, s, None)
        res = None
        for d in _DIGITS:
            text, back = self._sub(s, d)
            ms = how(self.rx, text, back)
            view = [None if m is None else tuple(self._unsub(text, m.span(g), back)
                                                 for g in range(0, (m.re.groups or 0) + 1)) for m in ms]
            if res is None:
                res = view
            elif res != view:
                raise Unsupported('regular expression depends on the digits of a symbolic number')
        return [None if v is None else PMatch(v) for v in res]

    def match(self, s):
        r = self._run(s, lambda rx, t, b: [rx.match(t)])
        return r[0]

    def fullmatch(self, s):
        return self._run(s, lambda rx, t, b: [rx.fullmatch(t)])[0]

    def search(self, s):
        return self._run(s, lambda rx, t, b: [rx.search(t)])[0]

    def finditer(self, s):
        if hasattr(s, 'pv_finditer'):
            return s.pv_finditer(self.rx)
        return iter(self._run(s, lambda rx, t, b: list(rx.finditer(t))))

    def sub(self, rep, s):
        if has_token(s):
            raise Unsupported('re.sub over a symbolic value')
        return self.rx.sub(rep, s)


class PMatch:
    def __init__(self, groups):
        self.g = groups

    def group(self, *ns):
        if not ns:
            return self.g[0]
        if len(ns) == 1:
            return self.g[ns[0]]
        return tuple(self.g[n] for n in ns)

    def groups(self):
        return tuple(self.g[1:])


def m_re():
    m = types.ModuleType('re')
    for n in dir(_re):
        if not n.startswith('__'):
            setattr(m, n, getattr(_re, n))
    m.compile = PRegex
    m.match = lambda p, s, flags=0: PRegex(p, flags).match(s)
    m.search = lambda p, s, flags=0: PRegex(p, flags).search(s)
    m.sub = lambda p, r, s: PRegex(p).sub(r, s)
    m.finditer = lambda p, s: PRegex(p).finditer(s)
    return m


# ---------------------------------------------------------------- functools / bisect
def pv_reduce(f, it, *init):
    if hasattr(it, 'pv_reduce'):
        return it.pv_reduce(f, *init)
    if isinstance(it, ASeq) and not isinstance(it.n, int):
        hook = E.notes.get('reduce_hook')
        if hook:
            return hook(f, it, *init)
        raise Unsupported('reduce over a sequence of unknown length')
    return _functools.reduce(f, it, *init)


def m_functools():
    m = types.ModuleType('functools')
    for n in _functools.__all__:
        setattr(m, n, getattr(_functools, n))
    m.reduce = pv_reduce
    return m


def m_bisect():
    m = types.ModuleType('bisect')

    def wrap_(name):
        real = getattr(_bisect, name)

        def f(a, x, *r, **k):
            if isinstance(a, ASeq):
                hook = E.notes.get('bisect_hook')
                if hook:
                    return hook(name, a, x)
                raise Unsupported('bisect in a sequence of unknown length')
            return real(a, x, *r, **k)
        return f
    for n in ('bisect', 'bisect_left', 'bisect_right', 'insort', 'insort_left', 'insort_right'):
        setattr(m, n, wrap_(n))
    return m


def m_itertools():
    import itertools as _it
    m = types.ModuleType('itertools')
    for n in vars(_it):
        if not n.startswith('_'):
            setattr(m, n, getattr(_it, n))

    def groupby(it, key=None):
        if isinstance(it, GSeq) and (it.sorted_by is not None or not (it.concrete() and it.order_ok)):
            return group_guarded(it, key)
        return _it.groupby(it, key)

    class chain:
        def __new__(cls, *its):
            return cls.from_iterable(its)

        @staticmethod
        def from_iterable(its):
            if isinstance(its, (list, tuple)) and any(isinstance(i, GSeq) for i in its):
                r = GSeq([])
                for i in its:
                    r = r + (i if isinstance(i, GSeq) else list(i))
                return r
            return _it.chain.from_iterable(its)
    def product(*its, repeat=1):
        if isinstance(repeat, SInt):
            hook = E.notes.get('product')
            if hook is not None:
                return hook(its, repeat)
            repeat = repeat.__index__()
        return _it.product(*its, repeat=repeat)
    m.groupby, m.chain, m.product = groupby, chain, product
    return m


# ---------------------------------------------------------------- placeholders
class _Opaque(types.ModuleType):
    """A library that is only imported: using it is outside the verified subset."""

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)

        def missing(*a, **k):
            raise Unsupported('%s.%s is outside the verified subset' % (self.__name__, n))
        return missing


def opaque(name):
    return lambda: _Opaque(name)


class _Logger:
    def __getattr__(self, n):
        return lambda *a, **k: None


def m_loguru():
    m = types.ModuleType('loguru')
    m.logger = _Logger()
    return m


def m_logging():
    m = types.ModuleType('logging')
    for n in ('debug', 'info', 'warning', 'error'):
        setattr(m, n, lambda *a, **k: None)
    return m


def m_random():
    m = types.ModuleType('random')

    def choices(population, weights=None, *, cum_weights=None, k=1):
        hook = E.notes.get('random_choices')
        if hook is None:
            raise Unsupported('random.choices without a contract')
        return hook(population, weights, k)
    m.choices = choices
    return m


def m_json():
    import json as _json
    m = types.ModuleType('json')
    m.JSONDecodeError = _json.JSONDecodeError

    def dumps(x, *a, **k):
        hook = E.notes.get('json_dumps')
        if hook:
            r = hook(x)
            if r is not None:
                return r
        return _json.dumps(x, *a, **k)

    def loads(s, *a, **k):
        hook = E.notes.get('json_loads')
        if hook:
            r = hook(s)
            if r is not None:
                return r[0]
        return _json.loads(s, *a, **k)
    m.dumps, m.loads = dumps, loads
    return m


def m_jinja2():
    m = types.ModuleType('jinja2')
    op = _Opaque('jinja2')
    for n in ('Environment', 'select_autoescape', 'PackageLoader', 'FileSystemLoader'):
        setattr(m, n, getattr(op, n))
    return m


_cache = {}


def cached(f):
    def g():
        if f not in _cache:
            _cache[f] = f()
        return _cache[f]
    return g


MODULES = {
    'collections': cached(m_collections),
    'struct': cached(m_struct),
    'functools': cached(m_functools),
    'bisect': cached(m_bisect),
    'itertools': cached(m_itertools),
    'bitstruct': cached(m_bitstruct),
    're': cached(m_re),
    'loguru': cached(m_loguru),
    'logging': cached(m_logging),
    'random': cached(m_random),
    'json': cached(m_json),
    'pandas': cached(opaque('pandas')),
    'numpy': cached(opaque('numpy')),
    'requests': cached(opaque('requests')),
    'pkg_resources': cached(opaque('pkg_resources')),
    'jinja2': cached(m_jinja2),
}
