"""Shared vocabulary of the contracts: tile kinds, ghost tables, loading of the real modules."""
import z3
from pv.core import (E, SBool, SInt, SReal, fresh_int, fresh_bool, fresh_real, ite, And, Or, Not, Implies, Iff, num,
                     as_z3bool, wrap, wrapb, Unsupported, Undecided, Infeasible, PathEnd, OpaqueStr)
from pv import loader, loops
from pv.loops import Cut, CUTS, WhileCut, WCUTS
from pv.model import PCounter, GSeq, RunSeq, ASeq, aseq
from pv.runner import Harness

SUITS = 'mpsz'
KINDS = [(n, c) for c in 'mps' for n in range(1, 10)] + [(n, 'z') for n in range(1, 8)]   # 34 kinds in order


def kind_of_id(i):
    """Specification of the tenhou numbering: (printed number, suit) of id 0..135."""
    n, c = KINDS[i // 4]
    return (0, c) if i in (16, 52, 88) else (n, c)


_undo = []


def _unstub():
    while _undo:
        o, n, v, had = _undo.pop()
        if had:
            setattr(o, n, v)
        else:
            delattr(o, n)


def stub(obj, name, value, must=True):
    """Replace a callee by its contract for the rest of the path (proved elsewhere; see the harness)."""
    if must and not hasattr(obj, name):
        raise Unsupported('contract of %s cannot be attached: no such function' % name)
    had = name in vars(obj)
    _undo.append((obj, name, vars(obj).get(name), had))
    setattr(obj, name, value)


def stub_everywhere(name, value):
    """Replace every module-level binding of a function of /repo by its contract."""
    import sys
    n = 0
    for mn, m in list(sys.modules.items()):
        if mn.startswith('mahjong') and callable(vars(m).get(name)):
            stub(m, name, value)
            n += 1
    if not n:
        raise Unsupported('contract of %s cannot be attached: no such function' % name)


E.on_start[:] = [_unstub, loader.restore]


def preload_tiles():
    """All tiles of the game exist (T01 covers their construction in any order)."""
    D = loader.load('mahjong.tile.definition')
    for n, c in KINDS:
        D.Tile(n, c)
    for c in 'mps':
        D.AkaTile(0, c)
    loader.snapshot()


preload_tiles()


def M(name):
    return loader.load(name)


def is_int(x):
    return isinstance(x, (int, SInt)) and not isinstance(x, bool)


def eq(name, got, want):
    """Structural equality as an obligation (numbers may be symbolic)."""
    E.prove(name, same(got, want), 'got %r want %r' % (got, want))


def same(a, b):
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            return False
        return And([_b(same(x, y)) for x, y in zip(a, b)])
    if isinstance(a, dict) and isinstance(b, dict):
        if set(a) != set(b):
            return False
        return And([_b(same(a[k], b[k])) for k in a])
    if isinstance(a, (set, frozenset)) and isinstance(b, (set, frozenset)):
        return a == b
    if type(a) is bool and type(b) is bool:
        return a == b
    r = (a == b)
    return r


def _b(x):
    if isinstance(x, (bool, SBool)):
        return x
    if x is NotImplemented:
        return False
    return bool(x)


def raises(exc, f):
    try:
        f()
    except exc:
        return True
    return False


class Ev:
    """An event of a record: tag and attributes (strings, possibly with symbolic numbers inside)."""

    def __init__(self, tag, attrib=None, timestamp=None):
        self.tag, self.attrib, self.timestamp = tag, attrib or {}, timestamp

    def __repr__(self):
        return '<%s %s>' % (self.tag, self.attrib)


def code16(name='code'):
    """A symbolic 16-bit value given by its bits (bit 0 first)."""
    from pv.shims import from_bits
    bits = [z3.Bool(E.fresh_name('%s.bit%d' % (name, i))) for i in range(16)]
    v = from_bits(bits[::-1])
    E.assume(And(v >= 0, v <= 65535))
    return v, [SBool(b) for b in bits]


def field(bits, lo, n):
    """Value of bits lo..lo+n-1."""
    from pv.shims import from_bits
    return from_bits([b.t for b in bits[lo:lo + n]][::-1])


def text_is(name, got, *want):
    """The text is the pieces wanted one after the other: texts, whole numbers (printed in decimal; (number, offset) allowed as a
    number) and (format, number)."""
    import re
    from pv.core import TOK_OPEN, TOK_CLOSE
    if type(got) is not str:
        E.prove(name, False, 'got %r' % (got,))
        return
    pos, conds = 0, []

    def no(what):
        E.prove(name, False, 'got %r, wanted %s at %d' % (got, what, pos))
    for w in want:
        if isinstance(w, str):
            if not got.startswith(w, pos):
                return no(repr(w))
            pos += len(w)
            continue
        fmt, v = w if isinstance(w, tuple) else (None, w)
        if pos < len(got) and got[pos] == TOK_OPEN:
            end = got.index(TOK_CLOSE, pos)
            t = E.untoken(got[pos:end + 1])
            pos = end + 1
            tf, tv = t if isinstance(t, tuple) else (None, t)
            if tf != fmt:
                return no('%r' % (w,))
            conds.append(same_number(tv, v))
        else:
            m = re.compile(r'-?[0-9]+(\.[0-9]+)?').match(got, pos)
            if not m:
                return no('%r' % (w,))
            pos = m.end()
            if fmt is None:
                conds.append(v == int(m.group(0)) if not m.group(1) else False)
            elif isinstance(v, (int, float)):
                conds.append(fmt % v == m.group(0))
            else:
                return no('%r' % (w,))
    if pos != len(got):
        return no('the end')
    E.prove(name, And(conds) if conds else True, 'got %r' % (got,))


def same_number(a, b):
    a, b = num(a), num(b)
    if z3.is_int(a) != z3.is_int(b):
        a, b = (z3.ToReal(x) if z3.is_int(x) else x for x in (a, b))
    return wrapb(a == b)
