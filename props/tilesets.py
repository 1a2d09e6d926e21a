"""Contracts of mahjong.container.set.TileSet: symbolic multisets and loop invariants."""
from props.lib import *
from pv.model import conj, disj, neg, truth, gite, is_true, is_false


def tiles34():
    D = M('mahjong.tile.definition')
    return [D.Tile(n, c) for n, c in KINDS]


def sym_counter(cls, name, tiles, lo=0, hi=None, order=False):
    """A counter whose entries are arbitrary: every key may be absent or present with any count in [lo, hi]."""
    s = cls()
    for t in tiles:
        p = z3.Bool(E.fresh_name('%s.has.%s' % (name, t)))
        c = fresh_int('%s.%s' % (name, t))
        if lo is not None:
            E.assume(c >= lo)
        if hi is not None:
            E.assume(c <= hi)
        s._pv_d[t] = (p, c)
    s._pv_order = order
    return s


def count(s, t):
    """Ghost count: the number of copies of t (0 when absent)."""
    p, c = s._pv_get(t)
    return gite(p, c, 0)


def counts(s, tiles):
    return [count(s, t) for t in tiles]


def ev_hand(ev, tiles, s0):
    return {str(t): v for t, v in ((t, ev(c)) for t, c in zip(tiles, s0)) if v}


def same_entries(s, ref, tiles):
    """Entry-wise identity of representation (presence and count) with a recorded state."""
    out = []
    for t in tiles:
        p, c = s._pv_get(t)
        q, d = ref.get(t, (False, 0))
        pz, qz = as_z3bool(_g(p)), as_z3bool(_g(q))
        out.append(z3.And(pz == qz, z3.Implies(pz, num(c) == num(d))))
    out.append(z3.BoolVal(set(s._pv_d) <= set(tiles)))
    return z3.And(out)


def _g(p):
    return p if isinstance(p, (bool, SBool, z3.BoolRef)) else bool(p)


def record(s):
    return dict(s._pv_d)


class ContainsCut(Cut):
    """TileSet.contains: after i entries, every entry seen fits."""
    name = 'TileSet.contains/loop'

    def match(self, seq, loc):
        return isinstance(seq, GSeq) and seq.tag == 'items' and 'self' in loc and isinstance(loc['self'], PCounter)

    def fits(self, seq, k, loc):
        g, (t, c) = seq.items[k]
        return disj(neg(g), truth(count(loc['self'], t) >= c))

    def invariant(self, seq, i, loc):
        return [('seen entries fit', wrapb(z3.And([as_z3bool(self.fits(seq, k, loc)) for k in range(i)])) if i else True)]

    def havoc(self, seq, i, loc):
        for k in range(i):
            E.assume(self.fits(seq, k, loc))
        return {}


class ReSortCut(Cut):
    """TileSet.re_sort: after i entries the set holds exactly the first i entries of the sorted list."""
    name = 'TileSet.re_sort/loop'

    def match(self, seq, loc):
        return isinstance(seq, GSeq) and isinstance(loc.get('self'), PCounter)

    def want(self, seq, i):
        return {t: (g, c) for g, (t, c) in seq.items[:i]}

    def invariant(self, seq, i, loc):
        s = loc['self']
        keys = [t for g, (t, c) in seq.items]
        return [('holds the first entries', SBool(same_entries(s, self.want(seq, i), keys))),
                ('listed in order', s._pv_order and [k for k in s._pv_d] == [k for k in keys[:i] if k in s._pv_d])]

    def havoc(self, seq, i, loc):
        s = loc['self']
        s._pv_d.clear()
        for t, (g, c) in self.want(seq, i).items():
            s._pv_d[t] = (g, c)
        s._pv_order = True
        s._pv_ver += 1
        return {}

    def modifies(self, loc):
        return [loc['self']]


def install():
    CUTS['TileSet.contains'] = [ContainsCut()]
    CUTS['TileSet.re_sort'] = [ReSortCut()]
