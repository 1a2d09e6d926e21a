"""Shared by S01-S04: completions of a hand as ghost vectors over the units.

A completion x of a hand h is a choice of units of the pattern; it uses use_t(x) copies of tile t and needs
d_t = max(0, use_t - h_t) more of them than the hand holds.  Its cost is the sum of the d_t; it is within the limits L
when h_t - use_t >= L_t for every tile (with L = h - 4: no tile is used more than four times)."""
from props.winlib import *
from props import winlib as wl


def over(a, b):
    """max(0, a - b)"""
    return ite(a > b, a - b, 0)


@memo
def choice(S, g, x):
    """[(name, condition)]: x is a choice of the units of state g."""
    return [('no unit a negative number of times', And([x[u] >= 0 for u in S.units]))] + S.solution(g, x)


@memo
def within(S, x, h, L):
    return And([h[t] - use(S, x, t) >= L[t] for t in range(34)])


@memo
def lacks(S, x, h, D):
    """D[t] is what the choice needs of tile t beyond the hand."""
    return [D[t] == over(use(S, x, t), h[t]) for t in range(34)]


def fresh_counts(name, lo=None, hi=None):
    return [fresh_int('%s%d' % (name, t), lo, hi) for t in range(34)]


def limits_of(SE, name, tiles):
    """Borrow limits: every key present, none positive."""
    s = SE.TileSet()
    for t in tiles:
        c = fresh_int('%s.%s' % (name, t))
        E.assume(c <= 0)
        s._pv_d[t] = (True, c)
    return s


def entry_values(s, tiles):
    """What the entries of a multiset of positive entries add, tile by tile."""
    return [gite_(s, t) for t in tiles]


def gite_(s, t):
    from pv.model import gite
    p, c = s._pv_get(t)
    return gite(p, c, 0)


def is_need(r, D, tiles):
    """The multiset r lists exactly the tiles needed (no zero entries)."""
    if not isinstance(r, PCounter):
        return False
    cs = [set(r._pv_d) <= set(tiles)]
    for t, tile in enumerate(tiles):
        p, c = r._pv_get(tile)
        pz = as_z3bool(ts._g(p))
        cs.append(wrapb(pz == as_z3bool(D[t] > 0)))
        cs.append(wrapb(z3.Implies(pz, num(c) == num(D[t]))))
    return And(cs)


def need_set(SE, D, tiles):
    """The multiset of the tiles needed."""
    s = SE.TileSet()
    for t, tile in enumerate(tiles):
        s._pv_d[tile] = (truth(D[t] > 0), D[t])
    s._pv_order = False
    s.pv_need = True
    return s


def first_facts(S, g, x, j):
    """Assumes j is the first tile a unit of the choice starts with (34: none), and what follows (lemma harness)."""
    assume_first(S, x, j)
    for n, c in first_of_choice(S, g, x, j):
        E.assume(c)
    for t in range(34):
        E.assume(Implies(t < j, use(S, x, t) == 0))


@memo
def simple_facts(S, g, x):
    return [('uses of a tile are not negative', And([use(S, x, t) >= 0 for t in range(34)])),
            ('the choice needs its tiles', total([use(S, x, t) for t in range(34)]) == S.need(g)),
            ('its units are allowed', And([Implies(x[u] > 0, S.allowed(g, u)) for u in S.units])),
            ('an empty pattern has the empty choice', Implies(S.size(g) == 0, And([x[u] == 0 for u in S.units])))]


def h_choice_lemma(S):
    """Facts about choices used by the search harnesses."""
    def h():
        W = M('mahjong.container.pattern.win')
        g = S.ghost(W, S.state(W))
        E.prove('the size of a pattern is not negative', And(S.size(g) >= 0, S.need(g) >= S.size(g)))
        x = fresh_vector(S, 'x')
        for n, c in choice(S, g, x):
            E.assume(c)
        for t in range(34):
            E.prove('uses of a tile are not negative', use(S, x, t) >= 0)
        for n, c in simple_facts(S, g, x):
            E.prove(n, c)
        j = fresh_int('first', 0, 34)
        assume_first(S, x, j)
        for n, c in first_of_choice(S, g, x, j):
            E.prove(n, c)
        for t in range(34):
            E.prove('no unit before: tile not used', Implies(t < j, use(S, x, t) == 0))
        E.cover('lemma')
    return h
