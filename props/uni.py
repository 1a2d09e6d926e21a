"""Shared by U01..U05: the documented types of the properties, opaque lists and values, arbitrary states."""
from props.lib import *
from pv.model import Abstract
from pv import shims

# (scope, property) -> documented type (the view classes of universe/format.py list them)
TYPES = {('record', 'player_count'): 'int', ('record', 'play_wind_count'): 'int', ('record', 'play_level'): 'str', ('record', 'seed'): 'str',
         ('record', 'has_aka_dora'): 'bool', ('record', 'speed_up'): 'bool', ('record', 'allow_tanyao_open'): 'bool',
         ('record', 'show_discard_shadow'): 'bool', ('record', 'using_tiles'): 'list',
         ('game', 'wind'): 'int', ('game', 'round'): 'int', ('game', 'sub_round'): 'int', ('game', 'dora_indicators'): 'tiles',
         ('game', 'richii_remain_scores'): 'score', ('game', 'dealer'): 'int', ('game', 'nobody_win'): 'bool', ('game', 'extra_reason'): 'str',
         ('player', 'name'): 'str', ('player', 'level'): 'str', ('player', 'extra_level'): 'str', ('player', 'hand'): 'tiles',
         ('player', 'in_richii'): 'bool', ('player', 'discard_tiles'): 'tiles', ('player', 'discard_from_hand'): 'list',
         ('player', 'fixed_meld'): 'melds', ('player', 'meld_public_tiles'): 'tiles', ('player', 'score'): 'score',
         ('player', 'bonus_tiles'): 'tiles', ('player', 'round'): 'int', ('player', 'disconnected'): 'bool', ('player', 'is_dealer'): 'bool',
         ('player', 'is_win'): 'bool', ('player', 'is_self_win'): 'bool', ('player', 'is_discard_lose_game'): 'bool', ('player', 'faans'): 'list',
         ('player', 'rank'): 'rank', ('player', 'final_score'): 'score', ('player', 'final_point'): 'float'}
LISTS = ('list', 'tiles', 'melds')
NUMBERS = ('int', 'score', 'rank', 'float')
UPDATES = ('REPLACE', 'ADD', 'REMOVE', 'RESET_DEFAULT', 'ASSERT_EQUAL_OR_SET')

L = z3.DeclareSort('List')
X = z3.DeclareSort('Element')
NIL = z3.Const('nil', L)
CAT = z3.Function('cat', L, L, L)           # concatenation
REM = z3.Function('remove', L, X, L)        # list.remove: the list without the first occurrence
AT = z3.Function('at', L, z3.IntSort(), X)
LEN = z3.Function('len', L, z3.IntSort())
REMALL = z3.Function('remove_all', L, L, z3.IntSort(), L)   # without one occurrence of each of the first i values


class Elt:
    """An element of an opaque list."""

    def __init__(self, t):
        self.t = t

    def __eq__(self, o):
        return isinstance(o, Elt) and wrapb(self.t == o.t)

    __hash__ = None


class GhostList(Abstract):
    """A list of any length and content (an uninterpreted term); operations build the term of the result."""
    pv_abstract = True
    pv_is_list = True

    def __init__(self, t):
        self.t = t

    @staticmethod
    def term(o):
        if isinstance(o, GhostList):
            return o.t
        if isinstance(o, (list, tuple)) and not o:
            return NIL
        raise Unsupported('mixing an opaque list with %r' % (type(o),))

    def pv_as_list(self):
        return GhostList(self.t)

    copy = pv_as_list

    def __add__(self, o):
        if isinstance(o, (int, SInt, str)):
            return NotImplemented
        return GhostList(cat(self.t, self.term(o)))

    def __radd__(self, o):
        return GhostList(cat(self.term(o), self.t))

    def __iadd__(self, o):
        self.t = cat(self.t, self.term(o))
        return self

    def extend(self, o):
        self.t = cat(self.t, self.term(o))

    def remove(self, x):
        if not isinstance(x, Elt):
            raise Unsupported('removing %r from an opaque list' % (type(x),))
        self.t = REM(self.t, x.t)

    def clear(self):
        self.t = NIL

    def __getitem__(self, i):
        if isinstance(i, slice) and i.start is None and i.stop is None and i.step is None:
            return GhostList(self.t)
        raise Unsupported('item of an opaque list')

    def __pv_len__(self):
        return SInt(LEN(self.t))

    def __eq__(self, o):
        if isinstance(o, (GhostList, list, tuple)):
            return wrapb(self.t == self.term(o))
        return False

    def __ne__(self, o):
        r = self.__eq__(o)
        return (not r) if isinstance(r, bool) else Not(r)

    __hash__ = None

    def __str__(self):
        return '[...]'

    __repr__ = __str__

    def pv_version(self):
        return self.t.get_id()


def cat(a, b):
    if a.eq(NIL):
        return b
    return a if b.eq(NIL) else CAT(a, b)


def ghost_list(name='list'):
    t = z3.Const(E.fresh_name(name), L)
    E.assume(LEN(t) >= 0)
    return GhostList(t)


class RemoveCut(Cut):
    """for val in values: result.remove(val) -- after i values the result is the old list without the first i."""
    name = 'remove_all/for'

    def __init__(self, old, values):
        self.old, self.values = old, values
        self.base, self.vals = old.t, values.t

    def match(self, seq, loc):
        return isinstance(seq, GhostList) and seq.t.eq(self.vals)

    def acc(self, loc):
        # a copy made by the code: anything the harness did not hand in
        c = {id(v): v for v in loc.values() if isinstance(v, GhostList) and v is not self.values}
        if len(c) > 1:
            c = {k: v for k, v in c.items() if v is not self.old}
        if len(c) != 1:
            raise Unsupported('which list is built up by the loop?')
        return list(c.values())[0]

    def enter(self, seq, loc):
        E.assume(REMALL(self.base, self.vals, 0) == self.base)

    def length(self, seq, loc):
        return SInt(LEN(self.vals))

    def indices(self, seq, loc):
        i = fresh_int('i', 0)
        E.assume(i < self.length(seq, loc))
        return [i]

    def element(self, seq, i, loc):
        return True, Elt(AT(self.vals, num(i)))

    def invariant(self, seq, i, loc):
        i = num(i)
        E.assume(z3.Implies(i > 0, REMALL(self.base, self.vals, i)
                            == REM(REMALL(self.base, self.vals, i - 1), AT(self.vals, i - 1))))
        return [('the old list without the first values', wrapb(self.acc(loc).t == REMALL(self.base, self.vals, i)))]

    def havoc(self, seq, i, loc):
        self.acc(loc).t = REMALL(self.base, self.vals, num(i))
        return {}

    def modifies(self, loc):
        return [self.acc(loc)]


def value_of(typ, name):
    if typ in LISTS:
        return ghost_list(name)
    if typ == 'float':
        return fresh_real(name)
    if typ == 'bool':
        return fresh_bool(name)
    if typ == 'str':
        return str(fresh_int(name))      # a string known only by its identity
    return fresh_int(name)


def updates_of(typ):
    """Update methods that are meaningful for a property of this type."""
    u = ['REPLACE', 'ASSERT_EQUAL_OR_SET']
    if typ != 'bool':
        u.append('ADD')
    if typ in ('tiles', 'melds') or typ in NUMBERS:
        u.append('REMOVE')
    if typ in LISTS or typ == 'int':        # the types with a default
        u.append('RESET_DEFAULT')
    return u


def new_value(typ, update, old, value):
    """Specification: the value of a property after a command."""
    if update in ('REPLACE', 'ASSERT_EQUAL_OR_SET'):
        return value
    if update == 'RESET_DEFAULT':
        return GhostList(NIL) if typ in LISTS else 0
    if typ in LISTS:
        if update == 'ADD':
            return GhostList(cat(old.t, value.t))
        return GhostList(REMALL(old.t, value.t, LEN(value.t)))
    if typ == 'str':
        return old + value
    return old + value if update == 'ADD' else old - value


def equal_value(got, want):
    """Equal and of the same kind of type."""
    if isinstance(want, GhostList):
        return (isinstance(got, GhostList) or type(got) is list) and (
            wrapb(got.t == want.t) if isinstance(got, GhostList) else (len(got) == 0 and wrapb(want.t == NIL)))
    if isinstance(want, (bool, SBool)) != isinstance(got, (bool, SBool)) or isinstance(want, str) != isinstance(got, str):
        return False
    if got is None or isinstance(got, GhostList):
        return False
    return got == want


def F():
    return M('mahjong.record.universe.format')


def view_of(scope, prop):
    f = F()
    return getattr({'record': f.RecordView, 'game': f.GameView, 'player': f.PlayerView}[scope], prop)


def scope_of(scope):
    return getattr(F().ViewScope, scope)


def subs_of(scope):
    return range(4) if scope == 'player' else ['all']


def node_of(state, scope, sub):
    """The sub dictionary of a state that holds the properties of a scope and player."""
    f = F()
    return state[scope_of(scope)][f.PlayerId(sub) if scope == 'player' else 'single']


class Keep:
    """An arbitrary value of a property the command does not concern."""

    def __init__(self, key):
        self.key = key


ALL_KEYS = [(sc, sub, pr) for sc, pr in TYPES for sub in (range(4) if sc == 'player' else ['all'])]


def state_dict(values):
    """values: (scope, sub, property) -> value; the nested dictionary an executor state is built from."""
    f = F()
    d = {'global': {'time': {}}}
    for sc in ('record', 'game', 'player'):
        d[scope_of(sc)] = {(f.PlayerId(s) if sc == 'player' else 'single'): {} for s in subs_of(sc)}
    for (sc, sub, pr), v in values.items():
        d[scope_of(sc)][f.PlayerId(sub) if sc == 'player' else 'single'][view_of(sc, pr)] = v
    return d
