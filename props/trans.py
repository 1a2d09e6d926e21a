"""Shared by U04..U06: the translator on one event, from an arbitrary earlier state."""
from props.uni import *


class Name(OpaqueStr):
    """The printed name of the tile with some id (contract of tile_from_tenhou and Tile.__str__: T01, T03)."""

    def __new__(cls, i):
        r = OpaqueStr.__new__(cls, 'tile')
        r.id = i
        r.code = code_of(i)
        return r

    def __eq__(self, o):
        if isinstance(o, Name):
            return self.code == o.code
        if isinstance(o, str):
            raise Unsupported('a tile name compared with another text')
        return False

    def __ne__(self, o):
        r = self.__eq__(o)
        return (not r) if isinstance(r, bool) else Not(r)

    def __hash__(self):
        raise Unsupported('hash of the name of an arbitrary tile')


def code_of(i):
    """Two ids have the same name iff they have the same code."""
    if isinstance(i, int):
        return {16: 34, 52: 35, 88: 36}.get(i, i // 4)
    return ite(i == 16, 34, ite(i == 52, 35, ite(i == 88, 36, i // 4)))


class SomeTile:
    def __init__(self, i):
        self.i = i

    def __str__(self):
        return Name(self.i)

    def __getattr__(self, n):
        raise Unsupported('%s of an arbitrary tile' % n)


class Entry(OpaqueStr):
    """An entry of a table of distinct texts at a symbolic position."""

    def __new__(cls, table, i):
        r = OpaqueStr.__new__(cls, 'entry')
        r.table, r.i = table, i
        return r

    def __eq__(self, o):
        if isinstance(o, Entry):
            if o.table == self.table:
                return self.i == o.i
            raise Unsupported('entries of different tables')
        if isinstance(o, str):
            return (self.i == self.table.index(o)) if o in self.table else False
        return False

    def __ne__(self, o):
        r = self.__eq__(o)
        return (not r) if isinstance(r, bool) else Not(r)

    def __hash__(self):
        raise Unsupported('hash of an arbitrary table entry')


class Table(list):
    def __getitem__(self, i):
        if isinstance(i, SInt):
            if not (i >= 0 and i < len(self)):
                if i < 0 and i >= -len(self):
                    i = i + len(self)
                else:
                    raise IndexError('list index out of range')
            return Entry(tuple(self), i)
        return list.__getitem__(self, i)


def tables(*names):
    """Lookups in the tables of texts stay symbolic."""
    import sys
    for n in names:
        for mn, m in list(sys.modules.items()):
            v = vars(m).get(n) if mn.startswith('mahjong') else None
            if isinstance(v, list) and all(isinstance(s, str) for s in v) and len(set(v)) == len(v):
                stub(m, n, Table(v))


class State(Abstract):
    """What interpret returned for one command (contract: U01, the new value of the property)."""

    def __init__(self, cmd):
        self.cmd = cmd
        self.key = (cmd.sub_scope_id, cmd.prop.view_property)


def setup(tile_names=True):
    TEN = M('mahjong.record.universe.tenhou')
    XM = M('mahjong.record.universe.tenhou.xml_macher')
    tc = XM.tenhou_command
    if not hasattr(tc, 'interpreter') or not hasattr(tc.interpreter, 'interpret'):
        raise Unsupported('the interpreter of the translator is not where it was')
    tables('RANKS', 'SCORE_PATTERN')
    if tile_names:
        stub_everywhere('tile_from_tenhou', lambda i: SomeTile(i))
    return tc


def trial_names(tc):
    """Where the translator keeps the tile a player has just drawn, and what it keeps from the GO event."""
    st = tc.interpreter.state
    tc.clear()
    tc(Ev('GO', {'type': '1', 'lobby': '0'}, 0))
    hidden = {k: v for k, v in tc.interpreter.state.items() if not is_view_key(k)}
    tc.clear()
    stub_everywhere('tile_from_tenhou', lambda i: SomeTile(i))
    tc.interpreter.state[3, view_of('player', 'hand')] = []
    r = list(tc(Ev('W57', {}, 0)))
    now = [k for k, v in tc.interpreter.state.items() if not is_view_key(k)]
    if len(now) != 1 or not isinstance(now[0], tuple) or 3 not in now[0] or tc.interpreter.state[now[0]] != 57:
        raise Unsupported('where is the drawn tile kept?')
    key = now[0]
    tc.clear()
    try:
        for prop in ('discard_tiles', 'discard_from_hand'):
            tc.interpreter.state[3, view_of('player', prop)] = []
        tc.interpreter.state[3, view_of('player', 'round')] = 0
        tc.interpreter.state[3, view_of('player', 'hand')] = [Name(57)]
        E.notes['absent_ok'] = len(list(tc(Ev('G57', {}, 0)))) > 0
    except KeyError:
        E.notes['absent_ok'] = False
    tc.clear()
    return (lambda p: tuple(p if x == 3 and x is not True else x for x in key)), hidden


def is_view_key(k):
    return isinstance(k, tuple) and len(k) == 2 and isinstance(k[1], F().View)


class Run:
    """One event translated from an arbitrary earlier state.

    players: number of players; drawn[p]: None (no tile in hand was just drawn) or the symbolic id."""

    def __init__(self, drawn=None, players=4, started=True, rules=None):
        self.tc = tc = setup()
        self.drawn_key, go_hidden = trial_names(tc)
        tc.clear()
        st = tc.interpreter.state
        self.others = {}
        for sc, s, pr in ALL_KEYS:
            self.others[s, view_of(sc, pr)] = Keep((sc, s, pr))
        self.players = players
        if started:
            self.others['all', view_of('record', 'player_count')] = players
            if rules is not None:
                self.others.update(rules)
            else:
                self.others.update(go_hidden)
        st.update(self.others)
        self.drawn = {}
        self.present = set()
        for p in range(4):
            how = (drawn or {}).get(p, 'absent')
            if how == 'absent':
                self.drawn[p] = None
            else:
                self.present.add(p)
                self.drawn[p] = st[self.drawn_key(p)] = how if how is not None else None
        self.log = []
        self.done = False
        stub(tc.interpreter, 'interpret', self.interpret)

    def interpret(self, cmd):
        self.log.append(cmd)
        return State(cmd)

    def __call__(self, ev, strict=False):
        at = dict(ev.attrib)
        self.ev = ev
        got = list(self.tc(ev, strict))
        E.prove('every command is interpreted once, in order', len(self.log) == len(got) and all(a is b for a, b in zip(self.log, got)))
        E.prove('the event is unchanged', ev.attrib == at)
        for c in got:
            E.prove('the state of a command is the new value of its property', isinstance(c.state, State) and c.state.cmd is c
                    and c.state.key == (c.sub_scope_id, c.prop.view_property))
            E.prove('the timestamp of a command is that of the event', c.timestamp is ev.timestamp or c.timestamp == ev.timestamp)
        return got

    def check(self, got, want, drawn):
        """got: the commands; want: [(event, scope, sub, property, update, value)]; drawn: {player: the tile just drawn now}."""
        g, w = {}, {}
        for c in got:
            k = (c.prop.scope.name, c.sub_scope_id, c.prop.view_property.name)
            g.setdefault(k, []).append((c.prop.update_method.name, c.value, c.event.name if c.event is not None else None, c))
        for ev, sc, sub, prop, up, val in want:
            w.setdefault((sc, sub, prop), []).append((up, val, ev))
        E.prove('commands for exactly the properties and players concerned', {k: len(v) for k, v in g.items()} == {k: len(v) for k, v in w.items()},
                'got %s want %s' % (sorted((k, len(v)) for k, v in g.items()), sorted((k, len(v)) for k, v in w.items())))
        for k in w:
            for (u, v, e, c), (u2, v2, e2) in zip(g.get(k, []), w[k]):
                E.prove('update method of %s.%s' % (k[0], k[2]), u == u2 and c.update_method is c.prop.update_method and c.property is c.prop.view_property)
                E.prove('event type of %s.%s' % (k[0], k[2]), e == e2)
                E.prove('value of %s.%s' % (k[0], k[2]), same_val(k[2], v, v2), 'got %r want %r' % (v, v2))
        st = self.tc.interpreter.state
        for p in range(4):
            d = drawn[p] if p in drawn else self.drawn[p]
            h = st.get(self.drawn_key(p), None)
            if d is None:
                known = self.drawn_key(p) in st or E.notes['absent_ok'] or (p not in drawn and p not in self.present)
                E.prove('no tile of the player counts as just drawn', h is None and known)
            else:
                E.prove('the tile just drawn is remembered', is_int(h) and h == d)
        for k, v in self.others.items():
            if is_view_key(k):
                E.prove('the translation itself changes no property', st.get(k) is v)
        return st


def kind(x):
    for t, k in ((bool, 'bool'), (SBool, 'bool'), (int, 'number'), (SInt, 'number'), (float, 'number'), (SReal, 'number'), (str, 'str')):
        if isinstance(x, t):
            return k
    return type(x).__name__


def same_val(prop, a, b):
    if isinstance(a, RunSeq):        # list(counter.elements())
        a = list(a)
    if kind(a) != kind(b):
        return False
    if a is None or b is None:
        return a is b
    if isinstance(a, list):
        if len(a) != len(b):
            return False
        if not a:
            return True
        if prop == 'fixed_meld':
            return And([_b(multiset(x, y)) for x, y in zip(a, b)])
        if prop in ('hand', 'meld_public_tiles', 'bonus_tiles', 'using_tiles'):
            return multiset(a, b)
        return And([_b(same_val(None, x, y)) for x, y in zip(a, b)])
    if isinstance(a, State) or isinstance(a, Keep):
        return a is b
    return a == b


def _b(x):
    return x if isinstance(x, (bool, SBool)) else bool(x)


def multiset(a, b):
    """The same tiles, in any order."""
    if not isinstance(a, list) or len(a) != len(b):
        return False
    if all(type(x) is str for x in a) and all(type(x) is str for x in b):
        return sorted(a) == sorted(b)
    if not all(isinstance(x, Name) for x in list(a) + list(b)):
        return False
    b = list(b)
    rest = []
    for x in a:                 # names of the same id cancel
        j = next((j for j, y in enumerate(b) if x.id is y.id or same_term(x.id, y.id)), None)
        if j is None:
            rest.append(x)
        else:
            del b[j]
    a = rest
    if not a:
        return True
    return And([_b(cnt(a, x) == cnt(b, x)) for x in list(a) + list(b)])


def same_term(a, b):
    return isinstance(a, SInt) and isinstance(b, SInt) and a.t.eq(b.t)


def cnt(xs, x):
    n = 0
    for y in xs:
        n = n + ite(y == x, 1, 0)
    return n


def tile(name='tile'):
    return fresh_int(name, 0, 135)


def tiles(n, name='tile'):
    return [tile('%s%d' % (name, i)) for i in range(n)]


def names(ids):
    return [Name(i) for i in ids]


def text(xs):
    return ','.join(str(x) for x in xs)
