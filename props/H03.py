"""H03: PlayerMeld, DiscardTiles, DoraIndicators for every state (a list of any length) and every event."""
from props.states import *

FUNCS = ['record.state.' + f for f in
         ('PlayerMeld.__init__', 'PlayerMeld.scan', 'PlayerMeld.value', 'PlayerMeld.is_key_event',
          'DiscardTiles.__init__', 'DiscardTiles.scan', 'DiscardTiles.value', 'DiscardTiles.is_key_event',
          'DoraIndicators.__init__', 'DoraIndicators.scan', 'DoraIndicators.value', 'DoraIndicators.is_key_event',
          'GameStateCollection.scan', 'GameStateCollection.value', 'GameStateCollection.is_key_event')] + [
    'record.utils.value.meld.KanFromTriplet.__init__', 'record.player.TenhouPlayer.is_open_hand',
    'record.player.TenhouPlayer.is_discard', 'record.player.TenhouPlayer.discard_tile_index',
    'record.player.is_event_triggered_by_player', 'record.utils.event.is_game_init',
    'record.utils.event.is_dora_indicator_event'] + FOLD_FUNCS
ASSUMPTIONS = ['tags of events outside the log format are represented by a list of tags (all tags of the format occur)',
               'number_list by its contract (N01), meld_from and is_triplet_of_added_kan by theirs (M01)',
               'GameStateCollection with up to three states (bounded)']

OLD = z3.Function('old', z3.IntSort(), z3.IntSort())
KINDS_OF_MELD = ('Flush', 'Triplet', 'TenhouKan', 'Kita', 'TenhouAddedKan')


def key(k):
    return z3.simplify(num(k)).sexpr()


def length(v):
    return v.n if isinstance(v, ASeq) else len(v)


def at(v, k):
    return v.at(k) if isinstance(v, ASeq) else v[k if isinstance(k, int) else k.__index__()]


def numbers(f=OLD):
    """A list of any length of any numbers."""
    n = fresh_int('n', 0)
    return ASeq(n, lambda k: SInt(f(num(k)))), n


def index(n):
    k = fresh_int('k', 0)
    E.assume_checked(k < n)
    return k


def is_list(name, v, n, want):
    """v has n elements and element k is want(k), for all k (n symbolic)."""
    eq(name + ': length', length(v), n)
    if bool(n > 0):
        k = index(n)
        w = want(k)
        if isinstance(w, SInt) or isinstance(w, int):
            eq(name + ': elements', at(v, k), w)
        else:
            E.prove(name + ': elements', at(v, k) is w)


def the_events(S, kinds, own):
    """(kind, argument, event); kinds ending in ' own' are events of player `own`, the others of another player."""
    kind = E.choose(kinds)
    if kind.startswith('discard') or kind.startswith('draw'):
        q = own if kind.endswith('own') else E.choose([q for q in range(4) if q != own])
        i = fresh_int('tile', 0, 135)
        return kind, i, Ev(('DEFG' if kind.startswith('discard') else 'TUVW')[q] + str(i), {'who': '0', 'hai': '5'})
    if kind.startswith('N'):
        w = fresh_int('who', 0, 3)
        E.assume(w == own if kind.endswith('own') else Not(w == own))
        return kind, w, Ev('N', {'who': str(w), 'm': 'CODE'})
    if kind == 'DORA':
        i = fresh_int('tile', 0, 135)
        return kind, i, Ev('DORA', {'hai': str(i), 'who': str(own)})
    w = fresh_int('who', 0, 3)
    return kind, None, Ev(kind, {'who': str(w), 'hai': '5', 'seed': 'SEED', 'm': 'CODE', 'step': '1', 'ten': 'TEN'})


REST = [t for t in OTHER_TAGS] + ['draw own', 'draw']


def seeds(made=None):
    made = {} if made is None else made

    def number_list(s, split=','):
        return made.setdefault(s, [fresh_int('s', 0, 135) for _ in range(6)])
    stub_everywhere('number_list', number_list)
    return made


# ---------------------------------------------------------------- discards

def discards(kinds):
    def h():
        S = M('mahjong.record.state')
        seeds()
        p = E.choose(range(4))
        old, n = numbers()
        st = S.DiscardTiles(player(p), old)
        kind, i, ev = the_events(S, kinds, p)
        E.witness_fn = lambda f: {'case': {'players': 4, 'events': [[('DEFG'[p] if kind == 'discard own' else ev.tag[0]) + str(f(i)), {}]] * 2
                                           if kind.startswith('discard') else []}}
        new = st.scan(ev)
        E.cover(kind)
        v = new.value
        want = lambda k: SInt(OLD(num(k)))
        if kind == 'INIT':
            eq('INIT starts a new list', length(v), 0)
        elif kind == 'discard own':
            eq('one more discard', length(v), n + 1)
            eq('the discard is the last', at(v, n), i)
            if bool(n > 0):
                k = index(n)
                eq('earlier discards stay', at(v, k), want(k))
        else:
            is_list('unchanged', v, n, want)
        is_list('the earlier state keeps its value', st.value, n, want)
        j = fresh_int('later', 0, 135)
        m = length(v)
        w = new.scan(Ev('DEFG'[p] + str(j), {}))
        eq('the next discard of the player counts', length(w.value), m + 1)
        eq('the next discard is the last', at(w.value, m), j)
        eq('the state between keeps its value', length(new.value), m)
    return h


def h_discards_initial():
    S = M('mahjong.record.state')
    p = E.choose(range(4))
    a = S.DiscardTiles(player(p))
    eq('a new tracker holds nothing', list(a.value), [])
    b = a.scan(Ev('DEFG'[p] + '7', {})).scan(Ev('INIT', {'seed': 'S'})).scan(Ev('DEFG'[p] + '9', {}))
    eq('INIT after a discard', list(b.value), [9])
    eq('a second new tracker holds nothing', list(S.DiscardTiles(player(p)).value), [])
    E.cover('initial')


def key_of(make, kinds, moves):
    """Events that are no key event leave the value alone; the listed kinds are key events."""
    def h():
        S = M('mahjong.record.state')
        made = {}
        stub_meld_from(made)
        seeds()
        p = E.choose(range(4))
        st = make(S, p)
        kind, i, ev = the_events(S, kinds, p)
        k = bool(st.is_key_event(ev))
        E.cover(kind)
        if kind in moves:
            E.prove('an event that may change the value is a key event', k)
    return h


# ---------------------------------------------------------------- dora indicators

def dora(kinds):
    def h():
        S = M('mahjong.record.state')
        made = seeds()
        old, n = numbers()
        st = S.DoraIndicators(old)
        kind, i, ev = the_events(S, kinds, 0)
        E.witness_fn = lambda f: {'case': {'players': 4, 'events': [['DORA', {'hai': str(f(i))}]] * 2 if kind == 'DORA' else []}}
        new = st.scan(ev)
        E.cover(kind)
        v = new.value
        want = lambda k: SInt(OLD(num(k)))
        if kind == 'INIT':
            eq('INIT: one indicator', length(v), 1)
            eq('INIT: the indicator of the seed', at(v, 0), made['SEED'][5])
        elif kind == 'DORA':
            eq('one more indicator', length(v), n + 1)
            eq('the new indicator is the last', at(v, n), i)
            if bool(n > 0):
                k = index(n)
                eq('earlier indicators stay', at(v, k), want(k))
        else:
            is_list('unchanged', v, n, want)
        is_list('the earlier state keeps its value', st.value, n, want)
    return h


def h_dora_initial():
    S = M('mahjong.record.state')
    made = seeds()
    a = S.DoraIndicators()
    eq('a new tracker holds nothing', list(a.value), [])
    b = a.scan(Ev('DORA', {'hai': '7'}))
    eq('a first indicator', list(b.value), [7])
    eq('a new tracker still holds nothing', list(a.value), [])
    eq('a second new tracker holds nothing', list(S.DoraIndicators().value), [])
    E.cover('initial')


# ---------------------------------------------------------------- melds

def an_item(ML, memo, facts, k):
    """Meld number k: of any kind; only what the contracts of M01 tell is known about it."""
    kk = key(k)
    if kk not in memo:
        kind = E.choose(['Triplet', 'Flush', 'TenhouKan', 'Kita', 'KanFromTriplet'])
        it = object.__new__(getattr(ML, kind))
        facts[id(it)] = (sym_set('item%d.self' % len(memo)), sym_set('item%d.bor' % len(memo)), fresh_int('from', 0, 3),
                         fresh_bool('same kind'), kind)
        memo[kk] = it
    return memo[kk]


def meld_world(kind):
    S, ML = M('mahjong.record.state'), M('mahjong.record.utils.value.meld')
    memo, facts, decoded = {}, {}, []
    for c in KINDS_OF_MELD + ('KanFromTriplet',):
        for i, name in enumerate(('self_tiles', 'borrowed_tiles', 'from_who')):
            if c == 'KanFromTriplet' or not any(name in vars(x) for x in getattr(ML, c).__mro__):
                continue
            if name in vars(getattr(ML, c)):
                stub(getattr(ML, c), name, property(lambda s, i=i: facts[id(s)][i]))
    stub(ML.TenhouMeld, 'from_who', property(lambda s: facts[id(s)][2]))

    def meld_from(event):
        if not decoded:
            m = object.__new__(getattr(ML, kind))
            facts[id(m)] = (sym_set('new.self'), sym_set('new.bor'), fresh_int('from', 0, 3), None, kind)
            decoded.append((event, m))
        E.prove('the event itself is decoded', decoded[0][0] is event)
        return decoded[0][1]

    def matches(item, added):
        E.prove('precondition: a triplet and the added kan', facts[id(item)][4] == 'Triplet' and facts[id(added)][4] == 'TenhouAddedKan')
        return facts[id(item)][3]
    stub_everywhere('meld_from', meld_from)
    stub_everywhere('is_triplet_of_added_kan', matches)
    seeds()
    return S, ML, memo, facts, decoded


def melds(kinds, meld='Flush'):
    def h():
        S, ML, memo, facts, decoded = meld_world(meld)
        p = E.choose(range(4))
        n = fresh_int('n', 0)
        old = ASeq(n, lambda k: an_item(ML, memo, facts, k))
        st = S.PlayerMeld(player(p), old)
        kind, arg, ev = the_events(S, kinds, p)
        new = st.scan(ev)
        E.cover(kind)
        v = new.value
        if kind == 'INIT':
            eq('INIT starts a new list', length(v), 0)
        elif kind == 'N own' and meld == 'TenhouAddedKan':
            eq('an added kan leaves the number of melds', length(v), n)
            if bool(n > 0):
                k = index(n)
                it = an_item(ML, memo, facts, k)
                s, b, w, match, ik = facts[id(it)]
                got = at(v, k)
                if ik == 'Triplet' and bool(match):
                    E.cover('replaced')
                    E.prove('the triplet becomes a kan', type(got) is ML.KanFromTriplet)
                    d = facts[id(decoded[0][1])][0]
                    pointwise('tiles of the kan', got.self_tiles, lambda t: disj(s.g[t], d.g[t]))
                    pointwise('borrowed tile of the kan', got.borrowed_tiles, lambda t: b.g[t])
                    eq('source of the kan', got.from_who, w)
                    E.prove('an added kan is open', bool(got.is_opened_kan))
                else:
                    E.cover('kept')
                    E.prove('other melds stay', got is it)
        elif kind == 'N own':
            eq('one more meld', length(v), n + 1)
            E.prove('the new meld is the last', at(v, n) is decoded[0][1])
            if bool(n > 0):
                k = index(n)
                E.prove('earlier melds stay', at(v, k) is an_item(ML, memo, facts, k))
        else:
            is_list('unchanged', v, n, lambda k: an_item(ML, memo, facts, k))
        is_list('the earlier state keeps its value', st.value, n, lambda k: an_item(ML, memo, facts, k))
    return h


def h_melds_initial():
    S, ML, memo, facts, decoded = meld_world('Flush')
    p = E.choose(range(4))
    a = S.PlayerMeld(player(p))
    eq('a new tracker holds nothing', list(a.value), [])
    ev = Ev('N', {'who': str(p), 'm': 'CODE'})
    b = a.scan(ev)
    E.prove('a first meld', len(b.value) == 1 and b.value[0] is decoded[0][1])
    eq('the new tracker still holds nothing', list(a.value), [])
    eq('INIT after a meld', list(b.scan(Ev('INIT', {'seed': 'S'})).value), [])
    E.prove('melds after that INIT', len(b.scan(Ev('INIT', {'seed': 'S'})).scan(ev).value) == 1)
    eq('a second new tracker holds nothing', list(S.PlayerMeld(player(p)).value), [])
    E.cover('initial')


# ---------------------------------------------------------------- collections

def h_collection():
    S = M('mahjong.record.state')
    log = []

    class Ghost(S.GameState):
        def __init__(self, name, k):
            self.name, self.k = name, k

        value = property(lambda self: (self.name, self.k))

        def scan(self, event):
            log.append((self.name, event))
            return Ghost(self.name, self.k + 1)

        def is_key_event(self, event):
            return self.name in event.keyed
    names = E.choose([(), ('a',), ('a', 'b'), ('a', 'b', 'c')])
    c = S.GameStateCollection(**{x: Ghost(x, 0) for x in names})
    ev = Ev('X')
    ev.keyed = {x for x in names if E.choose([False, True])}
    eq('key event iff one of the states says so', bool(c.is_key_event(ev)), bool(ev.keyed))
    d = c.scan(ev)
    for x in names:
        eq('every state is scanned once', getattr(d.value, x).value, (x, 1))
        eq('the earlier collection keeps its states', getattr(c.value, x).value, (x, 0))
    E.cover('collection %d' % len(names))


def harnesses(tier):
    hs = [Harness('discards ' + k[0], discards(k), FUNCS, k) for k in (['INIT'], ['discard own'], ['discard'], ['N own', 'N', 'DORA'] + REST)]
    hs += [Harness('dora ' + k[0], dora(k), FUNCS, k) for k in (['INIT'], ['DORA'], ['discard own', 'N own'] + REST)]
    hs += [Harness('melds ' + k[0], melds(k), FUNCS, k) for k in (['INIT'], ['N'], ['discard own', 'discard', 'DORA'] + REST)]
    hs += [Harness('melds N own, ' + m, melds(['N own'], m), FUNCS, ['N own'] + (['replaced', 'kept'] if m == 'TenhouAddedKan' else []))
           for m in KINDS_OF_MELD]
    allk = ['INIT', 'discard own', 'discard', 'N own', 'N', 'DORA'] + REST
    hs += [Harness('key events of discards', key_of(lambda S, p: S.DiscardTiles(player(p)), allk, ('INIT', 'discard own')), FUNCS, allk),
           Harness('key events of dora', key_of(lambda S, p: S.DoraIndicators(), allk, ('INIT', 'DORA')), FUNCS, allk),
           Harness('key events of melds', key_of(lambda S, p: S.PlayerMeld(player(p)), allk, ('INIT', 'N own')), FUNCS, allk),
           Harness('initial discards', h_discards_initial, FUNCS, ['initial']),
           Harness('initial dora', h_dora_initial, FUNCS, ['initial']),
           Harness('initial melds', h_melds_initial, FUNCS, ['initial']),
           Harness('collection', h_collection, FUNCS, ['collection %d' % i for i in range(4)])]
    return hs + fold_harnesses()
