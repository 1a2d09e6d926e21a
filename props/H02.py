"""H02: InvisibleTiles for every state and every event; sequences by induction (props/states.py)."""
from props.states import *

FUNCS = ['record.state.InvisibleTiles.__init__', 'record.state.InvisibleTiles.scan', 'record.state.InvisibleTiles.value',
         'record.state.DoraIndicators.scan', 'record.state.DoraIndicators.value', 'record.state.GameState.is_key_event',
         'record.utils.event.discard_value', 'record.utils.event.is_open_hand', 'record.utils.event.is_game_init',
         'record.utils.event.is_dora_indicator_event'] + FOLD_FUNCS
ASSUMPTIONS = ['tags of events outside the log format are represented by a list of tags (all tags of the format occur)',
               'number_list by its contract (N01), meld_from by its contract (M01), the tile numbering of '
               'TENHOU_TILE_CATEGORY is evaluated (C01)']


def in_play(n):
    """The ids of the tiles of the game: everything, or 1m 9m and all other suits for three players."""
    return {i for i in IDS if n == 4 or kind_of_id(i)[1] != 'm' or i // 4 in (0, 8)}


def setup():
    S = M('mahjong.record.state')
    made, seeds = {}, {}
    stub_meld_from(made)

    def number_list(s, split=','):
        return seeds[s]
    stub_everywhere('number_list', number_list)
    return S, made, seeds


def h_initial():
    S, made, seeds = setup()
    n = E.choose([3, 4])
    v = S.InvisibleTiles(n).value
    pointwise('a new tracker: all tiles in play', v, lambda t: t in in_play(n))
    E.prove('two trackers share nothing', S.InvisibleTiles(n).value is not v)
    E.cover('initial %d' % n)


def seed(i):
    return [0, 0, 0, 3, 5, i]


def h_init(n):
    def h():
        S, made, seeds = setup()
        hand = sym_set('invisible')
        old = guards(hand)
        i = fresh_int('seed', 0, 135)
        j = E.choose([0, 135])
        E.witness_fn = lambda f: {'case': {'players': n, 'events': [['INIT', dict(init_hands(), seed='0,0,0,3,5,%d' % x, oya='0')]
                                                                    for x in (f(i), j)]}}
        st = S.InvisibleTiles(n, hand)
        seeds['S1'], seeds['S2'] = seed(i), seed(j)
        a = st.scan(Ev('INIT', {'seed': 'S1', 'oya': '0', 'ten': 'T'}))
        v = a.value
        E.cover('INIT')
        pointwise('INIT: tiles in play without the indicator', v,
                  lambda t: truth(i != t) if t in in_play(n) else False)
        unchanged('the earlier state keeps its value', st.value, old)
        before = [g_of(v, t) for t in IDS]
        b = a.scan(Ev('INIT', {'seed': 'S2', 'oya': '0', 'ten': 'T'}))
        pointwise('the next INIT starts over', b.value, lambda t: t != j and t in in_play(n))
        pointwise('the hand before keeps its value', a.value, lambda t: before[t])
    return h


def init_hands():
    return {'hai%d' % q: ','.join(map(str, range(13 * q, 13 * q + 13))) for q in range(4)}


def an_event(kinds):
    kind = E.choose(kinds)
    if kind == 'discard':
        q = E.choose(range(4))
        i = fresh_int('tile', 0, 135)
        return kind, i, Ev('DEFG'[q] + str(i), {})
    if kind == 'draw':
        i = fresh_int('tile', 0, 135)
        return kind, i, Ev(E.choose('TUVW') + str(i), {})
    if kind == 'N':
        return kind, None, Ev('N', {'who': str(fresh_int('who', 0, 3)), 'm': 'CODE'})
    if kind == 'DORA':
        i = fresh_int('tile', 0, 135)
        return kind, i, Ev('DORA', {'hai': str(i)})
    return kind, None, Ev(kind, {'who': str(fresh_int('who', 0, 3)), 'hai': '5', 'seed': 'SEED', 'm': 'CODE', 'step': '1', 'ten': 'T'})


def step(kinds):
    def h():
        n = E.choose([3, 4])
        S, made, seeds = setup()
        seeds['SEED'] = seed(3)
        hand = sym_set('invisible')
        old = guards(hand)
        st = S.InvisibleTiles(n, hand)
        kind, arg, ev = an_event(kinds)
        E.witness_fn = lambda f: {'case': {'players': n, 'events': [[kind, {'hai': str(f(arg))}]] if kind == 'DORA'
                                           else [[ev.tag[0] + str(f(arg)), {}]] if arg is not None else []}}
        new = st.scan(ev)

        def want(t):
            if kind in ('discard', 'DORA'):
                return conj(old[t], neg(truth(arg == t)))
            if kind == 'N':
                m = made.get(ev)
                return conj(old[t], neg(m.self_tiles.has(t))) if m else old[t]
            return old[t]
        if kind == 'N':
            E.prove('melds are decoded', ev in made)
        E.cover(kind)
        pointwise('value after the event', new.value, want)
        unchanged('the earlier state keeps its value', st.value, old)
        seeds['LATER'] = seed(0)
        pointwise('the number of players stays', new.scan(Ev('INIT', {'seed': 'LATER', 'oya': '0', 'ten': 'T'})).value,
                  lambda t: t != 0 and t in in_play(n))
    return h


def keyev(kinds):
    def h():
        n = E.choose([3, 4])
        S, made, seeds = setup()
        seeds['SEED'] = seed(3)
        st, cur = S.InvisibleTiles(n, sym_set('asked')), S.InvisibleTiles(n, sym_set('invisible'))
        old = guards(cur.value)
        if kinds == ['INIT']:
            kind, arg, ev = 'INIT', None, Ev('INIT', {'seed': 'SEED', 'oya': '0'})
        else:
            kind, arg, ev = an_event(kinds)
        if bool(st.is_key_event(ev)):
            E.cover('key')
            return
        E.cover('no key')
        pointwise('value kept', cur.scan(ev).value, lambda t: old[t])
    return h


def harnesses(tier):
    hs = [Harness('initial', h_initial, FUNCS, ['initial 3', 'initial 4']),
          Harness('INIT, 4 players', h_init(4), FUNCS, ['INIT']), Harness('INIT, 3 players', h_init(3), FUNCS, ['INIT'])]
    rest = OTHER_TAGS + ['draw']
    hs += [Harness('scan ' + k[0], step(k), FUNCS, k) for k in (['discard'], ['N'], ['DORA'], rest)]
    hs += [Harness('key events ' + k[0], keyev(k), FUNCS, c) for k, c in
           ((['INIT'], ['key']), (['discard'], ['key']), (['N'], ['key']), (['DORA'], ['key']), (rest, ['no key']))]
    return hs + fold_harnesses()
