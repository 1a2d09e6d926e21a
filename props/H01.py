"""H01: PlayerHand for every state and every event; sequences by induction (props/states.py)."""
from props.states import *

FUNCS = ['record.state.PlayerHand.scan', 'record.state.PlayerHand.value', 'record.state.GameState.is_key_event',
         'record.player.TenhouPlayer.is_draw', 'record.player.TenhouPlayer.draw_tile_index',
         'record.player.TenhouPlayer.is_discard', 'record.player.TenhouPlayer.discard_tile_index',
         'record.player.TenhouPlayer.is_open_hand', 'record.player.is_event_triggered_by_player',
         'record.utils.event.is_game_init'] + FOLD_FUNCS
ASSUMPTIONS = ['tags of events outside the log format are represented by a list of tags (all tags of the format occur)',
               'number_list by its contract (N01), meld_from by its contract (M01)']
IMPORTS = ['mahjong.record.state']


def setup(p):
    S = M('mahjong.record.state')
    made, lists = {}, {}
    stub_meld_from(made)

    def number_list(s, split=','):
        if s not in lists:
            lists[s] = IdList(sym_set('list.' + s))
        return lists[s]
    stub_everywhere('number_list', number_list)
    return S, made, lists


def an_event(kinds):
    kind = E.choose(kinds)
    if kind == 'INIT':
        return kind, None, Ev('INIT', dict({'hai%d' % q: 'HAI%d' % q for q in range(4)}, seed='SEED', oya='0', ten='TEN'))
    if kind in ('draw', 'discard'):
        q = E.choose(range(4))
        i = fresh_int('tile', 0, 135)
        return kind, (q, i), Ev(('TUVW' if kind == 'draw' else 'DEFG')[q] + str(i), {})
    if kind == 'N':
        w = fresh_int('who', 0, 3)
        return kind, w, Ev('N', {'who': str(w), 'm': 'CODE'})
    at = {'who': str(fresh_int('who', 0, 3)), 'hai': '5', 'seed': 'SEED', 'm': 'CODE', 'step': '1', 'ten': 'TEN'}
    return kind, None, Ev(kind, at)


def step(kinds):
    def h():
        p = E.choose(range(4))
        S, made, lists = setup(p)
        hand = sym_set('hand')
        old = guards(hand)
        st = S.PlayerHand(player(p), hand)
        kind, arg, ev = an_event(kinds)
        E.witness_fn = lambda f: {'case': {'player': p, 'hand': [i for i in IDS if f(SBool(as_z3bool(old[i])))], 'events': wit(f)}}

        def wit(f):
            if kind == 'INIT':
                return [['INIT', {'hai%d' % q: ','.join(str(i) for i in IDS if f(SBool(as_z3bool(lists['HAI%d' % q].s.g[i]))))
                                  if 'HAI%d' % q in lists else '0' for q in range(4)}]]
            if kind in ('draw', 'discard'):
                return [[('TUVW' if kind == 'draw' else 'DEFG')[arg[0]] + str(f(arg[1])), {}]]
            return []
        new = st.scan(ev)
        v = new.value

        def want(t):
            if kind == 'INIT':
                return lists['HAI%d' % p].s.g[t] if 'HAI%d' % p in lists else False
            if kind == 'draw' and arg[0] == p:
                return disj(old[t], truth(arg[1] == t))
            if kind == 'discard' and arg[0] == p:
                return conj(old[t], neg(truth(arg[1] == t)))
            if kind == 'N':
                m = made.get(ev)
                mine = truth(arg == p)
                laid = m.self_tiles.has(t) if m else False
                return conj(old[t], neg(conj(mine, laid)))
            return old[t]
        if kind == 'N' and E.branch(as_z3bool(truth(arg == p))):
            E.prove('own melds are decoded', ev in made)
        E.cover(kind)
        pointwise('value after the event', v, want)
        unchanged('the earlier state keeps its value', st.value, old)
        lists.clear()
        later = new.scan(Ev('INIT', dict({'hai%d' % q: 'LATER%d' % q for q in range(4)}, seed='SEED', oya='0', ten='TEN')))
        pointwise('the player stays', later.value, lambda t: lists['LATER%d' % p].s.g[t])
    return h


def keyev(kinds):
    """An event that is no key event leaves the value of every state (not only the asked one) unchanged."""
    def h():
        p = E.choose(range(4))
        S, made, lists = setup(p)
        st, cur = S.PlayerHand(player(p), sym_set('asked')), S.PlayerHand(player(p), sym_set('hand'))
        old = guards(cur.value)
        kind, arg, ev = an_event(kinds)
        if bool(st.is_key_event(ev)):
            E.cover('key')
            return
        E.cover('no key')
        pointwise('value kept', cur.scan(ev).value, lambda t: old[t])
    return h


def h_initial():
    S, made, lists = setup(0)
    E.prove('a new tracker holds nothing', len(S.PlayerHand(player(E.choose(range(4)))).value) == 0)
    a = S.PlayerHand(player(0))
    b = S.PlayerHand(player(1))
    E.prove('two trackers share nothing', a.value is not b.value)
    E.cover('initial')


def harnesses(tier):
    hs = [Harness('scan ' + '/'.join(k[:1]), step(k), FUNCS, k) for k in
          (['INIT'], ['draw'], ['discard'], ['N'], OTHER_TAGS + ['DORA'])]
    hs += [Harness('key events ' + k[0], keyev(k), FUNCS, c) for k, c in
           ((['INIT'], ['key']), (['draw'], ['key', 'no key']), (['discard'], ['key', 'no key']), (['N'], ['key', 'no key']),
            (OTHER_TAGS + ['DORA'], ['no key']))]
    hs += [Harness('initial', h_initial, FUNCS, ['initial'])] + fold_harnesses()
    return hs
