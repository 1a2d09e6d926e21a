"""P02: what the summaries of events, hands, players and records say."""
from props.lib import *
from props.P01 import Tiles, setup, DRAWN, MELDS

EV, RD = 'record.utils.event.', 'record.reader.'
FUNCS = [EV + 'TenhouEvent.__init__', EV + 'TenhouEvent.base_str', RD + 'TenhouGame.__init__', RD + 'TenhouGame.__str__',
         RD + 'TenhouGame.end_stringify', RD + 'TenhouGame.game_index', RD + 'TenhouGame.sub_game_index', RD + 'is_game_end',
         RD + 'TenhouRecord.__init__', RD + 'TenhouRecord.__str__', RD + 'list_of_xml_configs', RD + 'xml_message_config_scan',
         'record.player.TenhouPlayer.__init__', 'record.player.TenhouPlayer.__str__', 'record.player.TenhouPlayer.level_str',
         'record.utils.value.meld.Meld.__str__', 'record.stage.StageGroupby.__next__']
TRUSTED = ['urllib.parse.unquote, run on the name itself', 'printf-style formats of symbolic numbers (pv/shims.py, pv_format)']
ASSUMPTIONS = ['number_list by its contract (N01), meld_from by its contract (M01), tile_from_tenhou by its contract (C02)',
               'a hand ends with at most three wins; the record of the construction harness has up to two hands (bounded)']
BOUNDED = 'the construction of a record is run on records of one or two hands'
RANKS = '新人 9級 8級 7級 6級 5級 4級 3級 2級 1級 初段 二段 三段 四段 五段 六段 七段 八段 九段 十段 天鳳位'.split()
NAMES = ['A%20b', '%E9%9B%80', 'c', 'A%20b']
SHOWN = ['A b', '雀', 'c', 'A b']


class Num:
    """Lists of numbers by their text (contract of number_list)."""

    def __init__(self):
        self.of = {}
        stub_everywhere('number_list', self.read)

    def text(self, key, values):
        self.of[key] = values
        return key

    def read(self, s, split=','):
        E.prove('split at commas', split == ',')
        if s not in self.of:
            raise Unsupported('another list of numbers')
        return list(self.of[s])


def player(k, level=None, rate=None):
    P = M('mahjong.record.player')
    return P.TenhouPlayer(k, NAMES[k], 10 if level is None else level, 1500.0 if rate is None else rate, 'M')


def h_player():
    level, rate = E.choose(range(21)), fresh_real('rate')
    p = player(E.choose(range(4)), level, rate)
    E.witness_fn = lambda f: {'case': {'player': [NAMES[0], level, 1500.0]}}
    text_is('name, rank and rating', str(p), SHOWN[p.index], ' ' + RANKS[level] + ' R', ('%.2f', rate))
    E.cover('player')


def h_event():
    EVM, T = setup()
    N = Num()
    kind = E.choose(['draw', 'discard', 'meld', 'riichi', 'dora', 'win', 'drawn'])
    w, l = fresh_int('who', 0, 3), fresh_int('from', 0, 3)
    E.cover(kind)
    mk = lambda ev: EVM.TenhouEvent(ev, context=None, timestamp=0).base_str()
    if kind in ('draw', 'discard'):
        p, i = E.choose(range(4)), T.id('tile')
        text_is(kind, mk(Ev(('TUVW' if kind == 'draw' else 'DEFG')[p] + str(i), {})), 'player %d %s %s' % (p, kind, T.text(i)))
    elif kind == 'meld':
        ev = Ev('N', {'who': str(w), 'm': 'CODE'})

        class Meld:
            def __str__(self):
                return 'THE MELD'

            def __format__(self, spec):
                return 'THE MELD'

        def meld_from(e):
            E.prove('the meld of the event', e is ev)
            return Meld()
        stub_everywhere('meld_from', meld_from)
        text_is('meld', mk(ev), 'player ', w, ' claimed THE MELD')
    elif kind == 'riichi':
        text_is('riichi', mk(Ev('REACH', {'who': str(w), 'step': E.choose(['1', '2'])})), 'player ', w, ' richii')
    elif kind == 'dora':
        i = T.id('tile')
        text_is('dora', mk(Ev('DORA', {'hai': str(i)})), 'new dora indicator ' + T.text(i))
    elif kind == 'win':
        v = [fresh_int('fu', 0), fresh_int('points', 0), fresh_int('limit', 0)]
        text_is('win', mk(Ev('AGARI', {'who': str(w), 'fromWho': str(l), 'ten': N.text('TEN', v)})),
                'player ', w, ' win ', v[1], ' from player ', l)
    else:
        t = E.choose([None] + list(DRAWN))
        text_is('drawn', mk(Ev('RYUUKYOKU', {'type': t} if t else {})).strip(), ('no body win ' + (DRAWN[t] if t else '')).strip())


def h_meld_text():
    EVM, T = setup()
    ML = M('mahjong.record.utils.value.meld')
    kind = E.choose(list(MELDS))
    _, cls, own, borrowed, _ = MELDS[kind]
    a, c = [T.id('own') for _ in range(own)], [T.id('borrowed') for _ in range(borrowed)]
    src = fresh_int('source', 0, 3)

    def tile_set(ids):
        ids = list(ids)
        E.prove('the tiles of the meld', ids is a or ids is c or (ids == [] and not c) or any(
            len(ids) == len(x) and all(y is z for y, z in zip(ids, x)) for x in (a, c)))
        return T.text(*ids)
    stub_everywhere('tile_set_from_tenhou', tile_set)

    class Meld_(getattr(ML, cls)):
        self_tiles, borrowed_tiles, from_who = a, c, src

        def __init__(self):
            pass
    Meld_.__name__ = cls
    text_is('meld', str(Meld_()), "'%s' using '%s' to get '%s' from player " % (cls, T.text(*a), T.text(*c)), src)
    E.cover('meld')


def a_hand(N, tag, ends, oya='0'):
    """The events of a hand and what its summary says."""
    winds = E.notes['winds']
    w = E.choose(range(winds + 1))
    seed = [fresh_int('round', 0, 11), fresh_int('honba', 0)] + [fresh_int('s', 0, 135) for _ in range(4)]
    E.assume(And(seed[0] >= 4 * w, seed[0] < 4 * w + 4))
    evs = [Ev('INIT', {'seed': N.text('SEED' + tag, seed), 'oya': oya, 'ten': '0'}), Ev('T5', {}), Ev('D5', {})]
    want = ['東南西北'[w], seed[0] - 4 * w + 1, '局', seed[1], '本 ']
    for k, kind in enumerate(ends):
        if k:
            want.append(',')
        if kind == 'drawn':
            t = E.choose([None, 'yao9', 'nm'])
            evs.append(Ev('RYUUKYOKU', {'type': t} if t else {}))
            want.append('流局' + (' ' + DRAWN[t] if t else ''))
        else:
            who = E.choose([0, E.notes['players'] - 1])
            frm = who if kind == 'tsumo' else (who + E.choose([1, 2])) % E.notes['players']
            v = [fresh_int('fu', 0), fresh_int('points', 0), fresh_int('limit', 0)]
            evs.append(Ev('AGARI', {'who': str(who), 'fromWho': str(frm), 'ten': N.text('TEN%s.%d' % (tag, k), v)}))
            want += [SHOWN[who] + (':ツモ(' if kind == 'tsumo' else '<-%s:ロン(' % SHOWN[frm]), v[1], ')']
    return evs, want


def h_hand(n):
    def h():
        R = M('mahjong.record.reader')
        GT = M('mahjong.record.utils.value.gametype')
        N = Num()
        E.notes['winds'], E.notes['players'] = E.choose([1, 2]), E.choose([3, 4])
        kinds = [E.choose(['tsumo', 'ron', 'drawn'])] if n == 1 else ['ron'] * n
        evs, want = a_hand(N, '', kinds)
        g = R.TenhouGame(evs, GT.GameType(str(1 + 8 * (E.notes['winds'] - 1) + 16 * (E.notes['players'] == 3))),
                         [player(k) for k in range(E.notes['players'])], context=None)
        for k in kinds:
            E.cover(k)
        text_is('summary of the hand', str(g).rstrip(), *want)
        E.prove('the ends of the hand', list(g.end_events) == evs[3:])
    return h


def h_standings(n):
    def h():
        R = M('mahjong.record.reader')
        rec = object.__new__(R.TenhouRecord)
        rec.game_type = 'TYPE'
        rec.players = [player(k) for k in range(n)]
        rec.end_score = [fresh_int('score', -2000, 4000) for _ in range(n)] + [0] * (4 - n)
        rec.end_point = [fresh_real('point') for _ in range(n)] + [0] * (4 - n)
        E.witness_fn = lambda f: {'case': {'scores': [f(x) for x in rec.end_score], 'points': [float(f(x)) for x in rec.end_point[:n]]}}
        text = str(rec)
        s = rec.end_score
        rank = [sum(1 for q in range(n) if q != p and E.branch(as_z3bool(s[q] > s[p] if q > p else s[q] >= s[p]))) for p in range(n)]
        E.prove('the ranks are a permutation', sorted(rank) == list(range(n)))
        want = ['TYPE ']
        for i in range(n):
            p = rank.index(i)
            want += [(',' if i else '') + '%d位:%s(' % (i + 1, SHOWN[p]), ('%.1f', rec.end_point[p]), ')']
        text_is('standings', text, *want)
        E.cover('standings')
    return h


def h_record(hands):
    """The record as a whole, read from its events."""
    def h():
        R = M('mahjong.record.reader')
        N = Num()
        n = E.choose([3, 4])
        E.notes['winds'], E.notes['players'] = 1, n
        rate = [fresh_real('rate') for _ in range(4)]
        level = [E.choose([0, 20]) if k == 0 else k for k in range(4)]
        extra = E.choose([False, True])
        evs = [Ev('SHUFFLE', {'seed': 'x'})] * extra + [Ev('GO', {'type': str(1 + 16 * (n == 3)), 'lobby': '0'}),
               Ev('UN', dict({'n%d' % k: NAMES[k] if k < n else '' for k in range(4)}, dan=N.text('DAN', level), rate=N.text('RATE', rate), sx='M,F,M,C')),
               Ev('TAIKYOKU', {'oya': '0'})]
        wants, bounds = [], []
        for j in range(hands):
            e, w = a_hand(N, str(j), [E.choose(['ron', 'drawn']) if j == 0 else 'tsumo'])
            bounds.append((len(evs), len(evs) + len(e)))
            evs += e
            wants.append(w)
        owari = [fresh_int('owari', -2000, 4000) if k % 2 == 0 else fresh_real('point') for k in range(8)]
        evs[-1].attrib['owari'] = N.text('OWARI', owari)
        rec = R.TenhouRecord(list(evs))
        E.cover('players %d' % n)
        E.prove('all events in order', [x._wrapped_xml_event for x in rec.events] == evs and [x.timestamp for x in rec.events] == list(range(len(evs))))
        E.prove('one hand per INIT', len(rec.game_list) == hands)
        E.prove('the players', [(x.index, x.name, x.level, x.sex) for x in rec.players] == [(k, SHOWN[k], level[k], 'MFMC'[k]) for k in range(n)]
                and And([x.rate == r for x, r in zip(rec.players, rate)]))
        E.prove('final scores and points', And([a == b for a, b in zip(rec.end_score, owari[::2])] + [a == b for a, b in zip(rec.end_point, owari[1::2])])
                and len(rec.end_score) == len(rec.end_point) == 4)
        for g, w, (a, b) in zip(rec.game_list, wants, bounds):
            E.prove('the events of the hand', [x._wrapped_xml_event for x in g.events] == evs[a:b])
            text_is('summary of the hand', str(g).rstrip(), *w)
    return h


def harnesses(tier):
    return [Harness('player', h_player, FUNCS, ['player']),
            Harness('event', h_event, FUNCS, ['draw', 'discard', 'meld', 'riichi', 'dora', 'win', 'drawn']),
            Harness('meld', h_meld_text, FUNCS, ['meld']),
            Harness('hand, one end', h_hand(1), FUNCS, ['tsumo', 'ron', 'drawn']),
            Harness('hand, two winners', h_hand(2), FUNCS, ['ron']), Harness('hand, three winners', h_hand(3), FUNCS, ['ron']),
            Harness('standings, three players', h_standings(3), FUNCS, ['standings']),
            Harness('standings, four players', h_standings(4), FUNCS, ['standings']),
            Harness('record, one hand', h_record(1), FUNCS, ['players 3', 'players 4']),
            Harness('record, two hands (bounded)', h_record(2), FUNCS, ['players 3', 'players 4'])]
