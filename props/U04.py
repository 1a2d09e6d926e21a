"""U04: every event, with arbitrary ids, players and scores, from an arbitrary earlier state of the translation."""
from props.trans import *
import os, sys
sys.path.append(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "concrete"))
from universe import RANKS as WANT_RANKS, YAKU as WANT_YAKU, DRAWN as WANT_DRAWN, tiles_in_play

FUNCS = ['record.universe.tenhou.event_definition.' + f for f in (
    'tile_str_list', 'tile_change_tenhou', 'draw_tile_tenhou', 'discard_tile_tenhou', 'draw_command', 'discard_command', 'game_init_command',
    'set_oya_command_yield', 'hand_update', 'open_hand', 'game_type_command', 'set_oya_command', 'set_player_command', 'get_list_attr',
    'dora_command', 'richii_command', 'agari_command', 'game_finish', 'shuffle_command', 'disconnected_command', 'no_win_command')] + [
    'record.universe.tenhou.xml_macher.TenhouCommandTranslator.translate', 'record.universe.tenhou.xml_macher.TenhouCommandTranslator.postprocess',
    'record.universe.translator.CommandTranslator.__call__', 'record.universe.translator.CommandTranslator.fallback_call',
    'record.universe.translator.CommandTranslator.postprocess', 'record.universe.translator.default_event_type',
    'record.utils.builder.Builder.when', 'record.utils.builder.Builder.__call__', 'record.utils.builder.StackedDict.merged_dict',
    'record.utils.value.gametype.GameType.__init__', 'record.utils.value.gametype.GameType.play_level', 'record.const.initial_tiles',
    'record.player.TenhouPlayer.__init__', 'record.player.TenhouPlayer.level_str', 'record.utils.value.general.number_list']
TRUSTED = ['urllib.parse.unquote', 're.match of the draw and discard tags over symbolic numbers (pv/shims.py)']
ASSUMPTIONS = ['tile_from_tenhou and the names of tiles by their contracts (T01, T03), meld_from by its contract (M01), interpret by its contract (U01)',
               'hands of 1 to 14 tiles, 1 to 6 yaku, sc lists of 6 or 8 numbers; attributes are well-formed numbers',
               'the numbers of a record are mathematical']
TS = 7


def P(ev, p, prop, up, val=None):
    return (ev, 'player', p, prop, up, val)


def G(ev, prop, up, val):
    return (ev, 'game', 'all', prop, up, val)


def R(prop, val):
    return ('record_init', 'record', 'all', prop, 'REPLACE', val)


def finish_init(n, oya):
    return [P('game_init', p, 'is_dealer', 'REPLACE', oya == p) for p in range(n)]


def h_draw():
    p = E.choose(range(4))
    before = {q: E.choose(['absent', None, fresh_int('drawn', 0, 135)]) for q in (p, (p + 1) % 4)}
    r = Run(before)
    t = tile()
    got = r(Ev('TUVW'[p] + str(t), {}, TS))
    E.cover('draw')
    r.check(got, [P('draw', p, 'hand', 'ADD', [Name(t)])], {p: t})


def h_discard():
    p = E.choose(range(4))
    d = fresh_int('drawn', 0, 135)
    mine = E.choose([None, d])          # a hand was dealt
    other = E.choose(['absent', None, fresh_int('other', 0, 135)])
    r = Run({p: mine, (p + 2) % 4: other})
    t = tile()
    got = r(Ev('DEFG'[p] + str(t), {}, TS))
    from_hand = True if mine is None else (t != d)
    E.cover('just drawn' if mine is d else 'nothing drawn')
    r.check(got, [P('discard', p, 'round', 'ADD', 1), P('discard', p, 'discard_from_hand', 'ADD', [from_hand]),
                  P('discard', p, 'hand', 'REMOVE', [Name(t)]), P('discard', p, 'discard_tiles', 'ADD', [Name(t)])], {p: None})


def rules_after_go(code):
    """What the translator remembers of the rules, read off a translated GO event."""
    tc = setup()
    tc.clear()
    tc(Ev('GO', {'type': str(code), 'lobby': '0'}, 0))
    hid = {k: v for k, v in tc.interpreter.state.items() if not is_view_key(k)}
    tc.clear()
    return hid


def h_init(n):
    def h():
        code = E.choose([1, 9]) | (16 if n == 3 else 0)
        r = Run({p: E.choose([None, fresh_int('drawn', 0, 135)]) if p in (0, n - 1) else 'absent' for p in range(n)}, n,
                rules=rules_after_go(code))
        rnd = fresh_int('round', 0, 11 if code & 8 else 7)     # winds played plus one, four hands each
        honba, sticks, ind = fresh_int('honba', 0), fresh_int('sticks', 0), tile('indicator')
        dice = [fresh_int('dice', 0, 5), fresh_int('dice', 0, 5)]
        ten = [fresh_int('ten%d' % p) for p in range(4)]
        oya = fresh_int('oya', 0, n - 1)
        size = E.choose([13, 1])
        hands = [tiles(size, 'hai%d.' % p) for p in range(n)]
        at = {'seed': text([rnd, honba, sticks] + dice + [ind]), 'ten': text(ten), 'oya': str(oya)}
        for p in range(4):
            at['hai%d' % p] = text(hands[p]) if p < n else ''
        got = r(Ev('INIT', at, TS))
        E.cover('init')
        want = [G('game_init', 'wind', 'REPLACE', rnd // 4), G('game_init', 'round', 'REPLACE', rnd % 4),
                G('game_init', 'sub_round', 'REPLACE', honba), G('game_init', 'richii_remain_scores', 'REPLACE', sticks * 1000),
                G('new_dora', 'dora_indicators', 'REPLACE', [Name(ind)])] + finish_init(n, oya)
        for p in range(n):
            want += [P('game_init', p, f, 'RESET_DEFAULT') for f in
                     ('discard_tiles', 'fixed_meld', 'meld_public_tiles', 'bonus_tiles', 'round', 'discard_from_hand')]
            want += [P('game_init', p, 'in_richii', 'REPLACE', False), P('game_init', p, 'hand', 'REPLACE', names(hands[p])),
                     P('game_init', p, 'score', 'ASSERT_EQUAL_OR_SET', ten[p] * 100)]
        r.check(got, want, {p: None for p in range(n)})
    return h


class Ids(Abstract):
    """A set of distinct tile ids."""
    pv_is_set = True

    def __init__(self, ids):
        self.ids = list(ids)

    def __iter__(self):
        return iter(self.ids)

    def __len__(self):
        return len(self.ids)

    def __or__(self, o):
        if not isinstance(o, Ids):
            raise Unsupported('union with %r' % type(o))
        return Ids(self.ids + o.ids)

    union = __or__

    def pv_as_list(self):
        return list(self.ids)

    def pv_as_set(self):
        return Ids(self.ids)


SHAPES = {'chi': ('Flush', 2, 1), 'pon': ('Triplet', 2, 1), 'added': ('TenhouAddedKan', 1, 0), 'kan': ('TenhouKan', 3, 1),
          'closed kan': ('TenhouKan', 4, 0), 'kita': ('Kita', 1, 0)}


def h_meld():
    w = E.choose(range(4))
    what = E.choose(sorted(SHAPES))
    cls, own, bor = SHAPES[what]
    r = Run({w: E.choose(['absent', None, fresh_int('drawn', 0, 135)]), (w + 1) % 4: E.choose(['absent', fresh_int('other', 0, 135)])})
    ML = M('mahjong.record.utils.value.meld')
    mine, theirs = tiles(own, 'own'), tiles(bor, 'borrowed')
    C = getattr(ML, cls)
    calls = []

    class Some(C):
        self_tiles = property(lambda self: Ids(mine))
        borrowed_tiles = property(lambda self: Ids(theirs))
        from_who = 0

    meld = Some.__new__(Some)

    def meld_from(ev):
        calls.append(ev)
        return meld
    stub_everywhere('meld_from', meld_from)
    ev = Ev('N', {'who': str(w), 'm': 'CODE'}, TS)
    got = r(ev)
    E.cover(what)
    E.prove('the meld of the event is decoded', calls and all(c is ev for c in calls))
    want = [P('open_hand', w, 'meld_public_tiles', 'ADD', names(mine)), P('open_hand', w, 'hand', 'REMOVE', names(mine))]
    if what == 'kita':
        want.append(P('open_hand', w, 'bonus_tiles', 'ADD', names(mine)))
    else:
        want.append(P('open_hand', w, 'fixed_meld', 'ADD', [names(mine + theirs)]))
    r.check(got, want, {w: None})


def h_go():
    tc_rules = E.notes
    r = Run({}, started=False)
    v, b = code16()
    r.others.pop(('all', view_of('record', 'player_count')), None)
    got = r(Ev('GO', {'type': str(v), 'lobby': '0'}, TS))
    E.cover('go')
    three, east_only = bool(b[4]), bool(Not(b[3]))
    tips, aka, hi, lo = bool(b[9]), bool(Not(b[1])), bool(b[5]), bool(b[7])
    n = 3 if three else 4
    r.check(got, [R('player_count', n), R('play_wind_count', 1 if east_only else 2), R('allow_tanyao_open', Not(b[2])), R('speed_up', b[6]),
                  R('play_level', ('若銀琥孔' if tips else '般上特鳳')[2 * hi + lo]), R('show_discard_shadow', b[8]),
                  R('using_tiles', tiles_in_play(n, aka))], {})


class PlayerName(OpaqueStr):
    """A name attribute: blank or not, otherwise arbitrary."""

    def __new__(cls, blank):
        r = OpaqueStr.__new__(cls, 'name')
        r.blank = blank
        return r

    def strip(self, *a):
        return '' if self.blank else self

    def __len__(self):
        raise Unsupported('length of an arbitrary name')

    def __bool__(self):
        return True


class Unquoted(OpaqueStr):
    def __new__(cls, s):
        r = OpaqueStr.__new__(cls, 'unquoted')
        r.s = s
        return r

    def __eq__(self, o):
        return isinstance(o, Unquoted) and o.s is self.s

    def __ne__(self, o):
        return not self.__eq__(o)

    __hash__ = OpaqueStr.__hash__


def h_un(have_dan, have_rate):
    def h():
        tb = M('mahjong.record.utils.constant')
        r = Run({E.choose(range(4)): fresh_int('drawn', 0, 135)})
        stub_everywhere('unquote', lambda s, *a, **k: Unquoted(s))
        who = E.choose([[1, 1, 1, 1], [1, 1, 1, 0], [0, 0, 1, 0], [0, 1, 0, 1], [1, 2, 1, 1], [2, 2, 2, 1], [0, 2, 0, 2], [1, 0, 0, 0]])
        at = {}
        for p in range(4):
            if who[p]:
                at['n%d' % p] = PlayerName(who[p] == 2)
        dan = [fresh_int('dan%d' % p, 0, 20) for p in range(4)]
        rate = [E.choose([fresh_real('rate0'), fresh_int('rate0')])] + [fresh_real('rate%d' % p) for p in range(1, 4)]
        for x in rate:
            if isinstance(x, SReal):
                E.assume(z3.Not(z3.IsInt(x.t)))
        if have_dan:
            at['dan'] = text(dan)
        if have_rate:
            at['rate'] = text(rate)
        if E.choose([True, False]):
            at['sx'] = 'M,F,C,M'
        got = r(Ev('UN', at, TS))
        E.cover('players')
        want = []
        for p in range(4):
            if who[p] == 1:
                want += [P('connect_change', p, 'disconnected', 'REPLACE', False),
                         P('record_init', p, 'name', 'ASSERT_EQUAL_OR_SET', Unquoted(at['n%d' % p]))]
                if have_dan:
                    want.append(P('record_init', p, 'level', 'REPLACE', Entry(tuple(WANT_RANKS), dan[p])))
                if have_rate:
                    want.append(P('record_init', p, 'extra_level', 'REPLACE', rate[p]))
        r.check(got, want, {})
    return h


def h_small():
    r = Run({E.choose(range(4)): fresh_int('drawn', 0, 135)}, E.choose([3, 4]))
    w = E.choose(range(4))
    tag = E.choose(['DORA', 'REACH', 'BYE', 'SHUFFLE', 'TAIKYOKU'])
    E.cover(tag)
    if tag == 'DORA':
        t = tile()
        got = r(Ev(tag, {'hai': str(t)}, TS))
        r.check(got, [G('new_dora', 'dora_indicators', 'ADD', [Name(t)])], {})
    elif tag == 'REACH':
        step = E.choose(['1', '2'])
        at = {'who': str(w), 'step': step}
        if E.choose([True, False]):
            at['ten'] = '240,250,250,250'
        got = r(Ev(tag, at, TS))
        r.check(got, [P('richii', w, 'in_richii', 'REPLACE', True)] if step == '1' else [P('richii', w, 'score', 'REMOVE', 1000)], {})
    elif tag == 'BYE':
        got = r(Ev(tag, {'who': str(w)}, TS))
        r.check(got, [P('connect_change', w, 'disconnected', 'REPLACE', True)], {})
    elif tag == 'SHUFFLE':
        s = OpaqueStr('seed')
        got = r(Ev(tag, {'seed': s, 'ref': ''}, TS))
        r.check(got, [R('seed', s)], {})
    else:
        oya = fresh_int('oya', 0, r.players - 1)
        got = r(Ev(tag, {'oya': str(oya)}, TS))
        r.check(got, finish_init(r.players, oya), {})


def h_none():
    """Events that mean nothing for the state give no commands."""
    r = Run({0: fresh_int('drawn', 0, 135)})
    tag, at = E.choose([('X', {}), ('HELO', {'name': 'x'}), ('DORAX', {'hai': '1'}), ('REACH', {'who': '0', 'step': '3'}), ('Z12', {}), ('T', {}),
                        ('INITIAL', {}), ('AGARI2', {}), ('NN', {}), ('T12x', {})])
    got = r(Ev(tag, at, TS))
    E.cover('none')
    r.check(got, [], {})


def h_finish(n, win):
    def h():
        r = Run({E.choose([0, n - 1]): fresh_int('drawn', 0, 135)}, n)
        with_sc = win or E.choose([True, False])
        sc = [fresh_int('sc%d' % i) for i in range(E.choose([2 * n, 8]) if n == 3 else 8)]
        at = {'ba': '0,0'}
        if with_sc:
            at['sc'] = text(sc)
        want, yaku = [], []
        who = frm = None
        if win:
            who, frm = fresh_int('who', 0, n - 1), fresh_int('from', 0, n - 1)
            size = E.choose([1, 2, 5, 14])
            hand = tiles(size, 'hai')
            k = {1: 0, 2: 1, 5: 0}.get(size)
            if k is None:
                k = E.choose([0, 13, 7])
            for i in range(size):
                for j in range(i):
                    E.assume(hand[i] != hand[j])
            machi = hand[k]
            at.update(hai=text(hand), machi=str(machi), who=str(who), fromWho=str(frm), ten='30,1000,0')
            ids = [fresh_int('yaku', 0, 54) for _ in range(E.choose([1, 2, 6]) if size == 1 else 2)]
            if size > 1 or E.choose([True, False]):
                at['yaku'] = text([x for i in ids for x in (i, fresh_int('han', 0, 13))])
            else:
                at['yakuman'] = text(ids)
            yaku = [Entry(tuple(WANT_YAKU), i) for i in ids]
            got = r(Ev('AGARI', at, TS))
            who, frm = int(who), int(frm)          # the harness splits here, after the code ran
            # without one tile of the winning name when it is another player's discard
            want += [G('game_finish', 'nobody_win', 'REPLACE', False)]
            full = names(hand)
            mine = [c for c in got if c.prop.view_property.name == 'hand']
            E.prove('one command for the hand of the winner', len(mine) == 1 and mine[0].sub_scope_id == who)
            v = mine[0].value
            if who == frm:
                want.append(P('game_finish', who, 'hand', 'ASSERT_EQUAL_OR_SET', full))
            else:
                E.prove('the hand before the discard: with the winning tile it is the hand shown', isinstance(v, list)
                        and multiset(v + [Name(machi)], full))
                want.append(P('game_finish', who, 'hand', 'ASSERT_EQUAL_OR_SET', v))
            E.cover('self' if who == frm else 'ron')
        else:
            t = E.choose(sorted(WANT_DRAWN) + [None])
            if t:
                at['type'] = t
            got = r(Ev('RYUUKYOKU', at, TS))
            want += [G('game_finish', 'nobody_win', 'REPLACE', True), G('game_finish', 'extra_reason', 'REPLACE', WANT_DRAWN[t] if t else 'EXHAUSTED')]
            E.cover('draw')
        for p in range(n):
            if with_sc:
                want += [P('game_finish', p, 'score', 'ASSERT_EQUAL_OR_SET', sc[2 * p] * 100),
                         P('game_finish', p, 'score', 'ADD', sc[2 * p + 1] * 100)]
            selfw = who is not None and who == frm
            lose = who is not None and not selfw and p == frm
            want += [P('game_finish', p, 'is_win', 'REPLACE', p == who), P('game_finish', p, 'is_self_win', 'REPLACE', selfw),
                     P('game_finish', p, 'is_discard_lose_game', 'REPLACE', lose),
                     P('game_finish', p, 'faans', 'REPLACE', yaku if (selfw or lose or p == who) else [])]
        r.check(got, want, {})
    return h


def h_tables():
    """The names of ranks, yaku and draws."""
    c = M('mahjong.record.utils.constant')
    E.prove('ranks', list(c.RANKS) == WANT_RANKS)
    E.prove('yaku', list(c.SCORE_PATTERN) == WANT_YAKU)
    E.prove('draws', dict(c.DRAWN_TYPES) == WANT_DRAWN)
    E.cover('tables')


def harnesses(tier):
    return [Harness('tables', h_tables, [], ['tables']), Harness('draw', h_draw, FUNCS, ['draw']),
            Harness('discard', h_discard, FUNCS, ['just drawn', 'nothing drawn']),
            Harness('deal, four players', h_init(4), FUNCS, ['init']), Harness('deal, three players', h_init(3), FUNCS, ['init']),
            Harness('meld', h_meld, FUNCS, sorted(SHAPES)), Harness('game type', h_go, FUNCS, ['go'])] + [
            Harness('players, dan %s, rate %s' % (d, x), h_un(d, x), FUNCS, ['players']) for d in (True, False) for x in (True, False)] + [
            Harness('dora, riichi, disconnect, seed, dealer', h_small, FUNCS, ['DORA', 'REACH', 'BYE', 'SHUFFLE', 'TAIKYOKU']),
            Harness('no meaning', h_none, FUNCS, ['none']),
            *[Harness('win, %d players' % n, h_finish(n, True), FUNCS, ['self', 'ron']) for n in (3, 4)],
            *[Harness('no winner, %d players' % n, h_finish(n, False), FUNCS, ['draw']) for n in (3, 4)]]
