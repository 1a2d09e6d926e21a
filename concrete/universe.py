"""Oracle for the universal commands (U04, U06): what each event of a record means."""
import math
from urllib.parse import unquote
from oracle import KINDS
from records import meld_tiles
from states import num

REDS = (16, 52, 88)
RANKS = ['新人', '9級', '8級', '7級', '6級', '5級', '4級', '3級', '2級', '1級', '初段', '二段', '三段', '四段', '五段', '六段', '七段', '八段',
         '九段', '十段', '天鳳位']
YAKU = """門前清自摸和 立直 一発 槍槓 嶺上開花 海底摸月 河底撈魚 平和 断幺九 一盃口 自風_東 自風_南 自風_西 自風_北 場風_東 場風_南 場風_西 場風_北
役牌_白 役牌_發 役牌_中 両立直 七対子 混全帯幺九 一気通貫 三色同順 三色同刻 三槓子 対々和 三暗刻 小三元 混老頭 二盃口 純全帯幺九 混一色 清一色 人和
天和 地和 大三元 四暗刻 四暗刻単騎 字一色 緑一色 清老頭 九蓮宝燈 純正九蓮宝燈 国士無双 国士無双１３面 大四喜 小四喜 四槓子 ドラ 裏ドラ 赤ドラ""".split()
YAKU = [y.replace('_', ' ') for y in YAKU]
DRAWN = {'kaze4': '四風連打', 'yao9': '九種九牌', 'ron3': '三家和了', 'reach4': '四家立直', 'kan4': '四槓散了', 'nm': '流局滿貫'}


def name(i):
    n, c = KINDS[i // 4]
    return ('0' if i in REDS else str(n)) + c


def names(ids):
    return [name(int(i)) for i in ids]


def rules(code):
    code = int(code)
    b = [code >> i & 1 for i in range(16)]
    three, east_only = b[4], not b[3]
    tips = b[9]
    level = ('若銀琥孔' if tips else '般上特鳳')[b[5] * 2 + b[7]]
    return {'player_count': 3 if three else 4, 'play_wind_count': 1 if east_only else 2, 'allow_tanyao_open': not b[2],
            'speed_up': bool(b[6]), 'has_aka': not b[1], 'level': level,
            'shadow': bool(b[8])}


def unordered(x):
    return sorted(x, key=str)


def tiles_in_play(n, aka):
    out = []
    for i in range(136):
        if n == 3 and 4 <= i < 32:
            continue
        s = name(i)
        out.append(s if aka else s.replace('0', '5'))
    return out


class Oracle:
    """commands(i, tag, attributes) -> {(scope, sub_scope, property): [(update, value, event, state), ...]}"""

    def __init__(self):
        self.state = {}
        self.drawn = {}
        self.players = None
        self.winds = None

    def event(self, tag, at, aka_tiles=None):
        out = []
        st = self.state

        def cmd(event, scope, sub, prop, update, value=None):
            key = (scope, sub, prop)
            old = st.get(key)
            if update == 'ADD':
                new = old + value
            elif update == 'REMOVE':
                if isinstance(old, list):
                    new = list(old)
                    for v in value:
                        new.remove(v)
                else:
                    new = old - value
            elif update == 'RESET_DEFAULT':
                new = 0 if prop == 'round' else []
            else:
                new = value
            st[key] = new
            out.append((key, (update, value, event, new)))
        P = lambda *a: cmd(a[0], 'player', *a[1:])
        d, g = num(tag, 'TUVW'), num(tag, 'DEFG')
        if d:
            P('draw', d[0], 'hand', 'ADD', [name(d[1])])
            self.drawn[d[0]] = d[1]
        elif g:
            p, t = g
            P('discard', p, 'round', 'ADD', 1)
            P('discard', p, 'discard_from_hand', 'ADD', [self.drawn.get(p) != t])
            P('discard', p, 'hand', 'REMOVE', [name(t)])
            P('discard', p, 'discard_tiles', 'ADD', [name(t)])
            self.drawn[p] = None
        elif tag == 'INIT':
            seed = [int(x) for x in at['seed'].split(',')]
            ten = [int(x) for x in at['ten'].split(',')]
            G = lambda *a: cmd(a[0], 'game', 'all', *a[1:])
            G('game_init', 'wind', 'REPLACE', seed[0] // 4)
            G('game_init', 'round', 'REPLACE', seed[0] % 4)
            G('game_init', 'sub_round', 'REPLACE', seed[1])
            G('game_init', 'richii_remain_scores', 'REPLACE', seed[2] * 1000)
            G('new_dora', 'dora_indicators', 'REPLACE', [name(seed[-1])])
            for p in range(self.players):
                P('game_init', p, 'is_dealer', 'REPLACE', int(at['oya']) == p)
                for f in ('discard_tiles', 'fixed_meld', 'meld_public_tiles', 'bonus_tiles', 'round', 'discard_from_hand'):
                    P('game_init', p, f, 'RESET_DEFAULT')
                P('game_init', p, 'in_richii', 'REPLACE', False)
                P('game_init', p, 'hand', 'REPLACE', names(at['hai%d' % p].split(',')))
                P('game_init', p, 'score', 'ASSERT_EQUAL_OR_SET', ten[p] * 100)
                self.drawn[p] = None
        elif tag == 'N':
            w = int(at['who'])
            kind, tiles, bor = meld_tiles(int(at['m']))
            own = [t for t in tiles if t != bor]
            P('open_hand', w, 'meld_public_tiles', 'ADD', names(own))
            if kind == 'kita':
                P('open_hand', w, 'bonus_tiles', 'ADD', names(tiles))
            else:
                P('open_hand', w, 'fixed_meld', 'ADD', [names(tiles)])
            P('open_hand', w, 'hand', 'REMOVE', names(own))
            self.drawn[w] = None
        elif tag == 'DORA':
            cmd('new_dora', 'game', 'all', 'dora_indicators', 'ADD', [name(int(at['hai']))])
        elif tag == 'REACH':
            if at['step'] == '1':
                P('richii', int(at['who']), 'in_richii', 'REPLACE', True)
            elif at['step'] == '2':
                P('richii', int(at['who']), 'score', 'REMOVE', 1000)
        elif tag == 'BYE':
            P('connect_change', int(at['who']), 'disconnected', 'REPLACE', True)
        elif tag == 'SHUFFLE':
            cmd('record_init', 'record', 'all', 'seed', 'REPLACE', at['seed'])
        elif tag == 'TAIKYOKU':
            for p in range(self.players):
                P('game_init', p, 'is_dealer', 'REPLACE', int(at['oya']) == p)
        elif tag == 'GO':
            r = rules(at['type'])
            self.players = r['player_count']
            R = lambda *a: cmd('record_init', 'record', 'all', *a)
            R('player_count', 'REPLACE', r['player_count'])
            R('play_wind_count', 'REPLACE', r['play_wind_count'])
            R('allow_tanyao_open', 'REPLACE', r['allow_tanyao_open'])
            R('speed_up', 'REPLACE', r['speed_up'])
            R('play_level', 'REPLACE', r['level'])
            R('show_discard_shadow', 'REPLACE', r['shadow'])
            R('using_tiles', 'REPLACE', tiles_in_play(r['player_count'], r['has_aka']))
        elif tag == 'UN':
            dan, rate = at.get('dan'), at.get('rate')
            for p in range(4):
                if at.get('n%d' % p, '').strip():
                    P('connect_change', p, 'disconnected', 'REPLACE', False)
                    P('record_init', p, 'name', 'ASSERT_EQUAL_OR_SET', unquote(at['n%d' % p]))
                    if dan is not None:
                        P('record_init', p, 'level', 'REPLACE', RANKS[int(dan.split(',')[p])])
                    if rate is not None:
                        P('record_init', p, 'extra_level', 'REPLACE', float(rate.split(',')[p]))
        elif tag in ('AGARI', 'RYUUKYOKU'):
            sc = [int(x) for x in at['sc'].split(',')] if 'sc' in at else None
            who = frm = None
            yaku = []
            if tag == 'AGARI':
                who, frm = int(at['who']), int(at['fromWho'])
                hand = names(at['hai'].split(','))
                if who != frm:
                    hand.remove(name(int(at['machi'])))
                P('game_finish', who, 'hand', 'ASSERT_EQUAL_OR_SET', hand)
                cmd('game_finish', 'game', 'all', 'nobody_win', 'REPLACE', False)
                if 'yaku' in at:
                    yaku = [YAKU[int(x)] for x in at['yaku'].split(',')[::2]]
                else:
                    yaku = [YAKU[int(x)] for x in at['yakuman'].split(',')]
            else:
                cmd('game_finish', 'game', 'all', 'nobody_win', 'REPLACE', True)
                cmd('game_finish', 'game', 'all', 'extra_reason', 'REPLACE', DRAWN[at['type']] if 'type' in at else 'EXHAUSTED')
            for p in range(self.players):
                if sc is not None:
                    P('game_finish', p, 'score', 'ASSERT_EQUAL_OR_SET', sc[2 * p] * 100)
                    P('game_finish', p, 'score', 'ADD', sc[2 * p + 1] * 100)
                selfw = who is not None and who == frm
                lose = who is not None and not selfw and p == frm
                P('game_finish', p, 'is_win', 'REPLACE', p == who)
                P('game_finish', p, 'is_self_win', 'REPLACE', selfw)
                P('game_finish', p, 'is_discard_lose_game', 'REPLACE', lose)
                P('game_finish', p, 'faans', 'REPLACE', yaku if (selfw or lose or p == who) else [])
            if 'owari' in at:
                fin = [float(x) for x in at['owari'].split(',')]
                scores, points = fin[::2], fin[1::2]
                for p in range(self.players):
                    rank = 1 + sum(1 for q in range(self.players) if (-scores[q], q) < (-scores[p], p))
                    P('record_finish', p, 'final_score', 'REPLACE', int(scores[p] * 100))
                    P('record_finish', p, 'final_point', 'REPLACE', points[p])
                    P('record_finish', p, 'rank', 'REPLACE', rank)
        else:
            return None
        res = {}
        for k, v in out:
            res.setdefault(k, []).append(v)
        return res


def view(cmd):
    """A command of the repository in the terms of the oracle."""
    ev = cmd.event.name if cmd.event is not None else None
    return (cmd.prop.scope.name, cmd.sub_scope_id, cmd.prop.view_property.name), (cmd.prop.update_method.name, cmd.value, ev, cmd.state)


def same(prop, a, b):
    """Equal values of the same type; tiles taken out of a meld have no order."""
    if type(a) in (int, float) and type(b) in (int, float):
        return a == b
    if type(a) is not type(b):
        return False
    if prop in ('hand', 'meld_public_tiles', 'bonus_tiles', 'using_tiles') and isinstance(a, list):
        return sorted(a) == sorted(b)
    if prop == 'fixed_meld' and isinstance(a, list):
        return [sorted(x) for x in a] == [sorted(x) for x in b]
    return a == b


def compare(cmds, want, timestamp):
    got = {}
    for c in cmds:
        k, v = view(c)
        if c.timestamp != timestamp:
            return 'timestamp %s, expected %s' % (c.timestamp, timestamp)
        got.setdefault(k, []).append(v)
    if set(got) != set(want or {}):
        return 'commands for %s, expected %s' % (sorted(set(got) - set(want or {})), sorted(set(want or {}) - set(got)))
    for k in got:
        if len(got[k]) != len(want[k]):
            return '%d commands for %s, expected %d' % (len(got[k]), k, len(want[k]))
        for a, b in zip(got[k], want[k]):
            if a[0] != b[0] or a[2] != b[2] or not same(k[2], a[1], b[1]) or not same(k[2], a[3], b[3]):
                return 'command %s: %s, expected %s' % (k, a, b)
    return None
