import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from common import run
import random
import re
from urllib.parse import unquote
from records import record, to_xml, meld_tiles
from P01 import tile, tiles, DRAWN

RANKS = '新人 9級 8級 7級 6級 5級 4級 3級 2級 1級 初段 二段 三段 四段 五段 六段 七段 八段 九段 十段 天鳳位'.split()
CLASS = {'flush': 'Flush', 'triplet': 'Triplet', 'add_kan': 'TenhouAddedKan', 'kita': 'Kita', 'kan': 'TenhouKan'}


def notation(ids):
    out = ''
    for c in 'mpsz':
        ts = sorted((t for t in map(tile, ids) if t[1] == c), key=lambda t: int(t[0]) or 5)
        if ts:
            out += ''.join(t[0] for t in ts) + c
    return out


def describe(tag, a):
    """What is said of an event (None: anything)."""
    if tag[0] in 'TUVW' and tag[1:].isdigit():
        return ['player %d draw %s' % ('TUVW'.index(tag[0]), tile(tag[1:]))]
    if tag[0] in 'DEFG' and tag[1:].isdigit():
        return ['player %d discard %s' % ('DEFG'.index(tag[0]), tile(tag[1:]))]
    if tag == 'N':
        kind, ids, got = meld_tiles(int(a['m']))
        s = "player %s claimed '%s' using '%s' to get '%s' from player %d" % (
            a['who'], CLASS[kind], notation([i for i in ids if i != got]), notation([] if got is None else [got]),
            (int(a['who']) + (int(a['m']) & 3)) % 4)
        return [s]
    if tag == 'REACH':
        return ['player %s richii' % a['who']]
    if tag == 'DORA':
        return ['new dora indicator ' + tile(a['hai'])]
    if tag == 'AGARI':
        return ['player %s win %s from player %s' % (a['who'], a['ten'].split(',')[1], a['fromWho'])]
    if tag == 'RYUUKYOKU':
        return [('no body win ' + DRAWN.get(a.get('type'), '')).strip()]
    return None


def plain(s):
    return re.sub("'([0-9]+)([mps])'", lambda m: "'%s%s'" % (''.join(sorted(m.group(1).replace('0', '5'))), m.group(2)), s)


def hand_text(evs, name):
    s = evs[0][1]['seed'].split(',')
    ends = []
    for tag, a in evs:
        if tag == 'AGARI':
            who, frm, v = int(a['who']), int(a['fromWho']), a['ten'].split(',')[1]
            ends.append('%s:ツモ(%s)' % (name[who], v) if who == frm else '%s<-%s:ロン(%s)' % (name[who], name[frm], v))
        elif tag == 'RYUUKYOKU':
            ends.append(('流局 ' + DRAWN.get(a.get('type'), '')).strip())
    return '%s%d局%s本 %s' % ('東南西北'[int(s[0]) // 4], int(s[0]) % 4 + 1, s[1], ','.join(ends))


def check(case):
    if 'player' in case:
        from mahjong.record.player import TenhouPlayer
        n, l, r = case['player']
        got, want = str(TenhouPlayer(0, n, l, r, 'M')), '%s %s R%.2f' % (unquote(n), RANKS[l], r)
        return None if got == want else 'player %r, expected %r' % (got, want)
    if 'scores' in case:
        from mahjong.record.reader import TenhouRecord
        from mahjong.record.player import TenhouPlayer
        n = len(case['points'])
        rec = object.__new__(TenhouRecord)
        rec.game_type, rec.end_score, rec.end_point = 'TYPE', case['scores'], case['points'] + [0] * (4 - n)
        rec.players = [TenhouPlayer(k, 'abcd'[k], 0, 0, 'M') for k in range(n)]
        return standings(str(rec), 'TYPE', 'abcd'[:n], case['scores'], case['points'])
    from mahjong.record.reader import TenhouRecord
    events = record(random.Random(case['seed']), max_hands=3, max_turns=case['turns'])
    rec = TenhouRecord(to_xml(events))
    un = next(a for t, a in events if t == 'UN')
    n = len(rec.players)
    name = [unquote(un['n%d' % k]) for k in range(n)]
    for k, p in enumerate(rec.players):
        want = '%s %s R%.2f' % (name[k], RANKS[int(un['dan'].split(',')[k])], float(un['rate'].split(',')[k]))
        if str(p) != want:
            return 'player %r, expected %r' % (str(p), want)
    for e, (tag, a) in zip(rec.events, events):
        want = describe(tag, a)
        got = e.base_str().strip()
        if tag == 'N':        # a set of tiles does not tell a red five from a five of the same suit (T01)
            got, want = plain(got), [plain(x) for x in want]
        if want is not None and got not in want:
            return '%s %s: %r, expected %r' % (tag, a, e.base_str(), want)
    hands = []
    for tag, a in events:
        if tag == 'INIT':
            hands.append([])
        if hands:
            hands[-1].append((tag, a))
    for g, evs in zip(rec.game_list, hands):
        got, want = str(g).strip(), hand_text(evs, name)
        if got != want:
            return 'hand %r, expected %r' % (got, want)
    ow = events[-1][1]['owari'].split(',')
    return standings(str(rec), str(rec.game_type), name, [int(x) for x in ow[::2]], [float(x) for x in ow[1::2]])


def standings(got, what, name, score, point):
    order = sorted(range(len(name)), key=lambda p: (-score[p], p))
    want = '%s %s' % (what, ','.join('%d位:%s(%.1f)' % (i + 1, name[p], point[p]) for i, p in enumerate(order)))
    return None if got == want else 'standings %r, expected %r' % (got, want)


def gen(rng, tier):
    for l in range(21):
        yield {'player': ['x%20y', l, 1500.25]}
    for k in range(60):
        n = 3 + k % 2
        yield {'scores': [rng.choice([250, 300, -10, 100]) for _ in range(n)] + [0] * (4 - n), 'points': [rng.choice([1.5, -20, 0.04, 33]) for _ in range(n)]}
    for k in range(400 if tier == 'quick' else 8000):
        yield {'seed': rng.randrange(10 ** 9), 'turns': rng.choice([4, 12, 40, 70])}


if __name__ == '__main__':
    run(gen, check, 'generated records with all kinds of events, three and four players: every event, player, hand and the standings; all ranks')
