import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from common import run
import random
from records import record, to_xml, meld_tiles

DRAWN = {'kaze4': '四風連打', 'yao9': '九種九牌', 'ron3': '三家和了', 'reach4': '四家立直', 'kan4': '四槓散了', 'nm': '流局滿貫'}
TYPE = {'flush': 'CHI', 'triplet': 'PENG', 'add_kan': 'GANG', 'kita': 'KITA'}


def tile(i):
    i = int(i)
    if i in (16, 52, 88):
        return '0' + 'mps'[i // 36]
    k = i // 4
    return '%d%s' % (k % 9 + 1, 'mpsz'[k // 9])


def tiles(ids):
    return ''.join(tile(i) for i in ids)


def rows(tag, a):
    """The rows of an event; a value that is a tuple of tuples: groups of tiles, each in any order."""
    if tag[0] in 'TUVW' and tag[1:].isdigit():
        return [('DRAW', {'player': str('TUVW'.index(tag[0])), 'player_see': tile(tag[1:])})]
    if tag[0] in 'DEFG' and tag[1:].isdigit():
        return [('DISCARD', {'player': str('DEFG'.index(tag[0])), 'player_show': tile(tag[1:])})]
    if tag == 'INIT':
        n = 4 if a.get('hai3') else 3
        ten, seed = a['ten'].split(','), a['seed'].split(',')
        out = [('INIT%d' % (p + 1), {'player': str(p), 'player_see': tiles(sorted(map(int, a['hai%d' % p].split(',')))),
                                     'score': ten[p] + '00'}) for p in range(n)]
        return out + [('DORA', {'player': '0', 'player_see': tile(seed[5]), 'player_show': tile(seed[5])}),
                      ('ROUND', {'score': seed[2] + '000'})]
    if tag == 'N':
        kind, ids, got = meld_tiles(int(a['m']))
        own = tuple(tile(i) for i in ids if i != got)
        new = () if got is None else (tile(got),)
        w = {'player': a['who'], 'player_show': (own,), 'player_open': (new, own),
             'origin': str((int(a['who']) + (int(a['m']) & 3)) % 4)}
        if kind == 'kita':
            del w['origin']
        return [(TYPE.get(kind) or ('ANGANG' if got is None else 'MINGGANG'), w)]
    if tag == 'REACH':
        if a['step'] == '1':
            return [('CALLRICHI', {'player': a['who']})]
        return [('RICHI', {'player': a['who']}), ('SCORE', {'player': a['who'], 'score': '-1000'})]
    if tag == 'DORA':
        return [('DORA', {'player': '0', 'player_see': tile(a['hai']), 'player_show': tile(a['hai'])})]
    if tag == 'AGARI':
        return [('WIN', {'player': a['who'], 'origin': a['fromWho']})]
    if tag == 'RYUUKYOKU':
        return [('EVEN', {'origin': DRAWN[a['type']] if 'type' in a else ''})]
    return []


def same(g, w):
    g = str(g)
    if isinstance(w, str):
        return g == w
    for group in w:
        part, g = g[:2 * len(group)], g[2 * len(group):]
        if sorted(part[i:i + 2] for i in range(0, len(part), 2)) != sorted(group):
            return False
    return not g


def differs(got, want, extra):
    if len(got) != len(want):
        return '%d rows, expected %d' % (len(got), len(want))
    for g, (t, w) in zip(got, want):
        if g.get('event_type', '').strip() != t or set(g) != set(w) | {'event_type'} | set(extra):
            return 'row %r, expected %s %r' % (g, t, w)
        for k, v in list(w.items()) + list(extra.items()):
            if not same(g[k], v):
                return 'row %r: %s is %r, expected %r' % (g, k, str(g[k]), v)


def check(case):
    import logging
    logging.disable(logging.CRITICAL)
    from mahjong.record.utils.event import TenhouEvent
    if 'events' in case:
        import xml.etree.ElementTree as ET
        for tag, at in case['events']:
            msg = differs(TenhouEvent(ET.Element(tag, at), context=None, timestamp=0).to_paifu(), rows(tag, at), {})
            if msg:
                return '%s %s: %s' % (tag, at, msg)
        return
    from mahjong.record.reader import TenhouRecord
    events = record(random.Random(case['seed']), max_hands=3, max_turns=case['turns'])
    rec = TenhouRecord(to_xml(events))
    hands, cur = [], None
    for tag, at in events:
        if tag == 'INIT':
            s = at['seed'].split(',')
            cur = ([], {'game_str': '%s-%d-%s' % ('ESWN'[int(s[0]) // 4], int(s[0]) % 4 + 1, s[1])})
            hands.append(cur)
        if cur is not None:
            cur[0].extend(rows(tag, at))
    for e, (tag, at) in zip(rec.events, events):
        msg = differs(e.to_paifu(), rows(tag, at), {})
        if msg:
            return '%s %s: %s' % (tag, at, msg)
    for g, (want, label) in zip(rec.game_list, hands):
        msg = differs(g.to_paifu(), want, label)
        if msg:
            return 'hand: ' + msg
    n = len(rec.players)
    score = events[-1][1]['owari'].split(',')[::2]
    got, at = rec.to_paifu(), 0
    for want, label in hands:
        msg = differs(got[at:at + len(want)], want, label)
        if msg:
            return 'record: ' + msg
        at += len(want)
    return differs(got[at:], [('FIN%d' % (p + 1), {'player': str(p), 'score': str(int(score[p]) * 100)}) for p in range(n)], {})


def gen(rng, tier):
    for t in [None] + list(DRAWN):
        yield {'events': [['RYUUKYOKU', dict({'ba': '0,0', 'sc': '0,0'}, **({'type': t} if t else {}))]]}
    for k in range(400 if tier == 'quick' else 8000):
        yield {'seed': rng.randrange(10 ** 9), 'turns': rng.choice([4, 12, 40, 70])}


if __name__ == '__main__':
    run(gen, check, 'generated records with all kinds of events, three and four players: every event, hand and record')
