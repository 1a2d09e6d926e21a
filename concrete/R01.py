import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from common import run
import random
from records import record, to_xml


def gen(rng, tier):
    import itertools
    for n in range(0, 8):
        for bits in itertools.product([0, 1], repeat=n):
            yield {'keys': list(bits), 'read': [99] * n}
            yield {'keys': list(bits), 'read': [rng.choice([0, 0, 1, 1, 2, 3, 99]) for _ in range(n)]}
    for k in range(3000 if tier == 'quick' else 60000):
        n = rng.randrange(0, 40)
        p = rng.choice([.1, .3, .6])
        yield {'keys': [int(rng.random() < p) for _ in range(n)],
               'read': [rng.choice([0, 1, 2, 3, 99, 99]) for _ in range(n)]}
        if k % 10 == 0:
            yield {'record': rng.randrange(10 ** 9)}


def groups(keys):
    out = []
    for i, k in enumerate(keys):
        if i == 0 or (k and not keys[i - 1]):
            out.append([])
        out[-1].append(i)
    return out


def check(case):
    if 'record' in case:
        return check_record(record(random.Random(case['record']), max_hands=5, max_turns=6))
    from mahjong.record.stage import StageGroupby
    keys = case['keys']
    want = groups(keys)
    class Stamped:
        def __init__(self, i):
            self.i = i
    ev = [Stamped(i) for i in range(len(keys))]
    got = []
    it = StageGroupby(iter(ev), True, False, key=lambda e: bool(keys[e.i]))
    old = []
    for j, (_, g) in enumerate(it):
        for o in old[-2:]:
            if next(iter(o), None) is not None:
                return 'a group that was left still hands out events'
        part = []
        for _ in range(case['read'][j] if j < len(case['read']) else 99):
            x = next(g, None)
            if x is None:
                break
            part.append(x.i)
        got.append(part)
        if not part and case['read'][j:j + 1] == [0]:
            old.append(g)      # left before anything was read
    wanted = [g[:case['read'][j] if j < len(case['read']) else 99] for j, g in enumerate(want)]
    if got != wanted:
        return 'groups %s, expected %s' % (got, wanted)


def check_record(events):
    from mahjong.record.reader import TenhouRecord
    rec = TenhouRecord(to_xml(events))
    tags = [t for t, _ in events]
    if [(e.tag, e.timestamp, dict(e.attrib)) for e in rec.events] != [(t, i, a) for i, (t, a) in enumerate(events)]:
        return 'the record does not hold its events in order'
    starts = [i for i, t in enumerate(tags) if t == 'INIT'] + [len(tags)]
    if len(rec.game_list) != len(starts) - 1:
        return '%d games for %d INIT events' % (len(rec.game_list), len(starts) - 1)
    for g, a, b in zip(rec.game_list, starts, starts[1:]):
        if [e.timestamp for e in g.events] != list(range(a, b)):
            return 'game events %s, expected %d..%d' % ([e.timestamp for e in g.events], a, b - 1)
        if [e.timestamp for e in g.playing] != list(range(a + 1, b)):
            return 'playing events'
        if [e.timestamp for e in g.end_events] != [i for i in range(a, b) if tags[i] in ('AGARI', 'RYUUKYOKU')]:
            return 'end events'
        if g.seeds != [int(x) for x in events[a][1]['seed'].split(',')] or g.east_index != int(events[a][1]['oya']):
            return 'seed of the game'
    head = {t for t in tags[:starts[0]]}
    if set(vars(rec._meta)) != head:
        return 'head holds %s, expected %s' % (sorted(vars(rec._meta)), sorted(head))
    n = 3 if int(dict(events)['GO']['type']) & 16 else 4
    if len(rec.players) != n or [p.index for p in rec.players] != list(range(n)):
        return 'players'


if __name__ == '__main__':
    run(gen, check, 'all key sequences up to length 7 and random longer ones with arbitrary reading patterns; generated records')
