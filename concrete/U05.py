import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from common import run, Event, fresh
from records import record
import random

ODD = [('X', {}), ('HELO', {'name': 'x'}), ('DORAX', {'hai': '1'}), ('REACH', {'who': '0', 'step': '3'}), ('Z12', {})]


class Rec:
    def __init__(self, events):
        self.events = [Event(t, timestamp=i, **a) for i, (t, a) in enumerate(events)]


def gen(rng, tier):
    for i in range(800 if tier == 'quick' else 10000):
        yield {'seed': rng.randrange(10 ** 9), 'before': [[rng.randrange(10 ** 9), rng.choice([-1, -1, 0, 1, 5, 40, 200])]
                                                          for _ in range(rng.choice([0, 1, 1, 2]))],
               'odd': rng.choice([0, 0, 1, 2]), 'how': rng.randrange(3), 'cut': rng.choice([0, 0, 0, 1, 2, 3, 4, 5, 8])}


def views(cmds):
    return [(c.timestamp, c.event, c.sub_scope_id, c.prop.view_property, c.prop.update_method, repr(c.value), repr(c.state)) for c in cmds]


def check(case):
    import mahjong.record.universe.tenhou as T
    rng = random.Random(case['seed'])
    clean = record(rng, max_hands=2, max_turns=12)
    if case.get('cut'):          # a record that begins in the middle: whatever happens, it happens on a fresh translator, too
        clean = clean[case['cut']:]
        case = dict(case, odd=0)
    odd = list(clean)
    for _ in range(case['odd']):
        odd.insert(rng.randrange(len(odd) + 1), rng.choice(ODD))
    kind = case['how']

    def translate(T):
        try:
            return translate_(T)
        except Exception as e:
            return [type(e).__name__]

    def translate_(T):
        if kind == 0:
            return [repr(x) for x in views(T.to_commands(Rec(odd)))]
        return [repr(tuple(r)) for r in T.to_command_records(Rec(odd), raw=(kind == 2))]

    def after_others():
        for s, n in case['before']:
            other = record(random.Random(s), max_hands=2, max_turns=12)
            it = T.to_command_iter(Rec(other), False)
            k = 0
            for _ in it:
                k += 1
                if k == n:
                    break
        got = translate(T)
        if case['odd']:
            # skipping: the commands are those of the record without the unknown events (timestamps aside)
            a = [v[1:] for v in views(T.to_commands(Rec(odd)))]
            b = [v[1:] for v in views(T.to_commands(Rec(clean)))]
            if a != b:
                return {'msg': 'an unknown event changes other commands'}
        for ev, bad in () if case.get('cut') else ((odd, case['odd'] > 0), (clean, False)):
            try:
                T.to_commands(Rec(ev), strict=True)
                failed = False
            except ValueError:
                failed = True
            if failed != bad:
                return {'msg': 'strict mode %s' % ('raised' if failed else 'accepted an unknown event')}
        return {'got': got}
    r = after_others()
    if 'msg' in r:
        return r['msg']
    got, want = r['got'], translate(fresh('mahjong.record.universe.tenhou'))
    if got != want:
        i = next((i for i, (a, b) in enumerate(zip(got, want)) if a != b), min(len(got), len(want)))
        return 'command %d differs after other records: %s, fresh %s' % (i, got[i:i + 1], want[i:i + 1])


if __name__ == '__main__':
    run(gen, check, 'generated records translated after other records (complete or abandoned anywhere) and on a fresh translator; unknown events')
