import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from common import run, Event
from records import record
from universe import Oracle, compare, name


def gen(rng, tier):
    for i in range(3000 if tier == 'quick' else 40000):
        yield {'events': record(rng, max_hands=rng.choice([1, 2, 3]), max_turns=rng.choice([10, 20, 40]),
                                players=rng.choice([3, 4, 4]))}


def check(case):
    from mahjong.record.universe.tenhou import tenhou_command
    tenhou_command.clear()
    o = Oracle()
    for i, (tag, at) in enumerate(case['events']):
        e = Event(tag, timestamp=i, **at)
        want = o.event(tag, at)
        got = tenhou_command(e)
        msg = compare(got, want, i)
        if msg:
            return 'event %d %s: %s' % (i, e, msg)
        if e.attrib != at:
            return 'the event was changed'


if __name__ == '__main__':
    run(gen, check, 'generated records of 3 and 4 players with all kinds of melds, kita, riichi, reconnects, double wins and abortive draws')
