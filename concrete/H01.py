import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from common import run
from states import cases, scan, drive, player


def check(case):
    from mahjong.record.state import PlayerHand
    ref = scan(case['players'], case['events'])
    for p in range(case['players']):
        msg = drive(case, lambda: PlayerHand(player(p)), frozenset, lambda i: frozenset(ref[i]['hand'][p]) if i >= 0 else frozenset())
        if msg:
            return 'player %d: %s' % (p, msg)


if __name__ == '__main__':
    run(cases, check, 'generated records, subsequences of them, unrelated events in between and starts in mid-hand; every player')
