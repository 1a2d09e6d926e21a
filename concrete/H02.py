import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from common import run
from states import cases, scan, drive, universe


def check(case):
    from mahjong.record.state import InvisibleTiles
    n = case['players']
    ref = scan(n, case['events'])
    return drive(case, lambda: InvisibleTiles(n), frozenset, lambda i: frozenset(ref[i]['invisible'] if i >= 0 else universe(n)))


if __name__ == '__main__':
    run(cases, check, 'generated records, subsequences of them, unrelated events in between and starts in mid-hand; 3 and 4 players')
