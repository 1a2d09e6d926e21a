import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from common import run
from states import cases, scan, drive, player, meld_view, events_of


def check(case):
    from mahjong.record.state import PlayerMeld, DiscardTiles, DoraIndicators, GameStateCollection
    ref = scan(case['players'], case['events'])
    at = lambda i, f, e: f(ref[i]) if i >= 0 else e
    for p in range(case['players']):
        msg = drive(case, lambda: PlayerMeld(player(p)), lambda v: [meld_view(m) for m in v],
                    lambda i: at(i, lambda r: r['melds'][p], []))
        msg = msg or drive(case, lambda: DiscardTiles(player(p)), list, lambda i: at(i, lambda r: r['discards'][p], []))
        if msg:
            return 'player %d: %s' % (p, msg)
    msg = drive(case, lambda: DoraIndicators(), list, lambda i: at(i, lambda r: r['dora'], []))
    if msg:
        return msg

    def make():
        return GameStateCollection(a=DiscardTiles(player(0)), b=DoraIndicators(), c=PlayerMeld(player(1)), d=DiscardTiles(player(2)))
    return drive(case, make, lambda v: [list(v.a.value), list(v.b.value), [meld_view(m) for m in v.c.value], list(v.d.value)],
                 lambda i: at(i, lambda r: [r['discards'][0], r['dora'], r['melds'][1], r['discards'][2]], [[], [], [], []]))


if __name__ == '__main__':
    run(cases, check, 'generated records, subsequences of them, unrelated events in between and starts in mid-hand; every player')
