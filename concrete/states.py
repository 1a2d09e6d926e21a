"""Oracle for the states of a hand (H01-H03): plain replay of a list of (tag, attributes)."""
import random
import re
from common import Event
from records import record, meld_tiles, universe

ODD = [('UN', {'n1': 'abc'}), ('BYE', {'who': '2'}), ('REACH', {'who': '0', 'step': '1'}), ('GO', {'type': '9', 'lobby': '0'}),
       ('TAIKYOKU', {'oya': '0'}), ('SHUFFLE', {'seed': 'x', 'ref': ''}), ('RYUUKYOKU', {'ba': '0,0', 'sc': '1,0,1,0,1,0,1,0'}),
       ('DORAX', {'hai': '3'}), ('NX', {'who': '0', 'm': '49225'}), ('T', {}), ('D', {}), ('Z5', {}), ('G12x', {}), ('AT5', {})]


def cases(rng, tier):
    n = 4000 if tier == 'quick' else 60000
    for k in range(n):
        players = rng.choice([3, 4])
        ev = record(rng, max_hands=rng.choice([1, 1, 2, 3]), max_turns=rng.choice([8, 20, 60]), players=players)
        mode = k % 4
        if mode == 1:          # any subsequence is a sequence of events, too
            ev = [e for e in ev if rng.random() < .8]
        elif mode == 2:        # unrelated events anywhere, events before the first INIT
            for _ in range(6):
                ev.insert(rng.randrange(len(ev) + 1), rng.choice(ODD[:8] + ODD[8:9]))
        elif mode == 3:        # start in the middle of a hand
            ev = ev[rng.randrange(len(ev)):]
        yield {'players': players, 'events': ev}


def num(tag, letters):
    m = re.match(r'^([%s])([0-9]+)$' % letters, tag)
    return (letters.index(m.group(1)), int(m.group(2))) if m else None


def scan(players, events):
    """State after every event: {'hand': [...], 'melds': [...], 'discards': [...], 'dora': [...], 'invisible': set}."""
    hand = [set() for _ in range(4)]
    melds = [[] for _ in range(4)]
    disc = [[] for _ in range(4)]
    dora = []
    inv = set(universe(players))
    out = []
    for tag, at in events:
        d, g = num(tag, 'TUVW'), num(tag, 'DEFG')
        if tag == 'INIT':
            for p in range(4):
                hand[p] = {int(x) for x in at['hai%d' % p].split(',') if x}
                melds[p], disc[p] = [], []
            dora = [int(at['seed'].split(',')[-1])]
            inv = set(universe(players)) - set(dora)
        elif d:
            hand[d[0]] = hand[d[0]] | {d[1]}
        elif g:
            hand[g[0]] = hand[g[0]] - {g[1]}
            disc[g[0]] = disc[g[0]] + [g[1]]
            inv = inv - {g[1]}
        elif tag == 'DORA':
            dora = dora + [int(at['hai'])]
            inv = inv - {int(at['hai'])}
        elif tag == 'N':
            w = int(at['who'])
            kind, tiles, bor = meld_tiles(int(at['m']))
            own = frozenset(t for t in tiles if t != bor)
            src = (w + (int(at['m']) & 3)) % 4
            hand[w] = hand[w] - own
            inv = inv - own
            if kind == 'add_kan':
                melds[w] = [('kan+', x[1] | own, x[2], x[3]) if x[0] == 'triplet' and min(x[1] | x[2]) // 4 == tiles[0] // 4 else x
                            for x in melds[w]]
            else:
                melds[w] = melds[w] + [(kind, own, frozenset([bor]) if bor is not None else frozenset(), src)]
        out.append({'hand': list(hand), 'melds': list(melds), 'discards': list(disc), 'dora': dora, 'invisible': inv})
    return out


def events_of(case):
    return [Event(t, timestamp=i, **a) for i, (t, a) in enumerate(case['events'])]


def player(i):
    from mahjong.record.player import TenhouPlayer
    return TenhouPlayer(i, 'p%d' % i, 0, 1500.0, 'M')


def meld_view(m):
    kind = {'Flush': 'flush', 'Triplet': 'triplet', 'TenhouKan': 'kan', 'Kita': 'kita', 'KanFromTriplet': 'kan+',
            'TenhouAddedKan': 'add_kan'}[type(m).__name__]
    return kind, frozenset(m.self_tiles), frozenset(m.borrowed_tiles), m.from_who


def drive(case, make, view, want):
    """make() -> initial state; view(value) -> comparable; want(i) -> expected after i+1 events, want(-1) initially."""
    ev = events_of(case)
    s = make()
    if view(s.value) != want(-1):
        return 'initial value %s' % (view(s.value),)
    seen = []
    for i, e in enumerate(ev):
        before = view(s.value)
        key = bool(s.is_key_event(e))
        t = s.scan(e)
        if view(s.value) != before:
            return 'scan of event %d %s changed the earlier state' % (i, e)
        if view(t.value) != want(i):
            return 'after event %d %s: %s, expected %s' % (i, e, view(t.value), want(i))
        if not key and view(t.value) != before:
            return 'event %d %s changes the value but is no key event' % (i, e)
        seen.append((t, view(t.value)))
        s = t
    for i, (t, v) in enumerate(seen):
        if view(t.value) != v:
            return 'the state after event %d was changed later' % i
    fin = make().passed_events(iter(ev))
    if view(fin.value) != want(len(ev) - 1):
        return 'passed_events gives %s' % (view(fin.value),)
    every = list(make().with_events(iter(ev)))
    if [view(x.value) for x in every] != [want(i) for i in range(len(ev))]:
        return 'with_events differs from scanning'
    return None
