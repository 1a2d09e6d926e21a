"""Generator of well-formed game records (tenhou events), independent of /repo."""
KUI = {'chi': 3}


def enc_flush(base, owns, r, kui=3):
    """base: kind index of the first tile (suit*9+rank, rank <= 6); owns: copy index 0..3 of each of the three tiles."""
    t = 3 * (base // 9 * 7 + base % 9) + r
    return kui | 4 | owns[0] << 3 | owns[1] << 5 | owns[2] << 7 | t << 10


def enc_triplet(kind, unused, r, kui):
    return kui | 8 | unused << 5 | (3 * kind + r) << 9


def enc_added(kind, added, r, kui):
    return kui | 16 | added << 5 | (3 * kind + r) << 9


def enc_kan(kind, r, kui):
    return kui | (4 * kind + r) << 8


def enc_kita(tile):
    return 32 | tile << 8


def meld_tiles(c):
    """(kind of meld, tiles, borrowed or None) of a well-formed code."""
    if c & 4:
        t = c >> 10
        base, r = divmod(t, 3)
        k = base // 7 * 9 + base % 7
        tiles = [4 * (k + i) + ((c >> (3 + 2 * i)) & 3) for i in range(3)]
        return 'flush', tiles, tiles[r]
    if c & 8:
        t = c >> 9
        tiles = [4 * (t // 3) + i for i in range(4) if i != (c >> 5) & 3]
        return 'triplet', tiles, tiles[t % 3]
    if c & 16:
        t = c >> 9
        return 'add_kan', [4 * (t // 3) + ((c >> 5) & 3)], None
    t = c >> 8
    if c & 32:
        return 'kita', [t], None
    tiles = [4 * (t // 4) + i for i in range(4)]
    return 'kan', tiles, (tiles[t % 4] if c & 3 else None)


def game_type(rng):
    """A game type code whose printed rules are arbitrary."""
    return rng.randrange(2048) & ~1 | 1


def universe(players):
    if players == 4:
        return list(range(136))
    return [t for t in range(136) if t < 4 or t >= 32]


def names(rng):
    pool = ['abc', '%E3%83%88%E3%83%90', 'x%20y', 'NoName', '%E9%9B%80', 'a%2Fb', 'q%22%3Cb%3E']
    return [rng.choice(pool) for _ in range(4)]


def play(rng, players, max_turns, start_id=0):
    """Events of one hand, each as (tag, attributes)."""
    uni = universe(players)
    wall = uni[:]
    rng.shuffle(wall)
    hands = [sorted(wall.pop() for _ in range(13)) for _ in range(players)]
    for h in hands:
        rng.shuffle(h)
    dora = wall.pop()
    ev = []
    oya = rng.randrange(players)
    ten = [rng.choice([250, 350, 120, 0, 413, -20]) for _ in range(players)] + [0] * (4 - players)
    rnd = rng.randrange(4 * 1 + 4)
    seed = [rnd % 8, rng.randrange(3), rng.randrange(4), rng.randrange(6), rng.randrange(6), dora]
    at = {'seed': ','.join(map(str, seed)), 'ten': ','.join(map(str, ten)), 'oya': str(oya)}
    for p in range(4):
        at['hai%d' % p] = ','.join(map(str, hands[p])) if p < players else ''
    ev.append(('INIT', at))
    hands = [set(h) for h in hands]
    trip = {}
    p = oya
    turns = rng.randrange(1, max_turns + 1)
    drawn = None
    need_draw = True
    last = None
    winner = None
    while turns and wall:
        turns -= 1
        if need_draw:
            drawn = wall.pop()
            hands[p].add(drawn)
            ev.append(('TUVW'[p] + str(drawn), {}))
            # concealed kan, added kan, kita
            while wall and rng.random() < .5:
                by = {}
                for t in hands[p]:
                    by.setdefault(t // 4, []).append(t)
                four = [k for k, v in by.items() if len(v) == 4]
                add = [k for k in by if (p, k) in trip]
                kita = by.get(30, []) if players == 3 else []
                if kita and rng.random() < .7:
                    t = rng.choice(kita)
                    ev.append(('N', {'who': str(p), 'm': str(enc_kita(t))}))
                    hands[p].discard(t)
                elif add:
                    k = rng.choice(add)
                    unused, r, kui = trip.pop((p, k))
                    ev.append(('N', {'who': str(p), 'm': str(enc_added(k, unused, r, kui))}))
                    hands[p].discard(4 * k + unused)
                elif four:
                    k = rng.choice(four)
                    ev.append(('N', {'who': str(p), 'm': str(enc_kan(k, rng.randrange(4), 0))}))
                    for t in by[k]:
                        hands[p].discard(t)
                else:
                    break
                drawn = wall.pop()
                hands[p].add(drawn)
                if rng.random() < .5 and wall:
                    ev.append(('DORA', {'hai': str(wall.pop())}))
                ev.append(('TUVW'[p] + str(drawn), {}))
        reach = rng.random() < .05
        if reach:
            ev.append(('REACH', {'who': str(p), 'step': '1'}))
        t = drawn if (need_draw and rng.random() < .3) else rng.choice(sorted(hands[p]))
        hands[p].discard(t)
        ev.append(('DEFG'[p] + str(t), {}))
        if reach:
            ev.append(('REACH', {'who': str(p), 'step': '2', 'ten': ','.join(map(str, ten))}))
        last = (p, t)
        need_draw = True
        nxt = (p + 1) % players
        # calls
        k = t // 4
        calls = []
        for q in range(players):
            if q == p:
                continue
            same = [x for x in hands[q] if x // 4 == k]
            kui = (p - q) % 4
            if len(same) >= 2:
                calls.append(('pon', q, kui))
            if len(same) == 3:
                calls.append(('kan', q, kui))
        if players == 4 and k < 27:
            for base in range(k - 2, k + 1):
                if base // 9 != k // 9 or base < 0 or base % 9 > 6:
                    continue
                rest = [x for x in range(base, base + 3) if x != k]
                if all(any(y // 4 == x for y in hands[nxt]) for x in rest):
                    calls.append(('chi', nxt, base))
        if calls and rng.random() < .8:
            kind, q, x = rng.choice(calls)
            if kind == 'chi':
                owns, r = [], k - x
                for i in range(3):
                    if x + i == k:
                        owns.append(t % 4)
                    else:
                        y = rng.choice([y for y in sorted(hands[q]) if y // 4 == x + i])
                        owns.append(y % 4)
                        hands[q].discard(y)
                m = enc_flush(x, owns, r, 3)
            elif kind == 'pon':
                mine = rng.sample(sorted(y for y in hands[q] if y // 4 == k), 2)
                used = sorted(mine + [t])
                unused = ({0, 1, 2, 3} - {y % 4 for y in used}).pop()
                m = enc_triplet(k, unused, used.index(t), x)
                trip[(q, k)] = (unused, used.index(t), x)
                for y in mine:
                    hands[q].discard(y)
            else:
                for y in [y for y in hands[q] if y // 4 == k]:
                    hands[q].discard(y)
                m = enc_kan(k, t % 4, x)
            ev.append(('N', {'who': str(q), 'm': str(m)}))
            p = q
            need_draw = kind == 'kan'
            drawn = None
            continue
        if rng.random() < .03:
            ev.append(('BYE', {'who': str(rng.randrange(players))}))
        p = nxt
    sc = []
    for q in range(4):
        sc += [ten[q], 0]
    if last is not None and rng.random() < .6:
        who = rng.randrange(players)
        frm = rng.choice([who, last[0]])
        if frm == who:
            machi = rng.choice(sorted(hands[who]))
            hai = sorted(hands[who])
        else:
            machi = last[1]
            hai = sorted(hands[who] | {machi})
        sc[2 * who + 1], sc[2 * frm + 1] = 39, (-39 if frm != who else 39)
        at = {'ba': '0,0', 'hai': ','.join(map(str, hai)), 'machi': str(machi), 'ten': '30,3900,0',
              'doraHai': str(dora), 'who': str(who), 'fromWho': str(frm), 'sc': ','.join(map(str, sc))}
        if rng.random() < .8:
            at['yaku'] = rng.choice(['1,1,54,1', '0,1', '7,1,52,2'])
        else:
            at['yakuman'] = rng.choice(['37', '39,40'])
        ev.append(('AGARI', at))
        if rng.random() < .15:
            other = dict(at, who=str((who + 1) % players))
            other['hai'] = ','.join(map(str, sorted(hands[(who + 1) % players] | {machi}) if frm != (who + 1) % players
                                        else sorted(hands[(who + 1) % players])))
            if machi in map(int, other['hai'].split(',')):
                ev.append(('AGARI', other))
    else:
        at = {'ba': '0,0', 'sc': ','.join(map(str, sc))}
        if rng.random() < .4:
            at['type'] = rng.choice(['nm', 'yao9', 'reach4', 'ron3', 'kan4', 'kaze4'])
        for q in range(players):
            if rng.random() < .5:
                at['hai%d' % q] = ','.join(map(str, sorted(hands[q])))
        ev.append(('RYUUKYOKU', at))
    return ev


def record(rng, max_hands=3, max_turns=25, players=None):
    """A whole record: list of (tag, attributes)."""
    code = game_type(rng)
    if players is not None:
        code = code & ~16 | (16 if players == 3 else 0)
    n = 3 if code & 16 else 4
    nm = names(rng)
    if n == 3:
        nm[3] = ''
    ev = []
    if rng.random() < .5:
        ev.append(('SHUFFLE', {'seed': 'mt19937ar-sha512-n288-base64,xyz', 'ref': ''}))
    ev.append(('GO', {'type': str(code), 'lobby': '0'}))
    ev.append(('UN', dict({'n%d' % i: nm[i] for i in range(4)}, dan=','.join(str(rng.randrange(21)) for _ in range(4)),
                          rate=','.join(rng.choice(['1500.00', '1987.25', '2103']) for _ in range(4)), sx='M,F,M,C')))
    ev.append(('TAIKYOKU', {'oya': str(rng.randrange(n))}))
    for _ in range(rng.randrange(1, max_hands + 1)):
        ev += play(rng, n, max_turns)
        if rng.random() < .1:
            ev.append(('UN', {'n%d' % (rng.randrange(n)): rng.choice(nm[:n]) or 'x'}))
    # the record ends with the event that carries the result
    while ev[-1][0] not in ('AGARI', 'RYUUKYOKU'):
        ev.pop()
    ev[-1] = (ev[-1][0], dict(ev[-1][1], owari=owari(rng, n)))
    return ev


def owari(rng, n):
    base = [rng.choice([250, 250, 300, 100, 350, -15, 412, 88]) for _ in range(n)] + [0] * (4 - n)
    out = []
    for b in base:
        out += [str(b), rng.choice(['%.1f' % ((b - 300) / 10), str((b - 300) // 10)])]
    return ','.join(out)


def to_xml(events):
    import xml.etree.ElementTree as ET
    root = ET.Element('mjloggm', {'ver': '2.3'})
    for tag, at in events:
        ET.SubElement(root, tag, at)
    return root
