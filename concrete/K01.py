import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from common import run, Event
from oracle import KINDS, NAMES, mincost, pairs_cost, useful
from hands import rand_hand
from records import enc_flush, enc_triplet, enc_kan, enc_kita, meld_tiles
from steps import step_fn


def gen(rng, tier):
    for i in range(20000 if tier == 'quick' else 100000):
        m = rng.choice([0, 0, 0, 0, 1, 2, 3, 4])
        kitas = rng.choice([0, 0, 0, 1, 2])
        free = set(range(136))
        melds = []
        for _ in range(m):
            for _try in range(50):
                x = rng.randrange(3)
                c = enc_flush(9 * rng.randrange(3) + rng.randrange(7), [rng.randrange(4) for _ in range(3)], rng.randrange(3)) if x == 0 \
                    else enc_triplet(rng.randrange(34), rng.randrange(4), rng.randrange(3), rng.randrange(1, 4)) if x == 1 \
                    else enc_kan(rng.randrange(34), rng.randrange(4), rng.randrange(4))
                if set(meld_tiles(c)[1]) <= free:
                    free -= set(meld_tiles(c)[1])
                    melds.append(c)
                    break
        for k in range(kitas):
            if 120 + k in free:
                free.discard(120 + k)
                melds.append(enc_kita(120 + k))
        rng.shuffle(melds)
        size = 3 * (4 - sum(1 for c in melds if meld_tiles(c)[0] != 'kita')) + 2
        h = rand_hand(rng, size)
        if m == 0 and rng.random() < .5:     # near seven pairs
            h = [0] * 34
            for k in rng.sample(range(34), rng.choice([6, 7, 7, 8])):
                h[k] = 2
            while sum(h) > size:
                k = rng.choice([k for k in range(34) if h[k]])
                h[k] -= 1
            while sum(h) < size:
                k = rng.choice([k for k in range(34) if h[k] < 4])
                h[k] += 1
        ids = []
        bad = False
        for k, c in enumerate(h):
            f = [t for t in range(4 * k, 4 * k + 4) if t in free]
            if len(f) < c:
                bad = True
                break
            ids += rng.sample(f, c)
        if bad:
            continue
        free -= set(ids)
        p = rng.choice([.1, .5, .9, 1, 1])
        inv = sorted(set(t for t in free if rng.random() < p) | set(ids))
        rng.shuffle(ids)
        yield {'hand': ids, 'invisible': inv, 'melds': melds, 'discard': rng.choice(ids), 'who': rng.randrange(4)}


def check(case):
    import mahjong.tenhou_record_check as T
    from mahjong.record.state import PlayerHand, PlayerMeld, InvisibleTiles
    from mahjong.record.player import TenhouPlayer
    from mahjong.record.utils.value.meld import meld_from
    who = case['who']
    pl = TenhouPlayer(who, 'x', 0, 1500.0, 'M')
    ids, inv = case['hand'], set(case['invisible'])
    melds = [meld_from(Event('N', who=str(who), m=str(c))) for c in case['melds']]
    hs, ms, vs = PlayerHand(pl, set(ids)), PlayerMeld(pl, list(melds)), InvisibleTiles(4, set(inv))
    r = T.discard_reasoning(Event('DEFG'[who] + str(case['discard'])), hs, vs, pl, ms)
    if hs.value != set(ids) or vs.value != inv or ms.value != melds:
        return 'a state was changed'
    M = 4 - sum(1 for c in case['melds'] if meld_tiles(c)[0] != 'kita')
    types = [step_fn(M)] + ([step_fn(None)] if M == 4 else [])
    h = [0] * 34
    for t in ids:
        h[t // 4] += 1
    seen = inv - set(ids)
    left = [sum(1 for t in range(4 * k, 4 * k + 4) if t in seen) for k in range(34)]
    res = {}
    for k in range(34):
        if h[k]:
            g = list(h)
            g[k] -= 1
            steps = [f(g) for f in types]
            use = set()
            for f, s in zip(types, steps):
                if s == min(steps):
                    use |= useful(g, f)
            res[k] = (min(steps), use, sum(left[u] for u in use))
    best = min((s, -n) for s, _, n in res.values())
    want = {k for k, (s, _, n) in res.items() if (s, -n) == best}

    def kind(names):
        return NAMES.index(names[0].replace('0', '5'))

    def check_item(name, k, it):
        s, use, n = res[k]
        if it.waiting_step != s:
            return '%s: waiting step %s of discard %s, expected %d' % (name, it.waiting_step, NAMES[k], s)
        if [NAMES.index(x.replace('0', '5')) for x in it.useful_tiles] != sorted(use):
            return '%s: useful tiles %s of discard %s, expected %s' % (name, it.useful_tiles, NAMES[k], [NAMES[x] for x in sorted(use)])
        if it.useful_tiles_count != n:
            return '%s: %s useful tiles of discard %s, expected %d' % (name, it.useful_tiles_count, NAMES[k], n)
    got = [kind(it.discard_tile) for it in r.expected_reasonings]
    if sorted(got) != sorted(want):
        return 'recommended %s, expected %s' % ([NAMES[k] for k in got], [NAMES[k] for k in sorted(want)])
    for k, it in zip(got, r.expected_reasonings):
        msg = check_item('recommended', k, it)
        if msg:
            return msg
    mine = case['discard'] // 4
    msg = check_item('chosen', mine, r.your_choice_reasoning)
    if msg or kind(r.your_choice_reasoning.discard_tile) != mine:
        return msg or 'chosen discard'
    w = r.wrong_rate
    if not (0 <= w <= 1):
        return 'wrong rate %s' % w
    if mine in want and w != 0:
        return 'wrong rate %s for a best discard' % w
    s, _, n = res[mine]
    if mine not in want and s == best[0] and not w > 0:
        return 'wrong rate %s for a discard that is not the best' % w
    keys = [(it.waiting_step, -it.useful_tiles_count) for it in r.merged_reasoning]
    ds = [kind(it.discard_tile) for it in r.merged_reasoning]
    if keys != sorted(keys) or len(set(ds)) != len(ds) or any(h[k] == 0 for k in ds):
        return 'merged list %s' % list(zip(ds, keys))


if __name__ == '__main__':
    run(gen, check, 'random hands (also complete and near seven pairs) with 0-4 melds and kitas, any set of invisible tiles, any discard')
