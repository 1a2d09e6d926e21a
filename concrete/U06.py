import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from common import run, Event


def gen(rng, tier):
    import itertools
    for n in (3, 4):
        for s in itertools.product([-10, 0, 250, 251], repeat=n):
            yield {'n': n, 'scores': list(s), 'points': [0] * 4, 'agari': 0}
    for i in range(4000 if tier == 'quick' else 60000):
        n = rng.choice([3, 4])
        yield {'n': n, 'scores': [rng.choice([-300, -1, 0, 0, 100, 250, 250, 251, 300, 999, rng.randrange(-500, 1200)]) for _ in range(n)],
               'points': [rng.choice([0, -15, 45.0, 12.3, -7.7, rng.randrange(-90, 90) / 10]) for _ in range(4)],
               'agari': rng.randrange(2)}


def check(case):
    from mahjong.record.universe.tenhou import tenhou_command
    n = case['n']
    tenhou_command.clear()
    tenhou_command(Event('GO', timestamp=0, type=str(9 | (16 if n == 3 else 0)), lobby='0'))
    tenhou_command(Event('INIT', timestamp=1, seed='0,0,0,1,1,3', ten='250,250,250,250', oya='0', hai0='4', hai1='8', hai2='12',
                         hai3='20' if n == 4 else ''))
    s = case['scores'] + [0] * (4 - n)
    pts = case['points']
    owari = ','.join('%s,%s' % (a, b) for a, b in zip(s, pts))
    if case['agari']:
        e = Event('AGARI', timestamp=2, ba='0,0', hai='4', machi='4', ten='30,1000,0', yaku='0,1', who='0', fromWho='0',
                  sc='250,0,250,0,250,0,250,0', owari=owari)
    else:
        e = Event('RYUUKYOKU', timestamp=2, ba='0,0', sc='250,0,250,0,250,0,250,0', owari=owari)
    got = {}
    for c in tenhou_command(e):
        if c.event.name == 'record_finish':
            k = (c.prop.view_property.name, c.sub_scope_id)
            if k in got:
                return '%s is reported twice' % (k,)
            got[k] = c.value
            if c.prop.update_method.name != 'REPLACE' or c.state != c.value or c.timestamp != 2:
                return 'update of %s' % (k,)
    if set(got) != {(f, p) for f in ('final_score', 'final_point', 'rank') for p in range(n)}:
        return 'commands for %s' % sorted(got)
    for p in range(n):
        if got['final_score', p] != s[p] * 100 or got['final_point', p] != pts[p]:
            return 'score or point of player %d' % p
    r = [got['rank', p] for p in range(n)]
    if sorted(r) != list(range(1, n + 1)):
        return 'ranks %s' % r
    for a in range(n):
        for b in range(n):
            if (s[a] > s[b] or (s[a] == s[b] and a < b)) and not r[a] < r[b]:
                return 'ranks %s of scores %s' % (r, s)


if __name__ == '__main__':
    run(gen, check, 'all score lists over four values, random ones with ties and negative scores, 3 and 4 players, wins and draws')
