import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from common import run
from urllib.parse import urlparse, parse_qs, unquote


def numeral(rng):
    k = rng.randrange(8)
    if k == 0:
        return str(rng.randrange(-200, 200))
    if k == 1:
        return '%d.%s' % (rng.randrange(-100, 100), rng.choice(['0', '00', '5', '25', '75', '1', '9', '001', '999']))
    if k == 2:
        return rng.choice(['-0', '0', '-0.0', '0.0', '-0.5', '.5', '5.', '+7', '007', '1500.00', '-15.0'])
    if k == 3:
        return str(rng.choice([-1, 1]) * rng.randrange(2 ** 53))
    if k == 4:
        return '%d.%d' % (rng.randrange(10 ** 6), rng.randrange(10 ** 4))
    if k == 5:
        return str(2 ** 53 - 1 - rng.randrange(5))
    return str(rng.randrange(136))


LETTERS = 'abcdefghijklmnopqrstuvwxyz0123456789-ABCDEFXYZ_.'


def log_id(rng):
    if rng.random() < .5:
        return '20%02d%02d%02d%02dgm-%04x-0000-%08x' % (rng.randrange(9, 25), rng.randrange(1, 13), rng.randrange(1, 29),
                                                    rng.randrange(24), rng.randrange(65536), rng.randrange(2 ** 32))
    return ''.join(rng.choice(LETTERS) for _ in range(rng.randrange(1, 40)))


def gen(rng, tier):
    for i in range(20000 if tier == 'quick' else 300000):
        if i % 2:
            yield {'numbers': [numeral(rng) for _ in range(rng.choice([1, 1, 2, 4, 8]))], 'split': rng.choice([',', ',', ';', ' '])}
        else:
            f = ['tw=%d' % rng.randrange(4), 'ts=1', 'n0=x%20y', 'x=', 'y', 'catalog=1', 'log2=abc', 'Log=abc', 'u=log', 'q=a%26log%3Db',
                 'tlog=9']
            for _ in range(rng.choice([0, 0, 1, 2])):     # any other field
                nm = ''.join(rng.choice('logtwLOGn0_-.') for _ in range(rng.randrange(1, 6)))
                if nm != 'log':
                    f = f + [nm + '=' + ''.join(rng.choice(['log=', 'tw=', '=', '?', '/', '%20', '%26', ':', 'x', '0', ',', '.', '+']) for _ in range(rng.randrange(0, 5)))] * 4
            a = [rng.choice(f) for _ in range(rng.choice([0, 0, 1, 2, 4]))]
            b = [rng.choice(f) for _ in range(rng.choice([0, 1, 1, 2, 4]))]
            yield {'log': log_id(rng), 'before': a, 'after': b, 'host': rng.choice(
                ['http://tenhou.net/0/', 'https://tenhou.net/3/', 'http://tenhou.net/0/log/', 'https://e.mjv.jp/0/log/plainfiles.cgi', 'tenhou.net/0/']),
                'frag': rng.choice(['', '', '#log=zzz', '#', '#?log=a&log=b', '#/&log=q'])}


def check(case):
    if 'numbers' in case:
        from mahjong.record.utils.value.general import number_list
        from fractions import Fraction
        from decimal import Decimal
        args = [] if case['split'] == ',' else [case['split']]
        got = number_list(case['split'].join(case['numbers']), *args)
        if type(got) is not list or len(got) != len(case['numbers']):
            return '%d numbers, expected %d' % (len(got), len(case['numbers']))
        for g, s in zip(got, case['numbers']):
            d = Decimal(s)
            want = int(d) if d == int(d) else float(d)
            if type(g) is not type(want) or g != want:
                return '%r read as %r' % (s, g)
        return None
    from mahjong.record.reader import log_id_from_url, log_id_to_url, download_url
    i = case['log']
    if log_id_from_url(log_id_to_url(i)) != i:
        return 'id %r comes back as %r' % (i, log_id_from_url(log_id_to_url(i)))
    u = case['host'] + '?' + '&'.join(case['before'] + ['log=' + i] + case['after']) + case['frag']
    if log_id_from_url(u) != i:
        return 'id of %s read as %r' % (u, log_id_from_url(u))
    d = download_url(u)
    p = urlparse(d)
    if (p.scheme, p.netloc, p.path, p.query, p.fragment) != ('http', 'e.mjv.jp', '/0/log/', i, ''):
        return 'download url %s' % d


if __name__ == '__main__':
    run(gen, check, 'random numerals (signs, fractions, leading zeros, up to 2**53) and log links with other fields around the id')
