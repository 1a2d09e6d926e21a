import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from common import run


def spec(rng, depth=0, last=True):
    """A category: ['sub', radices, named] or ['mix', [parts], named]."""
    if depth >= 2 or rng.random() < .5:
        r = [rng.choice([1, 1, 2, 3, 4, 7, 9]) for _ in range(rng.choice([1, 1, 2, 3, 4]))]
        if last and rng.random() < .3:
            r[0] = -1
        return ['sub', r]
    k = rng.choice([1, 2, 3, 4, 5])
    return ['mix', [spec(rng, depth + 1, last and i == k - 1) for i in range(k)]]


def gen(rng, tier):
    import itertools
    for n in (1, 2, 3):
        for r in itertools.product([-1, 1, 2, 3, 10] if n < 3 else [-1, 1, 2, 3], *[[1, 2, 3, 10]] * (n - 1)):
            for named in (0, 1):
                yield {'cat': ['sub', list(r)], 'named': named}
    for i in range(300 if tier == 'quick' else 4000):       # large radices: numbers beyond machine precision
        yield {'cat': ['sub', [rng.choice([-1, 2, 10 ** 6])] + [rng.choice([3, 7, 10 ** 4 + 7, 2 ** 31 - 1, 10 ** 9]) for _ in range(rng.randrange(1, 5))]],
               'named': i % 2}
    for i in range(4000 if tier == 'quick' else 60000):
        yield {'cat': spec(rng), 'named': i % 2}


def size(c):
    if c[0] == 'sub':
        n = 1
        for r in c[1]:
            n = None if (n is None or r == -1) else n * r
        return n
    n = 0
    for p in c[1]:
        s = size(p)
        n = None if (n is None or s is None) else n + s
    return n


def digits(c, i):
    if c[0] == 'sub':
        out = []
        for r in reversed(c[1]):
            if r == -1:
                out.append(i)
                i = 0
            else:
                out.append(i % r)
                i //= r
        return tuple(reversed(out))
    for j, p in enumerate(c[1]):
        s = size(p)
        if s is None or i < s:
            return (j,) + digits(p, i)
        i -= s


def make(c, named, path=''):
    from mahjong.record.category import SubCategory, MixedCategory
    if c[0] == 'sub':
        if named:
            return SubCategory(*c[1], caption='s' + path, names=['f%s_%d' % (path, i) for i in range(len(c[1]))])
        return SubCategory(*c[1])
    return MixedCategory([make(p, False, path) for p in c[1]])


def make_named(c, path='x'):
    """A mixed category of named sub categories with merged names, as the repository builds them."""
    from mahjong.record.category import SubCategory, MixedCategory
    parts = [SubCategory(*p[1], caption='c%s%d' % (path, i), names=['f%s%d_%d' % (path, i, k) for k in range(len(p[1]))])
             for i, p in enumerate(c[1])]
    return MixedCategory(parts, caption='mix', field_name='part')


def check(case):
    c = case['cat']
    n = size(c)
    if case['named'] and c[0] == 'mix' and all(p[0] == 'sub' for p in c[1]):
        cat = make_named(c)
    else:
        cat = make(c, case['named'])
    if type(cat).__len__(cat) != (float('inf') if n is None else n):
        return 'len %s, expected %s' % (type(cat).__len__(cat), n)
    if n is None:
        idx = list(range(40)) + [97, 1000, 12345, 10 ** 12 + 7, 2 ** 53 + 1, 10 ** 18 + 3, 10 ** 25 + 1]
    elif n <= 200:
        idx = range(n)
    else:
        idx = sorted(set(list(range(60)) + list(range(n - 60, n)) + [n * k // 37 for k in range(37)]))
    last = None
    for i in idx:
        t = cat.category(i)
        if tuple(t) != digits(c, i):
            return 'category(%d) is %s, expected %s' % (i, tuple(t), digits(c, i))
        if cat.index(tuple(t)) != i or cat.index(t) != i:
            return 'index(%s) is %s, expected %d' % (tuple(t), cat.index(tuple(t)), i)
        if last is not None and not last < tuple(t):
            return 'order'
        last = tuple(t)
        if case['named'] and c[0] == 'sub' and t._fields != tuple('f_%d' % k for k in range(len(c[1]))):
            return 'names'


if __name__ == '__main__':
    run(gen, check, 'all radix lists up to length 3 over small radices, random nested mixed categories, named and unnamed, limited and not')
