"""tools/conformance.py: does the machinery compute what Python computes?   (python3-vt tools/conformance.py [N])

1. Counter: random operations on counters with symbolic entries; the result, with random values put in for the symbols, is
   compared with collections.Counter on these values (contents, and the order where the model claims to know it).
2. Code: the instrumented sources with the library models, run by CPython on the cases of concrete/ID.py and judged by the
   same oracles that judge the unmodified sources under PyPy."""
import collections, importlib, os, random, runpy, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)
import z3
from pv.core import E, fresh_int, num, as_z3bool
from pv.model import PCounter, GSeq, RunSeq
from pv import loader

KEYS = 'abcd'
OPS = ['add', 'sub', 'and', 'or', 'iadd', 'isub', 'iand', 'ior', 'pos', 'neg', 'copy', 'update', 'subtract', 'set', 'del', 'elements', 'keys']


def value(t, sub):
    if isinstance(t, (int, bool)):
        return t
    t = as_z3bool(t) if not hasattr(t, 't') else t.t
    r = z3.simplify(z3.substitute(t, *sub))
    if z3.is_true(r) or z3.is_false(r):
        return z3.is_true(r)
    return r.as_long()


def counter_case(rng):
    sub, sym, real = [], [], []
    for i in range(2):
        s, order = PCounter(), rng.sample(KEYS, 4)
        r = collections.Counter()
        for k in order:
            kind = rng.randrange(3)
            if kind == 0:
                continue
            if kind == 1:
                v = rng.randrange(-1, 4)
                s._pv_d[k] = (True, v)
                r[k] = v
            else:
                p, c = z3.Bool(E.fresh_name('has')), fresh_int('count')
                has, v = rng.random() < .6, rng.randrange(-1, 4)
                sub += [(p, z3.BoolVal(has)), (c.t, z3.IntVal(v))]
                s._pv_d[k] = (p, c)
                if has:
                    r[k] = v
        sym.append(s)
        real.append(r)
    log = []
    for _ in range(rng.randrange(1, 4)):
        op = rng.choice(OPS)
        log.append(op)
        (a, b), (x, y) = sym, real
        if op == 'add': a, x = a + b, x + y
        elif op == 'sub': a, x = a - b, x - y
        elif op == 'and': a, x = a & b, x & y
        elif op == 'or': a, x = a | b, x | y
        elif op == 'iadd': a += b; x += y
        elif op == 'isub': a -= b; x -= y
        elif op == 'iand': a &= b; x &= y
        elif op == 'ior': a |= b; x |= y
        elif op == 'pos': a, x = +a, +x
        elif op == 'neg': a, x = -a, -x
        elif op == 'copy': a, x = a.copy(), x.copy()
        elif op == 'update': a.update(b); x.update(y)
        elif op == 'subtract': a.subtract(b); x.subtract(y)
        elif op == 'set':
            k, v = rng.choice(KEYS), rng.randrange(3)
            a[k] = v
            x[k] = v
        elif op == 'del':
            k = rng.choice(KEYS)
            del a[k]
            del x[k]
        elif op == 'elements': a, x = PCounter(a.elements()), collections.Counter(x.elements())
        elif op == 'keys': a, x = PCounter(a.keys()), collections.Counter(x.keys())
        sym[0], real[0] = a, x
    for s, r in zip(sym, real):
        got = {k: value(c, sub) for k, (p, c) in s._pv_d.items() if value(p, sub)}
        assert got == dict(r), (log, got, r)
        if s._pv_order:
            assert list(got) == list(r), (log, list(got), list(r))
        for k in KEYS:
            assert value(s[k], sub) == r[k], (log, k)
    same = value(sym[0] == sym[1], sub) if not isinstance(sym[0] == sym[1], bool) else sym[0] == sym[1]
    assert same == (dict(real[0]) == dict(real[1])), (log, same, real)


def counters(n):
    rng = random.Random(5)

    def harness():
        counter_case(rng)
        E.prove('ran', True)
    ok = bad = und = 0
    for _ in range(n):
        E.reset_all()
        E.explore(harness, 'counter')
        st = {o.status for o in E.obligations}
        if st == {'proved'}:
            ok += 1
        elif 'refuted' in st:
            bad += 1
            if bad < 4:
                print('   MISMATCH', [o.detail[:400] for o in E.obligations if o.status == 'refuted'][0])
        else:
            und += 1
    print('Counter: %d random programs agree, %d differ, %d outside the model' % (ok, bad, und))


class _Meta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, dict)


class Dict(dict, metaclass=_Meta):
    """dict for the oracles: dict.items(counter) also of a model counter."""

    def items(self):
        return dict.items(self) if isinstance(self, dict) else [(k, c) for k, (p, c) in self._pv_d.items() if value(p, [])]

    def values(self):
        return dict.values(self) if isinstance(self, dict) else [c for k, c in Dict.items(self)]

    def keys(self):
        return dict.keys(self) if isinstance(self, dict) else [k for k, c in Dict.items(self)]


def code(n):
    RunSeq.__new__ = lambda cls, runs, *a: [v for v, c in runs for _ in range(c)]
    sys.path.insert(0, os.path.join(V, 'concrete'))
    import common
    sys.path[:] = [p for p in sys.path if p != common.REPO]      # only the loader provides mahjong
    loader.install()
    import props.lib                                             # the tiles exist, as in the harnesses
    for f in sorted(os.listdir(os.path.join(V, 'concrete'))):
        pid = f[:-3]
        if not (f.endswith('.py') and len(pid) == 3 and pid[1:].isdigit()):
            continue
        grab = {}
        common.run = lambda gen, check, *a, **k: grab.update(gen=gen, check=check)
        common.fresh = lambda name: loader.load(name)
        runpy.run_path(os.path.join(V, 'concrete', f), init_globals={'dict': Dict}, run_name='__main__')
        for m in list(sys.modules.values()):
            if (getattr(m, '__file__', None) or '').startswith(os.path.join(V, 'concrete')):
                m.dict = Dict
        cases, t0 = [], time.time()
        for i, c in enumerate(grab['gen'](random.Random(3), 'quick')):
            cases.append(c)
            if i >= 40 * n or time.time() - t0 > 20:
                break
        cases = random.Random(4).sample(cases, min(n, len(cases)))
        res = collections.Counter()
        first = {}
        t0 = time.time()
        for c in cases:
            if time.time() - t0 > 60:
                break
            E.reset_all()
            box = []

            def harness():
                E.notes['random_choices'] = lambda p, w, k: random.choices(p, w, k=k)
                box.append(grab['check'](c))
            E.explore(harness, 'case')
            st = [o for o in E.obligations if o.status != 'proved']
            k = 'agree' if box and box[-1] is None and not st else 'outside' if st and st[0].status != 'refuted' else 'differ'
            res[k] += 1
            if k != 'agree' and k not in first:
                first[k] = (str(c)[:150], str(box[-1:])[:200], st and st[0].detail[:300])
        print('%s: %s %s' % (pid, dict(res), {k: v for k, v in first.items()} or ''), flush=True)


if __name__ == '__main__':
    n = int(sys.argv[1]) if len(sys.argv) > 1 else 200
    counters(10 * n)
    code(n)
