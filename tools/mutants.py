"""tools/mutants.py OUT.json [SEED N]: samples one-place mutants of /repo's sources and keeps those that pass the tests.
(A campaign to look for blind spots of the checks; what it finds is looked at by hand.)"""
import ast, json, os, random, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
PY = '/opt/pypyvenv/bin/python'
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', HOME='/root', LC_ALL='C.UTF-8')
SKIP = ('win_rate_demo.py', 'record/checker.py', 'universe_paifu_convert.py')
CMP = {ast.Lt: ['<=', '>='], ast.LtE: ['<'], ast.Gt: ['>=', '<='], ast.GtE: ['>'], ast.Eq: ['!='], ast.NotEq: ['=='],
       ast.In: ['not in'], ast.NotIn: ['in'], ast.Is: ['is not'], ast.IsNot: ['is']}
BIN = {ast.Add: ['-'], ast.Sub: ['+'], ast.Mult: ['//'], ast.FloorDiv: ['*', '%'], ast.Mod: ['//'], ast.BitAnd: ['|'], ast.BitOr: ['&'],
       ast.RShift: ['<<'], ast.LShift: ['>>'], ast.Div: ['*']}


def mutants(path, src):
    tree = ast.parse(src)
    lines = src.split('\n')
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l.encode()) + 1)
    b = src.encode()

    def pos(n):
        return off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset

    def text(n):
        a, e = pos(n)
        return b[a:e].decode()
    out = []

    def rep(n, new, what):
        a, e = pos(n)
        out.append((a, e, new, '%s:%d %s: %s -> %s' % (path, n.lineno, what, b[a:e].decode()[:70], new[:70])))
    doc = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            doc.add(n.value)
    for n in ast.walk(tree):
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            for o in CMP.get(type(n.ops[0]), []):
                rep(n, '%s %s %s' % (text(n.left), o, text(n.comparators[0])), 'cmp')
        elif isinstance(n, ast.BinOp):
            for o in BIN.get(type(n.op), []):
                rep(n, '%s %s %s' % (text(n.left), o, text(n.right)), 'bin')
        elif isinstance(n, ast.BoolOp):
            o = ' or ' if isinstance(n.op, ast.And) else ' and '
            rep(n, '(' + o.join(text(v) for v in n.values) + ')', 'bool')
            for v in n.values:
                rep(n, text(v), 'bool1')
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            rep(n, text(n.operand), 'not')
        elif isinstance(n, ast.Constant) and n not in doc:
            if isinstance(n.value, bool):
                rep(n, str(not n.value), 'const')
            elif isinstance(n.value, int):
                rep(n, str(n.value + 1), 'const')
                if n.value:
                    rep(n, str(n.value - 1), 'const')
            elif isinstance(n.value, str) and n.value and hasattr(n, 'col_offset') and text(n)[:1] in '"\'':
                rep(n, '"x"', 'str')
        elif isinstance(n, (ast.If, ast.IfExp)):
            rep(n.test, 'True', 'iftrue')
            rep(n.test, 'False', 'iffalse')
        elif isinstance(n, (ast.Expr, ast.AugAssign)) and not (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)):
            rep(n, 'pass', 'del')
        elif isinstance(n, ast.Break):
            rep(n, 'pass', 'del')
        elif isinstance(n, ast.Continue):
            rep(n, 'pass', 'del')
        elif isinstance(n, ast.Call):
            f = n.func
            if isinstance(f, ast.Name) and f.id in ('sorted', 'list', 'set', 'reversed', 'tuple', 'int', 'str', 'frozenset', 'TileSet') and len(n.args) == 1:
                rep(n, text(n.args[0]), 'unwrap')
            if isinstance(f, ast.Attribute) and f.attr in ('copy',) and not n.args:
                rep(n, text(f.value), 'nocopy')
            if len(n.args) == 2 and not n.keywords:
                rep(n, '%s(%s, %s)' % (text(f), text(n.args[1]), text(n.args[0])), 'swap')
            if isinstance(f, ast.Name) and f.id in ('min', 'max', 'any', 'all'):
                rep(f, {'min': 'max', 'max': 'min', 'any': 'all', 'all': 'any'}[f.id], 'dual')
        elif isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice):
            rep(n, text(n.value), 'noslice')
        elif isinstance(n, ast.Return) and n.value is not None and not isinstance(n.value, ast.Constant):
            rep(n, 'return None', 'retnone')
    res = []
    for a, e, new, what in out:
        if b[a:e].decode() != new:
            m = (b[:a] + new.encode() + b[e:]).decode()
            try:
                ast.parse(m)
            except SyntaxError:
                continue
            res.append({'file': path, 'what': what, 'a': a, 'e': e, 'new': new})
    return res


def test(args):
    i, m = args
    d = '/tmp/mt_%d_%d' % (os.getpid(), i % 1000000)
    shutil.copytree('/repo', d, ignore=shutil.ignore_patterns('.git', 'docs'))
    try:
        p = os.path.join(d, m['file'])
        b = open(p, 'rb').read()
        open(p, 'wb').write(b[:m['a']] + m['new'].encode() + b[m['e']:])
        try:
            t = subprocess.run('%s -m pytest -q -x -p no:cacheprovider --timeout=60 --ignore=tests/test_checker.py '
                               '--ignore=tests/paifu/test_tenhouRecord.py tests 2>&1 | tail -3' % PY, cwd=d, shell=True,
                               capture_output=True, text=True, timeout=400, env=ENV).stdout
        except subprocess.TimeoutExpired:
            t = 'timeout'
        return '513 passed' in t
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == '__main__':
    out, seed, n, workers = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), int(sys.argv[4])
    ms = []
    for root, _, fs in os.walk('/repo/mahjong'):
        for f in fs:
            if f.endswith('.py'):
                rel = os.path.relpath(os.path.join(root, f), '/repo')
                if not rel.endswith(SKIP):
                    ms += mutants(rel, open(os.path.join(root, f)).read())
    print(len(ms), 'mutants')
    random.Random(seed).shuffle(ms)
    ms = ms[:n]
    keep = []
    with ThreadPoolExecutor(workers) as ex:
        for m, ok in zip(ms, ex.map(test, enumerate(ms))):
            if ok:
                keep.append(m)
                print('SURVIVES', m['what'], flush=True)
                json.dump(keep, open(out, 'w'), indent=1)
    print('done', len(keep), 'of', len(ms))
