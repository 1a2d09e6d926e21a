"""pv.loader: load the real sources of /repo into the path engine.

Every run reads /repo/mahjong/**.py afresh, parses it, applies the mechanical transformation below and
executes the result under CPython.  Nothing is copied by hand.  The transformation
  * wraps the iterable of every `for` statement and of every comprehension, so that a loop over an
    abstract sequence can be cut at an invariant (`for` over ordinary values runs unchanged);
  * resolves builtins and imported library modules through the tables of pv.shims (symbolic-aware
    versions of len/sum/int/..., models of the libraries listed in shims.MODULES).
Everything else - statements, expressions, control flow, classes, closures, generators - is the code that runs.
"""
import ast
import importlib.abc
import importlib.util
import os
import sys

REPO = os.environ.get('PV_REPO', '/repo')


class _Transform(ast.NodeTransformer):
    def __init__(self):
        self.stack = []
        self.in_class = False
        self.locals = frozenset()

    def qual(self):
        return '.'.join(self.stack)

    def visit_ClassDef(self, node):
        self.stack.append(node.name)
        old, self.in_class = self.in_class, True
        self.generic_visit(node)
        self.in_class = old
        self.stack.pop()
        return node

    def _fn(self, node):
        self.stack.append(node.name)
        old, self.in_class = self.in_class, False
        oldl, self.locals = self.locals, _locals(node)
        self.generic_visit(node)
        self.in_class, self.locals = old, oldl
        self.stack.pop()
        return node

    visit_FunctionDef = _fn
    visit_AsyncFunctionDef = _fn

    def visit_For(self, node):
        loaded, assigned = _loaded(node.body), _assigned(node.body)      # of the source, before it is transformed
        self.generic_visit(node)
        key = '%s' % self.qual()
        # local variables whose object the body may change in place: an invariant can replace the object
        swaps = sorted((loaded & self.locals) - assigned - _targets(node.target))
        names = sorted(assigned | _targets(node.target))
        carried = sorted(assigned - _targets(node.target))
        depth = '_%d_%d' % (node.lineno, node.col_offset)
        h = '__pv_l' + depth
        if not self.stack or self.in_class:
            return node            # module or class level: always concrete
        globs = self.globals_in_scope
        carried = [n for n in carried if n not in globs]
        names = [n for n in names if n not in globs]
        pre = ast.Assign([ast.Name(h, ast.Store())],
                         _call('__pv_for__', [node.iter, ast.Constant(key), ast.Constant(tuple(carried)),
                                              ast.Call(ast.Name('locals', ast.Load()), [], [])
                                              ]))
        node.iter = ast.Name(h, ast.Load())
        enter = []
        if carried:
            enter = [ast.If(_attr(h, 'active'),
                            [ast.Assign([ast.Name(n, ast.Store())],
                                        ast.Call(_attr(h, 'get'), [ast.Constant(n)], [])) for n in carried], [])]
        out = []
        if swaps:
            enter = enter + [ast.If(_attr(h, 'active'), [_swap(h, n) for n in swaps], [])]
        node.body = enter + node.body
        if names:
            out = [ast.If(_attr(h, 'exited'),
                          [ast.Assign([ast.Name(n, ast.Store())],
                                      ast.Call(_attr(h, 'get'), [ast.Constant(n)], [])) for n in names], [])]
        if swaps:
            out = out + [ast.If(_attr(h, 'exited'), [_swap(h, n) for n in swaps], [])]
        node.orelse = out + node.orelse
        res = [pre, node]
        for r in res:
            ast.copy_location(r, node)
            ast.fix_missing_locations(r)
        return res

    def visit_While(self, node):
        assigned = _assigned(node.body) | _assigned([ast.Expr(node.test)])
        self.generic_visit(node)
        if not self.stack or self.in_class:
            return node
        carried = sorted(n for n in assigned
                         if n not in self.globals_in_scope)
        h = '__pv_w_%d_%d' % (node.lineno, node.col_offset)
        pre = [ast.Assign([ast.Name(h, ast.Store())],
                          _call('__pv_while__', [ast.Constant(self.qual()), ast.Constant(tuple(carried)),
                                                 ast.Call(ast.Name('locals', ast.Load()), [], [])]))]
        if carried:
            pre.append(ast.If(_attr(h, 'active'),
                              [ast.Assign([ast.Name(n, ast.Store())],
                                          ast.Call(_attr(h, 'get'), [ast.Constant(n)], [])) for n in carried], []))
        node.test = ast.BoolOp(ast.And(), [ast.Call(_attr(h, 'again'), [], []), node.test])
        res = pre + [node]
        for r in res:
            ast.copy_location(r, node)
            ast.fix_missing_locations(r)
        return res

    def visit_Set(self, node):
        self.generic_visit(node)
        if any(isinstance(e, ast.Starred) for e in node.elts):
            return node
        r = ast.copy_location(_call('__pv_setlit__', node.elts), node)
        ast.fix_missing_locations(r)
        return r

    def visit_AugAssign(self, node):
        self.generic_visit(node)
        op = {ast.BitOr: '|', ast.BitAnd: '&', ast.Sub: '-', ast.BitXor: '^'}.get(type(node.op))
        if op is None or not self.stack or self.in_class:
            return node
        # only the right operand is wrapped: an in-place set operation with a symbolic set splits the path
        t = node.target
        if isinstance(t, ast.Name):
            left = ast.Name(t.id, ast.Load())
        elif isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name):
            left = ast.Attribute(ast.Name(t.value.id, ast.Load()), t.attr, ast.Load())
        else:
            return node
        node.value = _call('__pv_inplace__', [left, node.value])
        ast.copy_location(node.value, node)
        ast.fix_missing_locations(node)
        return node

    def _comp(self, node):
        self.generic_visit(node)
        return self._comp1(node)

    def _comp1(self, node):
        if len(node.generators) == 2 and not isinstance(node, ast.DictComp) and not any(g.is_async for g in node.generators):
            g, g2 = node.generators
            params = _target_lambda(g.target)
            if params is not None and _target_lambda(g2.target) is not None and self.stack and not self.in_class \
                    and not _has_scope_problem(node):
                import copy
                kind = {ast.ListComp: 'list', ast.SetComp: 'set', ast.GeneratorExp: 'gen'}[type(node)]
                inner = ast.GeneratorExp(copy.deepcopy(node.elt), [copy.deepcopy(g2)])
                ast.copy_location(inner, node)
                inner = _mk_lambda(params, self._comp1(inner))
                cond = ast.Constant(None)
                if g.ifs:
                    c = ast.BoolOp(ast.And(), g.ifs) if len(g.ifs) > 1 else g.ifs[0]
                    cond = _mk_lambda(params, _Merge().visit(copy.deepcopy(c)))
                native = copy.deepcopy(node)
                native.generators[0].iter = ast.Name('__pv_it', ast.Load())
                expr = _call('__pv_comp2__', [ast.Constant(kind), g.iter, ast.Lambda(_args(['__pv_it']), native), inner, cond])
                ast.copy_location(expr, node)
                ast.fix_missing_locations(expr)
                return expr
        if len(node.generators) == 1 and not node.generators[0].is_async:
            g = node.generators[0]
            it = g.iter
            params = _target_lambda(g.target)
            if params is not None and self.stack and not self.in_class and not _has_scope_problem(node):
                kind = {ast.ListComp: 'list', ast.SetComp: 'set', ast.GeneratorExp: 'gen',
                        ast.DictComp: 'dict'}.get(type(node))
                if kind:
                    elt = ast.Tuple([node.key, node.value], ast.Load()) if kind == 'dict' else node.elt
                    # native evaluation stays native: the comprehension is only replaced for abstract sequences
                    import copy
                    alt_elt = _mk_lambda(params, _Merge().visit(copy.deepcopy(elt)))
                    cond = None
                    if g.ifs:
                        c = ast.BoolOp(ast.And(), g.ifs) if len(g.ifs) > 1 else g.ifs[0]
                        cond = _mk_lambda(params, _Merge().visit(copy.deepcopy(c)))
                    native = copy.deepcopy(node)
                    native.generators[0].iter = ast.Name('__pv_it', ast.Load())
                    expr = _call('__pv_comp__', [ast.Constant(kind), it,
                                                 ast.Lambda(_args(['__pv_it']), native), alt_elt,
                                                 cond if cond is not None else ast.Constant(None)])
                    ast.copy_location(expr, node)
                    ast.fix_missing_locations(expr)
                    return expr
        ast.fix_missing_locations(node)
        return node

    visit_ListComp = _comp
    visit_SetComp = _comp
    visit_GeneratorExp = _comp
    visit_DictComp = _comp

    def visit_Dict(self, node):
        self.generic_visit(node)
        if not any(k is None for k in node.keys) or not self.stack or self.in_class:
            return node
        # {**m, k: v}: merged from left to right, so that m may be a map of unknown size
        parts = []
        for k, v in zip(node.keys, node.values):
            parts.append(ast.Tuple([ast.Constant(True), v, ast.Constant(None)] if k is None
                                   else [ast.Constant(False), k, v], ast.Load()))
        r = ast.copy_location(_call('__pv_dictlit__', parts), node)
        ast.fix_missing_locations(r)
        return r

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod) and isinstance(node.left, ast.Constant) and isinstance(node.left.value, str):
            return ast.fix_missing_locations(ast.copy_location(_call('__pv_format__', [node.left, node.right]), node))
        return node

    def visit_Call(self, node):
        self.generic_visit(node)
        f = node.func
        if isinstance(f, ast.Attribute) and f.attr == 'join' and isinstance(f.value, ast.Constant) and \
                isinstance(f.value.value, str) and len(node.args) == 1 and not node.keywords and \
                not isinstance(node.args[0], ast.Starred):
            return ast.fix_missing_locations(ast.copy_location(_call('__pv_join__', [f.value, node.args[0]]), node))
        return node

    globals_in_scope = frozenset()


class _Merge(ast.NodeTransformer):
    """Boolean structure of a comprehension over an abstract sequence, evaluated without splitting the path."""

    def visit_Lambda(self, node):
        return node
    visit_ListComp = visit_SetComp = visit_GeneratorExp = visit_DictComp = visit_Lambda

    def visit_UnaryOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Not):
            return ast.copy_location(_call('__pv_not__', [node.operand]), node)
        return node

    def visit_BoolOp(self, node):
        self.generic_visit(node)
        f = '__pv_and__' if isinstance(node.op, ast.And) else '__pv_or__'
        return ast.copy_location(_call(f, [ast.Lambda(_args([]), v) for v in node.values]), node)

    def visit_IfExp(self, node):
        self.generic_visit(node)
        return ast.copy_location(_call('__pv_ite__', [node.test, ast.Lambda(_args([]), node.body),
                                                      ast.Lambda(_args([]), node.orelse)]), node)

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1:
            return node
        parts = []
        left = node.left
        for op, right in zip(node.ops, node.comparators):
            parts.append(ast.Compare(left, [op], [right]))
            left = right
        return ast.copy_location(_call('__pv_and__', [ast.Lambda(_args([]), v) for v in parts]), node)


def _has_scope_problem(node):
    for e in ([node.key, node.value] if isinstance(node, ast.DictComp) else [node.elt]):
        for n in ast.walk(e):
            if isinstance(n, (ast.Yield, ast.YieldFrom, ast.Await, ast.NamedExpr)):
                return True
    return False


def _target_lambda(t):
    if isinstance(t, ast.Name):
        return ('n', t.id)
    if isinstance(t, (ast.Tuple, ast.List)):
        sub = [_target_lambda(e) for e in t.elts]
        if any(s is None for s in sub):
            return None
        return ('t', sub)
    return None


def _mk_lambda(params, body):
    """lambda (destructured element): body, as `lambda e: (lambda a, b: body)(*flat(e))`."""
    names = []

    def flat(p, src):
        if p[0] == 'n':
            names.append(p[1])
            return [src]
        out = []
        for i, s in enumerate(p[1]):
            out += flat(s, ast.Subscript(src, ast.Constant(i), ast.Load()))
        return out
    args = flat(params, ast.Name('__pv_e', ast.Load()))
    uniq = []
    keep = []
    for n, a in zip(names, args):        # `_` may appear several times
        if n in uniq:
            keep[uniq.index(n)] = a
        else:
            uniq.append(n)
            keep.append(a)
    inner = ast.Lambda(_args(uniq), body)
    return ast.Lambda(_args(['__pv_e']), ast.Call(inner, keep, []))


def _args(names):
    return ast.arguments(posonlyargs=[], args=[ast.arg(n) for n in names], kwonlyargs=[], kw_defaults=[], defaults=[])


def _attr(h, a):
    return ast.Attribute(ast.Name(h, ast.Load()), a, ast.Load())


def _call(name, args):
    return ast.Call(ast.Name(name, ast.Load()), args, [])


def _swap(h, n):
    return ast.If(ast.Compare(ast.Constant(n), [ast.In()], [_attr(h, 'ov')]),
                  [ast.Assign([ast.Name(n, ast.Store())], ast.Call(_attr(h, 'get'), [ast.Constant(n)], []))], [])


def _locals(fn):
    a = fn.args
    out = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]}
    out |= _assigned(fn.body)
    for n in ast.walk(fn):
        if isinstance(n, (ast.Global, ast.Nonlocal)):
            out -= set(n.names)
    return out


def _loaded(body):
    return {n.id for s in body for n in ast.walk(s) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load)
            and not n.id.startswith('__pv_')}


def _targets(t):
    return {n.id for n in ast.walk(t) if isinstance(n, ast.Name)}


def _assigned(body):
    out = set()

    class V(ast.NodeVisitor):
        def visit_FunctionDef(self, n):
            out.add(n.name)

        def visit_Lambda(self, n):
            pass

        def visit_ListComp(self, n):
            # walrus targets inside comprehensions leak to the function
            for x in ast.walk(n):
                if isinstance(x, ast.NamedExpr):
                    out.add(x.target.id)
        visit_SetComp = visit_GeneratorExp = visit_DictComp = visit_ListComp

        def visit_Name(self, n):
            if isinstance(n.ctx, (ast.Store, ast.Del)):
                out.add(n.id)
    v = V()
    for s in body:
        v.visit(s)
    return {n for n in out if not n.startswith('__pv_')}


class Finder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    def __init__(self, shims):
        self.shims = shims
        self.sources = {}

    def find_spec(self, name, path=None, target=None):
        if name != 'mahjong' and not name.startswith('mahjong.'):
            return None
        base = os.path.join(REPO, *name.split('.'))
        if os.path.isdir(base):
            fn = os.path.join(base, '__init__.py')
            spec = importlib.util.spec_from_loader(name, self, origin=fn, is_package=True)
            spec.submodule_search_locations = [base]
            return spec
        fn = base + '.py'
        if os.path.exists(fn):
            return importlib.util.spec_from_loader(name, self, origin=fn)
        return None

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        fn = module.__spec__.origin
        src = ''
        if os.path.exists(fn):
            with open(fn, encoding='utf-8') as f:
                src = f.read()
        self.sources[module.__name__] = src
        module.__file__ = fn
        tree = ast.parse(src, fn)
        tree = _Transform().visit(tree)
        ast.fix_missing_locations(tree)
        code = compile(tree, fn, 'exec')
        module.__dict__['__builtins__'] = self.shims.builtins_for(module.__name__)
        exec(code, module.__dict__)


_finder = None


def install():
    global _finder
    if _finder is None:
        from pv import shims
        for m in [m for m in sys.modules if m == 'mahjong' or m.startswith('mahjong.')]:
            del sys.modules[m]
        _finder = Finder(shims)
        sys.meta_path.insert(0, _finder)
        sys.dont_write_bytecode = True
    return _finder


def load(name):
    install()
    import importlib
    if name in sys.modules:
        return sys.modules[name]
    from pv import loops
    from pv.core import E
    cuts, notes = dict(loops.CUTS), getattr(E, 'notes', None)
    loops.CUTS.clear()          # module level code runs as it is
    E.notes = {}
    try:
        m = importlib.import_module(name)
    finally:
        loops.CUTS.update(cuts)
        if notes is not None:
            E.notes = notes
    snapshot()
    return m


# ---- path isolation: module and class level state is put back before every path -------------------------
_saved = {}


def _PC():
    from pv.model import PCounter
    return PCounter


def _containers(mod):
    seen = []

    def add(o, depth):
        if any(o is x for x in seen):
            return
        if isinstance(o, (dict, list, set)) or isinstance(o, _PC()):
            seen.append(o)
        if depth and hasattr(o, '__dict__') and type(o).__module__.startswith('mahjong') and not isinstance(o, type):
            seen.append(o.__dict__)
            for v in list(o.__dict__.values()):
                add(v, depth - 1)
    for k, v in list(vars(mod).items()):
        if k.startswith('__'):
            continue
        add(v, 3)
        if isinstance(v, type) and v.__module__ == mod.__name__:
            for kk, x in list(vars(v).items()):
                if not kk.startswith('__'):
                    add(x, 2)
        if type(v).__name__ == 'function' and v.__dict__:
            add(v.__dict__, 1)
    return seen


def _copy(o):
    if isinstance(o, _PC()):
        return (dict(o._pv_d), o._pv_order)
    return o.copy()


def snapshot():
    _saved.clear()
    for name in [m for m in sys.modules if m == 'mahjong' or m.startswith('mahjong.')]:
        for o in _containers(sys.modules[name]):
            if id(o) not in _saved:
                _saved[id(o)] = (o, _copy(o))


def _same(o, c):
    if len(o) != len(c):
        return False
    if isinstance(o, dict):
        return all(a is b for a, b in zip(o, c)) and all(o[k] is c[k] for k in c)
    if isinstance(o, list):
        return all(a is b for a, b in zip(o, c))
    return False


def restore():
    for o, c in _saved.values():
        if isinstance(o, _PC()):
            if not _same(o._pv_d, c[0]):
                o._pv_d.clear()
                o._pv_d.update(c[0])
            o._pv_order = c[1]
        elif not _same(o, c):
            o.clear()
            if isinstance(o, list):
                o.extend(c)
            else:
                o.update(c)
