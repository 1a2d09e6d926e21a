"""U02: TransferDict over dictionaries of any size; nested paths of depth 1 to 3, deeper ones by the contract harnesses.

A dictionary of any size is a pair of functions (presence and value of a key), evaluated at the keys that are looked
at; the value at a key is a leaf, a dictionary or a TransferDict (case split).  Claims are made at an arbitrary key."""
from props.lib import *
from pv.model import PMap, PMapView, Abstract

X_ = 'mahjong.record.universe.executor'
FUNCS = ['record.universe.executor.TransferDict.__init__', 'record.universe.executor.TransferDict.transfer_value',
         'record.universe.executor.TransferDict.set', 'record.universe.executor.TransferDict.drop',
         'record.universe.executor.TransferDict.setdefault', 'record.universe.executor.TransferDict.flatten_iter',
         'record.universe.executor.TransferDict.__getitem__', 'record.universe.executor.TransferDict.__contains__',
         'record.universe.executor.TransferDict.__getattr__']
TRUSTED = ['dictionaries: {**m, k: v}, comprehensions, copy, del, in, [] (model pv/model.py PMap; key order not modelled)']
ASSUMPTIONS = ['set and drop are proved for nested paths of depth 1 to 3 directly; for any depth by induction over the contract of '
               'parent.set (harness "set by contract") and of the constructor (harness "constructor by contract")',
               'comprehensions over a dictionary are evaluated at the keys that are looked at',
               'setdefault of an absent key (a present key returns the dictionary itself)']


class Key:
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return self.name


class Leaf:
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return 'leaf ' + self.name


KIND = ['absent', 'leaf', 'dict', 'td']


class Tree(PMap):
    """An arbitrary source dictionary: what a key holds is chosen when it is first looked at."""

    def __init__(self, name, fixed=None):
        self.kinds = {}
        self.name = name
        self.fixed = fixed or {}        # key -> Tree or Leaf
        PMap.__init__(self, lambda k: self.kind(k) != 'absent', self.val)

    def kind(self, k):
        if k in self.fixed:
            return 'fixed'
        if k not in self.kinds:
            self.kinds[k] = E.choose(KIND)
        return self.kinds[k]

    def val(self, k):
        kd = self.kind(k)
        if kd == 'fixed':
            return self.fixed[k]
        n = '%s.%s' % (self.name, k)
        if kd == 'leaf':
            return Leaf(n)
        t = Tree(n)
        return t if kd == 'dict' else M(X_).TransferDict(t)


def td_of(tree):
    return M(X_).TransferDict(tree)


def is_td(x):
    return isinstance(x, M(X_).TransferDict)


O1, O2, P = Key('other'), Key('other2'), Key('probe')


def content(node, k, levels=2):
    """Content of a node at key k, to compare before and after."""
    if k not in node:
        return None
    v = node[k]
    if not is_td(v) and not isinstance(v, Tree):
        return ('leaf', id(v))
    return ('node', content(v, O1, levels - 1) if levels else '...')


def linked(name, child, root, path, ks, key):
    """A change made through the child reaches the root: root.path.probe is set and the rest is as before."""
    leaf = Leaf('probe')
    new = child.set(P, leaf)
    E.prove(name + ': a change through it gives a tree', is_td(new))
    cur, old = new, root
    for k in ks:
        cur, old = cur[k], old[k]
    if key not in path:
        E.prove(name + ': the entry changed last is kept', content(cur, key, 1) == content(old, key, 1))
    cur, old = new, root
    lv = E.choose(range(len(path)))
    for j, k in enumerate(path):
        E.prove(name + ': at its place', k in cur and is_td(cur[k]))
        if O1 not in path and j == lv:
            E.prove(name + ': the rest of the tree is kept', content(cur, O1) == content(old, O1))
        cur, old = cur[k], old[k]
    E.prove(name + ': the change arrives there', P in cur and cur[P] is leaf)
    E.prove(name + ': beside the old entries', content(cur, O1, 1) == content(old, O1, 1))


def given(kind):
    if kind == 'leaf':
        return Leaf('given')
    t = Tree('given', {O1: Leaf('in the given one')})
    return t if kind == 'dict' else td_of(t)


def path_tree(depth, inner_fixed=None, name='root'):
    """A root whose nested path k1..k(depth-1) exists; everything else is arbitrary."""
    ks = [Key('k%d' % i) for i in range(1, depth)]
    t = Tree(name + '.' * depth, inner_fixed)
    trees = [t]
    for k in reversed(ks):
        t = Tree(name, {k: t})
        trees.insert(0, t)
    return ks, trees


def h_change(depth, op):
    def h():
        key = Key('key')
        fixed = {key: Leaf('old')} if op == 'drop' and E.choose([True, False]) else None
        ks, trees = path_tree(depth, fixed)
        root = td_of(trees[0])
        node = root
        views = [root]
        for k in ks:
            node = node[k]
            E.prove('a nested dictionary reads as one', is_td(node))
            views.append(node)
        if op == 'drop' and key not in node:
            return
        if op == 'setdefault' and key in node:
            return
        value = given(E.choose(['leaf', 'dict', 'td'])) if op != 'drop' else None
        lv = E.choose(range(depth))         # the level whose other entries are looked at
        before = content(views[lv], O1)
        bkey = content(node, key)
        new = node.drop(key) if op == 'drop' else node.set(key, value) if op == 'set' else node.setdefault(key, value)
        E.cover('done')
        E.prove('the result is a tree', is_td(new))
        cur = new
        for j, k in enumerate(ks + [None]):
            if j == lv:
                E.prove('every other entry is equal to before', content(cur, O1) == before)
            if k is not None:
                E.prove('the path is still there', k in cur and is_td(cur[k]))
                cur = cur[k]
        if op == 'drop':
            E.prove('the key is gone', key not in cur)
        else:
            E.prove('the key is there', key in cur)
            if isinstance(value, Leaf):
                E.prove('with the value given', cur[key] is value)
            else:
                E.prove('with the content given', is_td(cur[key]) and content(cur[key], O1) == content(value, O1)
                        or (isinstance(value, Tree) and is_td(cur[key]) and cur[key][O1] is value[O1]))
        E.prove('earlier views keep their content', content(views[lv], O1) == before)
        E.prove('earlier views keep the changed entry', content(node, key) == bkey)
        E.prove('the new root is another object', new is not root)
        for t in trees:
            E.prove('source dictionaries are unchanged', t.ver == 0)
    return h


def touch(root, ks):
    """Comprehensions over a dictionary are evaluated where they are looked at: look at an arbitrary entry of every level."""
    for k in ks + [None]:
        if O1 in root:
            root[O1]
        if k is None or k not in root:
            return
        root = root[k]


def h_links(depth, op, old=False):
    """Every nested dictionary of the new root is linked to it, those of the old root stay linked to that."""
    def h():
        key = Key('key')
        ks, trees = path_tree(depth, {key: Leaf('old')})
        root = td_of(trees[0])
        node = root
        for k in ks:
            node = node[k]
        value = given(E.choose(['leaf', 'dict', 'td'])) if op == 'set' else None
        new = node.set(key, value) if op == 'set' else node.drop(key) if op == 'drop' else root
        if old:
            touch(new, ks)
            new = root
        cur, path = new, []
        what = E.choose(['path', 'new entry', 'other'] if not old else ['path', 'other'])
        for k in ks:
            if what == 'path':
                linked('the path', cur[k], new, path + [k], ks, key)
            cur = cur[k]
            path.append(k)
        if what == 'new entry' and op == 'set' and not isinstance(value, Leaf):
            linked('the new entry', cur[key], new, path + [key], ks, key)
        if what != 'other':
            return
        # an arbitrary other nested dictionary of some level
        lv = E.choose(range(depth))
        cur = new
        for k in ks[:lv]:
            cur = cur[k]
        if O1 in cur and is_td(cur[O1]):
            linked('another entry', cur[O1], new, ks[:lv] + [O1], ks, key)
            E.cover('other')
    return h


# ---- induction over the depth: parent.set and the nested constructor by contract ---------------------------------
class GhostParent:
    def __init__(self):
        self.calls = []
        self.result = Leaf('what the parent returns')

    def set(self, key, value):
        self.calls.append((key, value))
        return self.result


def h_set_contract(op):
    """node.set(k, v) hands exactly the changed copy of itself to its parent and returns the parent's result."""
    def h():
        key, pk = Key('key'), Key('parent key')
        p = GhostParent()
        node = M(X_).TransferDict(Tree('node', {key: Leaf('old')} if op == 'drop' else None), p, pk)
        b = content(node, O1)
        if op == 'setdefault' and key in node:
            return
        value = given(E.choose(['leaf', 'dict', 'td'])) if op != 'drop' else None
        r = node.drop(key) if op == 'drop' else node.set(key, value) if op == 'set' else node.setdefault(key, value)
        E.cover('done')
        E.prove('returns what the parent returns', r is p.result)
        E.prove('the parent is asked once, for the key of this node', len(p.calls) == 1 and p.calls[0][0] is pk)
        m = p.calls[0][1]
        E.prove('with a dictionary', is_td(m))
        E.prove('every other entry as before', content(m, O1) == b)
        if op == 'drop':
            E.prove('without the key', key not in m)
        else:
            E.prove('with the key', key in m and (m[key] is value if isinstance(value, Leaf) else is_td(m[key]) and m[key][O1] is value[O1]))
        E.prove('the node keeps its content', content(node, O1) == b)
    return h


def h_ctor_contract():
    """TransferDict(m): each nested dictionary of m is constructed from that dictionary, with this node and its key."""
    mod = M(X_)
    real = mod.TransferDict
    t = Tree('m')
    k = O1
    kind = t.kind(k)
    v = t.value(k) if kind != 'absent' else None
    made = []

    class Meta(type):
        def __instancecheck__(cls, x):
            return type(x) is cls or isinstance(x, real)

    class NestedTransferDict(metaclass=Meta):
        def __init__(self, nested_dict, parent=None, parent_key=None):
            self.nested_dict, self.parent, self.parent_key = nested_dict, parent, parent_key
            made.append(self)
    stub(mod, 'TransferDict', NestedTransferDict)
    node = real(t, None, None)
    E.prove('the same keys', (k in node) == (kind != 'absent'))
    if k not in node:
        return
    got = node[k]
    E.cover(kind)
    if kind == 'leaf':
        E.prove('a leaf is kept', got is v)
        return
    if type(got) is real:
        raise Unsupported('the nested dictionary is not constructed anew')
    E.prove('a nested dictionary becomes a linked one', type(got) is NestedTransferDict)
    E.prove('linked to this node under its key', got.parent is node and got.parent_key is k)
    m = got.nested_dict
    src = v if kind == 'dict' else v
    if hasattr(m, 'pv_map'):
        E.prove('with the content of the dictionary', (O2 in m) == (O2 in src) and (O2 not in m or is_same(m[O2], src[O2])))
    elif isinstance(m, real):
        E.prove('with the content of the dictionary', m is v)
    else:
        raise Unsupported('content of a nested dictionary')


def is_same(a, b):
    return a is b


class FlattenCut(Cut):
    name = 'flatten_iter/for'

    def match(self, seq, loc):
        return isinstance(seq, (PMapView, GhostPairs))

    def length(self, seq, loc):
        return 1

    def indices(self, seq, loc):
        return [0]

    def element(self, seq, i, loc):
        if isinstance(seq, GhostPairs):
            return True, seq.pair
        k = O1
        E.assume_checked(as_z3bool(bool(seq.m.has(k))))
        return True, seq.f(k, seq.m.value(k))

    def havoc(self, seq, i, loc):
        return {}

    def invariant(self, seq, i, loc):
        return []


class GhostPairs(Abstract):
    """The leaves of a nested dictionary with their paths, by contract: any number; one of them."""
    pv_abstract = True

    def __init__(self, pair):
        self.pair = pair


def h_flatten():
    """Each entry of the dictionary gives exactly the leaves below it, with the key put in front of their paths."""
    mod = M(X_)
    t = Tree('m')
    kind = t.kind(O1)
    CUTS['TransferDict.flatten_iter'] = [FlattenCut()]
    node = td_of(t)
    rest = E.choose([(O2,), (O2, P)])
    if kind == 'absent':
        return
    real = mod.TransferDict
    leaf = Leaf('below')
    if kind != 'leaf':
        child = node[O1]
        child.__dict__['flatten_iter'] = lambda: GhostPairs((rest, leaf))
    out = []
    it = iter(node.flatten_iter())
    mode_done = object()
    got = next(it, mode_done)
    if got is mode_done:
        E.cover('end')
        return
    E.cover(kind)
    if kind == 'leaf':
        E.prove('the leaf with its key as the path', type(got) is tuple and len(got) == 2 and got[0] == (O1,) and got[1] is t.value(O1))
    else:
        E.prove('the leaf below with the key in front', type(got) is tuple and len(got) == 2 and tuple(got[0]) == (O1,) + rest and got[1] is leaf)
        E.prove('the path is a tuple', type(got[0]) is tuple)
    again = next(it, mode_done)
    E.prove('one entry per leaf', again is mode_done)


def h_construct():
    """A new tree reads as its source."""
    t = Tree('m')
    node = td_of(t)
    if O1 in t:
        v = t.value(O1)
        E.prove('present', O1 in node)
        if isinstance(v, Leaf):
            E.cover('leaf')
            E.prove('leaf', node[O1] is v)
        else:
            E.cover('node')
            E.prove('nested', is_td(node[O1]) and (O1 in node[O1]) == (O1 in v))
            if O1 in v and isinstance(v[O1], Leaf):
                E.prove('nested leaf', node[O1][O1] is v[O1])
            E.prove('same answer again', node[O1][O1] is node[O1][O1] if O1 in v else True)
    else:
        E.prove('absent', O1 not in node)
    E.prove('the source is unchanged', t.ver == 0)


def harnesses(tier):
    hs = [Harness('construction', h_construct, FUNCS, ['leaf', 'node']),
          Harness('constructor by contract', h_ctor_contract, FUNCS, ['leaf', 'dict', 'td']),
          Harness('flatten_iter', h_flatten, FUNCS, ['leaf', 'dict', 'td', 'end'])]
    for op in ('set', 'drop', 'setdefault'):
        hs.append(Harness(op + ' by contract', h_set_contract(op), FUNCS, ['done']))
        for d in (1, 2, 3):
            hs.append(Harness('%s at depth %d' % (op, d), h_change(d, op), FUNCS, ['done'] if d == 1 or op != 'setdefault' else []))
            if op != 'setdefault':
                hs.append(Harness('links after %s at depth %d' % (op, d), h_links(d, op), FUNCS, ['other']))
    for op in ('set', 'drop'):
        for d in (1, 2):
            hs.append(Harness('links of the old root after %s at depth %d' % (op, d), h_links(d, op, True), FUNCS, ['other']))
    for d in (2, 3):
        hs.append(Harness('links of a new tree at depth %d' % d, h_links(d, 'new'), FUNCS, ['other']))
    return hs
