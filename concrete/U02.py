import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from common import run
import copy
import json


def tree(rng, depth):
    d = {}
    for _ in range(rng.choice([0, 1, 2, 3, 4])):
        k = rng.choice('abcdef')
        d[k] = tree(rng, depth - 1) if depth > 0 and rng.random() < .6 else rng.choice([0, 1, 'x', None, [1, 2], [], 2.5])
    return d


def paths(d, p=()):
    yield p
    for k, v in d.items():
        if isinstance(v, dict):
            yield from paths(v, p + (k,))


def put(d, path, key, value, drop):
    d = copy.copy(d)
    if path:
        d[path[0]] = put(d[path[0]], path[1:], key, value, drop)
    elif drop:
        del d[key]
    else:
        d[key] = copy.deepcopy(value)
    return d


def at(d, path):
    for k in path:
        d = d[k]
    return d


def gen(rng, tier):
    for i in range(4000 if tier == 'quick' else 80000):
        t = cur = tree(rng, rng.choice([0, 1, 2, 3, 4]))
        ops = []
        for _ in range(rng.choice([1, 2, 5])):
            p = rng.choice(list(paths(cur)))
            here = at(cur, p)
            if here and rng.random() < .35:
                op = [list(p), 'drop', rng.choice(sorted(here)), None]
            else:
                v = tree(rng, 2) if rng.random() < .4 else rng.choice([5, 'y', None, [3]])
                op = [list(p), rng.choice(['set', 'set', 'setdefault']), rng.choice('abcdefg'), v]
                if op[1] == 'setdefault' and op[2] in here:
                    op[1] = 'set'
            ops.append(op)
            cur = put(cur, p, op[2], op[3], op[1] == 'drop')
        yield {'tree': t, 'ops': ops, 'branch': rng.randrange(2)}


def is_node(t):
    from mahjong.record.universe.executor import TransferDict
    return isinstance(t, TransferDict)


def plain(t):
    return {k: plain(t[k]) for k in t.keys()} if is_node(t) else t


def flat(d, p=()):
    for k, v in d.items():
        if isinstance(v, dict):
            yield from flat(v, p + (k,))
        else:
            yield p + (k,), v


def links(root, skip=0):
    """A change through every nested dictionary reaches the root, and only that change."""
    ref = plain(root)
    for i, p in enumerate(paths(ref)):
        node = at(root, p)
        if not is_node(node):
            return '%s is a plain dictionary' % (p,)
        if p and i % 3 == skip % 3 and plain(node.set('probe', 7)) != put(ref, p, 'probe', 7, False):
            return '%s is not linked to the root' % (p,)


def check(case):
    from mahjong.record.universe.executor import TransferDict
    t = case['tree']
    src = copy.deepcopy(t)
    root = TransferDict(src)
    history = []
    ref = copy.deepcopy(t)
    if links(root):
        return 'new tree: ' + links(root)
    for path, op, key, value in case['ops']:
        path = tuple(path)
        if path not in set(paths(ref)) or (op == 'drop' and key not in at(ref, path)):
            continue
        if op == 'setdefault' and key in at(ref, path):
            op = 'set'
        views = [(at(root, p), copy.deepcopy(at(ref, p))) for p in paths(ref)]
        history += views
        v = copy.deepcopy(value)
        target = at(root, path)
        new = target.drop(key) if op == 'drop' else target.set(key, v) if op == 'set' else target.setdefault(key, v)
        want = put(ref, path, key, value, op == 'drop')
        if not isinstance(new, TransferDict):
            return '%s did not return a root' % op
        if plain(new) != want:
            return '%s %s %s: %s, expected %s' % (op, path, key, plain(new), want)
        msg = links(new, len(history))
        if msg:
            return 'after %s: %s' % (op, msg)
        if v != value:
            return 'the value given was changed'
        for old, snap in history:
            if plain(old) != snap:
                return 'an earlier version was changed by %s' % op
        if links(root, 1):
            return 'the old root after %s: %s' % (op, links(root))
        fl = dict(flat(want))
        if list(new.flatten_iter()) != list(fl.items()) and dict(new.flatten_iter()) != fl:
            return 'leaves %s, expected %s' % (list(new.flatten_iter()), fl)
        if len(list(new.flatten_iter())) != len(fl) or {k: json.loads(x) for k, x in new.flatten().items()} != fl:
            return 'flatten'
        if not case['branch']:        # otherwise the next change starts from the same old root
            root, ref = new, want
    if src != t:
        return 'the source dictionary was changed'


if __name__ == '__main__':
    run(gen, check, 'random trees up to depth 5 and sequences of set, drop and setdefault on nested views, along one history and branching')
