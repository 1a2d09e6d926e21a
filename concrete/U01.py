import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from common import run
import copy

# property -> (scope, type); the types the repository documents in universe/format.py
PROPS = {('record', 'player_count'): 'int', ('record', 'play_wind_count'): 'int', ('record', 'play_level'): 'str', ('record', 'seed'): 'str',
         ('record', 'has_aka_dora'): 'bool', ('record', 'speed_up'): 'bool', ('record', 'allow_tanyao_open'): 'bool',
         ('record', 'show_discard_shadow'): 'bool', ('record', 'using_tiles'): 'list',
         ('game', 'wind'): 'int', ('game', 'round'): 'int', ('game', 'sub_round'): 'int', ('game', 'dora_indicators'): 'tiles',
         ('game', 'richii_remain_scores'): 'score', ('game', 'dealer'): 'int', ('game', 'nobody_win'): 'bool', ('game', 'extra_reason'): 'str',
         ('player', 'name'): 'str', ('player', 'level'): 'str', ('player', 'extra_level'): 'str', ('player', 'hand'): 'tiles',
         ('player', 'in_richii'): 'bool', ('player', 'discard_tiles'): 'tiles', ('player', 'discard_from_hand'): 'list',
         ('player', 'fixed_meld'): 'melds', ('player', 'meld_public_tiles'): 'tiles', ('player', 'score'): 'score',
         ('player', 'bonus_tiles'): 'tiles', ('player', 'round'): 'int', ('player', 'disconnected'): 'bool', ('player', 'is_dealer'): 'bool',
         ('player', 'is_win'): 'bool', ('player', 'is_self_win'): 'bool', ('player', 'is_discard_lose_game'): 'bool', ('player', 'faans'): 'list',
         ('player', 'rank'): 'int2', ('player', 'final_score'): 'score', ('player', 'final_point'): 'float'}
TILES = ['%d%s' % (n, c) for c in 'mps' for n in range(10)] + ['%dz' % n for n in range(1, 8)]


def value(rng, typ):
    if typ in ('int', 'int2'):
        return rng.randrange(0, 9)
    if typ == 'score':
        return rng.choice([0, 100, -1000, 25000, 1000, rng.randrange(-500, 500) * 100])
    if typ == 'float':
        return rng.choice([0.5, -15.0, 45.25, 0.1, 1e3, -0.0])
    if typ == 'bool':
        return rng.random() < .5
    if typ == 'str':
        return rng.choice(['', 'abc', '12', '0', 'nan', 'None', 'null', '"q"', 'a,b', '雀', '七段', 'x y', "it's", '[1]', 'true', '5.0'])
    if typ == 'melds':
        return [[rng.choice(TILES) for _ in range(rng.choice([1, 3, 4]))] for _ in range(rng.randrange(0, 3))]
    if typ == 'list':
        return [rng.choice([True, False, 'ドラ', 'a', 3]) for _ in range(rng.randrange(0, 5))]
    return [rng.choice(TILES) for _ in range(rng.randrange(0, 6))]


def apply(typ, update, old, val):
    if update in ('REPLACE', 'ASSERT_EQUAL_OR_SET'):
        return copy.deepcopy(val)
    if update == 'RESET_DEFAULT':
        return 0 if typ in ('int', 'score', 'int2') else []
    if update == 'ADD':
        return old + val
    if typ in ('tiles', 'melds'):
        new = list(old)
        for v in val:
            new.remove(v)
        return new
    return old - val


def gen(rng, tier):
    props = sorted(PROPS)
    for i in range(1500 if tier == 'quick' else 20000):
        few = rng.sample(props, rng.choice([2, 5, 20, len(props)]))
        state = {}
        cmds = []
        for _ in range(rng.choice([3, 12, 30])):
            sc, pr = k = rng.choice(few)
            typ = PROPS[k]
            sub = rng.randrange(4) if sc == 'player' else 'all'
            old = state.get((k, sub))
            ups = ['REPLACE', 'ASSERT_EQUAL_OR_SET']
            if typ in ('int', 'list', 'tiles', 'melds'):
                ups += ['RESET_DEFAULT']
            if old is not None and typ not in ('bool',):
                ups += ['ADD', 'ADD']
                if typ not in ('str', 'list'):
                    ups += ['REMOVE', 'REMOVE']
            u = rng.choice(ups)
            if u == 'ASSERT_EQUAL_OR_SET' and old is not None and rng.random() < .6:
                v = copy.deepcopy(old)
                if typ == 'tiles':
                    rng.shuffle(v)
            elif u == 'REMOVE' and typ in ('tiles', 'melds'):
                v = rng.sample(old, rng.randrange(0, len(old) + 1))
            else:
                v = None if u == 'RESET_DEFAULT' else value(rng, typ)
            state[k, sub] = apply(typ, u, old, v)
            cmds.append([sc, pr, sub, u, v])
        yield {'commands': cmds}


def check(case):
    from mahjong.record.universe.executor import GameExecutor
    from mahjong.record.universe.interpreter import GameInterpreter
    from mahjong.record.universe.command import GameCommand
    from mahjong.record.universe.format import View, Update, ViewScope, PlayerId
    cmds = []
    for i, (sc, pr, sub, u, v) in enumerate(case['commands']):
        cmds.append(GameCommand(prop=View.by_name(sc)[pr], update=Update[u], sub_scope=sub, value=copy.deepcopy(v), timestamp=3 * i + 1))
    ref = {}
    want = []
    for sc, pr, sub, u, v in case['commands']:
        ref = dict(ref)
        ref[sc, sub, pr] = apply(PROPS[sc, pr], u, ref.get((sc, sub, pr)), v)
        want.append(ref)
    it = GameInterpreter()
    for i, c in enumerate(cmds):
        k = tuple(case['commands'][i][:1]) + (case['commands'][i][2], case['commands'][i][1])
        got = it.interpret(c)
        if got != want[i][k] or type(got) is not type(want[i][k]):
            return 'interpreter: command %d gives %r, expected %r' % (i, got, want[i][k])

    def view(root):
        out = {}
        for (scope, sub, prop), v in [(p, v) for p, v in root.flatten_iter() if p[0] != 'global']:
            out[scope.name, 'all' if sub == 'single' else sub.value, prop.name] = v
        return out, [v for p, v in root.flatten_iter() if p == ('global', 'time', 'timestamp')]
    ex = GameExecutor()
    start = view(ex.states)
    seen = []
    for i, st in enumerate(ex.execute(iter(cmds))):
        vals, ts = view(st)
        if vals != want[i] or any(type(vals[k]) is not type(want[i][k]) for k in vals):
            d = [k for k in set(vals) | set(want[i]) if vals.get(k) != want[i].get(k)]
            return 'executor: after command %d %s: %s, expected %s' % (i, d[:3], [vals.get(k) for k in d[:3]], [want[i].get(k) for k in d[:3]])
        if ts != [3 * i + 1]:
            return 'timestamp %s after command %d' % (ts, i)
        seen.append((st, copy.deepcopy(vals)))
        sc, pr, sub, u, v = case['commands'][i]
        if cmds[i].value != v:
            return 'the value of command %d was changed' % i
    if len(seen) != len(cmds):
        return '%d states for %d commands' % (len(seen), len(cmds))
    for i, (st, vals) in enumerate(seen):
        if view(st)[0] != vals:
            return 'the state after command %d was changed later' % i
        if cmds[i].value != case['commands'][i][4]:
            return 'the value of command %d was changed' % i
    if view(ex.states) != start or start != ({}, []):
        return 'the initial state was changed'


if __name__ == '__main__':
    run(gen, check, 'random command sequences over all properties, update methods and players')
