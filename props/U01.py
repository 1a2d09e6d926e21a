"""U01: one command from an arbitrary state, for every property and update method; sequences by induction (loop cut).

Values are arbitrary: numbers symbolic, strings opaque, lists opaque terms of any length (props/uni.py)."""
from props.uni import *

FUNCS = ['record.universe.interpreter.execute_new_value', 'record.universe.interpreter.GameInterpreter.interpret',
         'record.universe.executor.GameExecutor.__init__', 'record.universe.executor.GameExecutor.execute',
         'record.universe.executor.GameExecutor.execute_update_state', 'record.universe.executor.GameExecutor.state_value',
         'record.universe.executor.TransferDict (run, not by contract)', 'record.universe.property_manager.PropertyTypeManager.call',
         'record.universe.property_manager.lookup_func_table', 'record.universe.property_manager.remove_all',
         'record.universe.property_manager.add_general', 'record.universe.property_manager.remove_general',
         'record.universe.property_manager.default_index', 'record.universe.property_manager.empty_list',
         'record.universe.property_manager.general_equal', 'record.universe.format.View.type', 'record.universe.format.View.scope']
TRUSTED = ['list.__add__ (concatenation), list.copy, list.remove (drops the first occurrence)']
ASSUMPTIONS = ['numbers are mathematical', 'add and remove are applied to properties that hold a value, remove only to values that are held',
               'prop_manager.check_equal returns some truth value and changes nothing (its result decides a log message only)']


def some(scope):
    """An arbitrary property of a scope, player, update method, old value (or none) and given value."""
    prop = E.choose(sorted(p for s, p in TYPES if s == scope))
    typ = TYPES[scope, prop]
    sub = E.choose(list(subs_of(scope)))
    update = E.choose(updates_of(typ))
    held = update in ('ADD', 'REMOVE') or E.choose([True, False])
    old = value_of(typ, 'old') if held else None
    value = None if update == 'RESET_DEFAULT' else value_of(typ, 'value')
    if isinstance(old, GhostList):
        CUTS['remove_all'] = [RemoveCut(old, value)] if isinstance(value, GhostList) else []
    return prop, typ, sub, update, held, old, value


def command(scope, prop, sub, update, value, ts):
    C = M('mahjong.record.universe.command')
    return C.GameCommand(prop=view_of(scope, prop), update=getattr(F().Update, update), sub_scope=sub, value=value, timestamp=ts)


def vers(*xs):
    return [(x, x.t) for x in xs if isinstance(x, GhostList)]


def untouched(vs):
    for x, t in vs:
        E.prove('lists handed in keep their contents', x.t.eq(t))


def no_equality_result():
    """check_equal by contract: some truth value."""
    pm = M('mahjong.record.universe.property_manager').prop_manager
    stub(pm, 'check_equal', lambda *a, **k: fresh_bool('equal'))


def h_interpret(scope):
    def h():
        prop, typ, sub, update, held, old, value = some(scope)
        I = M('mahjong.record.universe.interpreter')
        it = I.GameInterpreter()
        view = view_of(scope, prop)
        others = {}
        for sc, s, pr in ALL_KEYS:
            if (sc, s, pr) != (scope, sub, prop):
                others[s, view_of(sc, pr)] = Keep((sc, s, pr))
        for q in range(4):
            others[q, '_right_most_tile_int'] = Keep(q)
        others['_game_indexer'] = Keep('indexer')
        it.state.update(others)
        if held:
            it.state[sub, view] = old
        cmd = command(scope, prop, sub, update, value, 3)
        vs = vers(old, value)
        got = it.interpret(cmd)
        E.cover(update)
        want = new_value(typ, update, old, value)
        E.prove('the computed value', equal_value(got, want))
        E.prove('is stored for the property', (sub, view) in it.state and equal_value(it.state[sub, view], want))
        E.prove('every other entry is kept', len(it.state) == len(others) + 1 and all(it.state.get(k) is v for k, v in others.items()))
        untouched(vs)
        E.prove('the command keeps its value', cmd.value is value)
    return h


def arbitrary_state(target, held, old, others_present):
    vals = {k: Keep(k) for k in ALL_KEYS if k != target} if others_present else {}
    if held:
        vals[target] = old
    X_ = M('mahjong.record.universe.executor')
    return vals, X_.TransferDict(state_dict(vals))


def check_state(name, st, vals, target=None, want=None):
    """The state holds exactly vals (and want for the target)."""
    for sc in ('record', 'game', 'player'):
        for s in subs_of(sc):
            node = node_of(st, sc, s)
            for (sc2, pr) in TYPES:
                if sc2 != sc:
                    continue
                k, v = (sc, s, pr), view_of(sc, pr)
                if k == target:
                    E.prove(name + ': the new value is stored', v in node and equal_value(node[v], want))
                elif k in vals:
                    if not (v in node and node[v] is vals[k]):
                        E.prove(name + ': other properties are kept', False, str(k))
                elif v in node:
                    E.prove(name + ': no property appears', False, str(k))
    E.prove(name + ': the scopes are those of the start', set(st.nested_dict) == {'global', scope_of('record'), scope_of('game'), scope_of('player')})


class Commands(Abstract):
    """A stream of commands of any length."""
    pv_abstract = True


class ExecuteCut(Cut):
    """for command in commands: the carried state is the one before the command; an arbitrary state stands for it."""
    name = 'GameExecutor.execute/for'

    def __init__(self, before, cmd, after):
        self.before, self.cmd, self.after = before, cmd, after
        self.done = False

    def match(self, seq, loc):
        return isinstance(seq, Commands)

    def enter(self, seq, loc):
        T = M('mahjong.record.universe.executor').TransferDict
        names = [n for n in self.carried if isinstance(loc.get(n), T)]
        if len(names) != 1:
            raise Unsupported('which variable carries the state?')
        self.var = names[0]

    def length(self, seq, loc):
        return 1

    def indices(self, seq, loc):
        return [0]

    def element(self, seq, i, loc):
        self.done = True
        return True, self.cmd

    def havoc(self, seq, i, loc):
        return {self.var: self.before}

    def invariant(self, seq, i, loc):
        if self.done:
            self.after(loc[self.var])
        return []


def h_execute(scope, others_present):
    def h():
        prop, typ, sub, update, held, old, value = some(scope)
        X_ = M('mahjong.record.universe.executor')
        no_equality_result()
        target = (scope, sub, prop)
        ex = X_.GameExecutor()
        init = ex.states
        vals, before = arbitrary_state(target, held, old, others_present)
        ts = fresh_int('timestamp', 0)
        cmd = command(scope, prop, sub, update, value, ts)
        want = new_value(typ, update, old, value)
        vs = vers(old, value)
        CUTS['GameExecutor.execute'] = [ExecuteCut(before, cmd, lambda st: check_state('carried', st, vals, target, want))]
        it = iter(ex.execute(Commands()))
        got = next(it, None)
        if got is None:      # the stream has ended
            E.cover('end')
            return
        E.cover(update)
        check_state('after the command', got, vals, target, want)
        time = got['global']['time']
        E.prove('the timestamp is the one of the command', list(time.keys()) == ['timestamp'] and time['timestamp'] == ts)
        untouched(vs)
        E.prove('the command keeps its value', cmd.value is value)
        if held:
            n = node_of(before, scope, sub)
            E.prove('the earlier state keeps the old value', n[view_of(scope, prop)] is old)
            vals0 = dict(vals)
            vals0[target] = old
        else:
            vals0 = vals
        check_state('the earlier state', before, vals0)
        check_state('the initial state', init, {})
        E.prove('the executor still starts from it', ex.states is init)
        next(it, None)
    return h


def h_start():
    """The executor starts from the empty state with every scope and player."""
    X_ = M('mahjong.record.universe.executor')
    a, b = X_.GameExecutor(), X_.GameExecutor(E.choose([True, False]))
    check_state('start', a.states, {})
    check_state('start', b.states, {})
    E.prove('two executors share nothing', a.states is not b.states)
    E.cover('start')


def h_execute_from_start(scope):
    """The first command of execute() really starts from the executor's own state (no cut, one command)."""
    def h():
        prop = E.choose(sorted(p for s, p in TYPES if s == scope))
        typ = TYPES[scope, prop]
        sub = E.choose(list(subs_of(scope)))
        X_ = M('mahjong.record.universe.executor')
        value = value_of(typ, 'value')
        ts = fresh_int('timestamp', 0)
        out = list(X_.GameExecutor().execute([command(scope, prop, sub, 'REPLACE', value, ts)]))
        E.prove('one state per command', len(out) == 1)
        E.cover('first')
        check_state('first', out[0], {}, (scope, sub, prop), value)
        E.prove('timestamp', out[0]['global']['time']['timestamp'] == ts)
    return h


def harnesses(tier):
    hs = [Harness('start', h_start, FUNCS, ['start'])]
    for sc in ('record', 'game', 'player'):
        ups = sorted({u for (s, p), t in TYPES.items() if s == sc for u in updates_of(t)})
        hs.append(Harness('interpret ' + sc, h_interpret(sc), FUNCS, ups))
        hs.append(Harness('first command ' + sc, h_execute_from_start(sc), FUNCS, ['first']))
        for o in (True, False):
            hs.append(Harness('execute %s, others %s' % (sc, 'held' if o else 'absent'), h_execute(sc, o), FUNCS, ups + ['end']))
    return hs
