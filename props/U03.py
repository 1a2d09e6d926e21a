"""U03: commands through to_record/from_record and to_raw_record/from_raw_record, for every property and arbitrary values."""
from props.uni import *

FUNCS = ['record.universe.command.GameCommand.to_record', 'record.universe.command.GameCommand.from_record',
         'record.universe.command.GameCommand.to_raw_record', 'record.universe.command.GameCommand.from_raw_record',
         'record.universe.command.GameCommand.__init__', 'record.universe.command.try_int', 'record.universe.command.norm_empty',
         'record.universe.command.is_empty', 'record.universe.format.View.by_name', 'record.universe.format.View.scope',
         'record.universe.format.View.type', 'record.universe.property_manager.PropertyTypeManager.__getattr__',
         'record.universe.property_manager.lookup_func_table', 'record.universe.property_manager.plain_str',
         'record.universe.property_manager.json_dump', 'record.universe.property_manager.json_load_any']
TRUSTED = ['json.dumps gives a text and json.loads gives back an equal value of the same type (numbers, truth values, lists, None)']
ASSUMPTIONS = ['numbers are finite; strings are arbitrary (known only by identity) plus a list of strings that look like other values',
               'the pandas and csv functions are outside (bounded concrete run)']
EVENTS = ['record_init', 'game_init', 'draw', 'discard', 'open_hand', 'new_dora', 'richii', 'connect_change', 'game_finish',
          'record_finish']
TRICKY = ['', '0', '12', '-3', '1.5', 'nan', 'None', 'null', 'true', 'True', '"q"', '[1]', ' x ', 'all', '1_0', '１']


class JsonText(str):
    """json.dumps(x) for a symbolic x: an unknown text; only json.loads reads it."""
    pv_opaque = True

    def __new__(cls, x):
        r = str.__new__(cls, '\ue003' + E.fresh_name('json'))
        r.x = x
        return r

    def __str__(self):
        return self


def symbolic(x):
    return isinstance(x, (SInt, SReal, SBool, GhostList, OpaqueStr))


def hooks():
    def dumps(x):
        if isinstance(x, GhostList):
            return JsonText(GhostList(x.t))       # a snapshot
        return JsonText(x) if symbolic(x) else None

    def loads(s):
        if isinstance(s, JsonText):
            x = s.x
            return (GhostList(x.t) if isinstance(x, GhostList) else x,)
        if isinstance(s, OpaqueStr):
            raise Unsupported('json.loads of an arbitrary string')
        return None
    E.notes['json_dumps'], E.notes['json_loads'] = dumps, loads


def some_value(typ, name):
    if typ == 'str':
        return E.choose(TRICKY + [OpaqueStr(name)])
    if E.choose([True, False]):
        return value_of(typ, name)
    return None if typ != 'float' else E.choose([0.0, -15.5, None])


def kind(x):
    for t, k in ((bool, 'bool'), (SBool, 'bool'), (int, 'int'), (SInt, 'int'), (float, 'float'), (SReal, 'float'), (str, 'str')):
        if isinstance(x, t):
            return k
    return type(x).__name__


def same_value(a, b):
    if isinstance(b, (OpaqueStr, type(None))):
        return a is b
    if kind(a) != kind(b):
        return False
    return a == b


def h_trip(scope, raw):
    def h():
        prop = E.choose(sorted(p for s, p in TYPES if s == scope))
        typ = TYPES[scope, prop]
        hooks()
        C = M('mahjong.record.universe.command').GameCommand
        f = F()
        sub = E.choose(list(subs_of(scope)))
        focus = E.choose(['value', 'state', 'rest'])
        event = update = None
        value, state, ts = value_of(typ, 'value') if typ != 'str' else OpaqueStr('value'), None, 5
        update, event = f.Update.REPLACE, f.EventType.draw
        if typ == 'str':
            state = OpaqueStr('state')
        if focus == 'value':
            value = some_value(typ, 'value')
        elif focus == 'state':
            state = some_value(typ, 'state')
        else:
            update = E.choose(list(f.Update))
            event = E.choose([None] + [f.EventType[e] for e in EVENTS])
            ts = E.choose([None, fresh_int('timestamp', 0)])
        vs = [(x, x.t) for x in (value, state) if isinstance(x, GhostList)]
        view = view_of(scope, prop)
        c = C(prop=view, update=update, sub_scope=sub, value=value, timestamp=ts, state=state, event=event)
        rec = c.to_raw_record() if raw else c.to_record()
        if not raw:
            E.prove('names in the record', rec.scope == scope and rec.property == prop and rec.update_method == update.name
                    and rec.event == (event.name if event is not None else None))
            E.prove('texts in the record', isinstance(rec.value, str) and isinstance(rec.state, str))
        d = C.from_raw_record(rec) if raw else C.from_record(rec)
        E.cover(focus)
        E.prove('the property', d.prop.view_property is view and d.property is view)
        E.prove('the scope', d.prop.scope is scope_of(scope))
        E.prove('the update method', d.prop.update_method is update)
        E.prove('the event type', d.event is event)
        E.prove('the sub-scope', type(d.sub_scope_id) is type(sub) and d.sub_scope_id == sub)
        E.prove('the timestamp', same_value(d.timestamp, ts))
        E.prove('the value', same_value(d.value, value))
        E.prove('the state', same_value(d.state, state))
        for x, t in vs:
            E.prove('the lists of the command are unchanged', x.t.eq(t))
        E.prove('the command is unchanged', c.value is value and c.state is state and c.event is event and c.timestamp is ts
                and c.sub_scope_id is sub)
    return h


def h_names():
    f = F()
    scope = E.choose(['record', 'game', 'player'])
    E.cover(scope)
    for s, p in TYPES:
        if s == scope:
            v = view_of(s, p)
            E.prove('a name gives the property of its scope', f.View.by_name(s)[p] is v)
            E.prove('the property knows its scope', v.scope is scope_of(s))
            for s2, p2 in TYPES:
                if (s2, p2) != (s, p):
                    E.prove('different properties are different', bool(view_of(s2, p2) != v))


def harnesses(tier):
    hs = [Harness('names', h_names, FUNCS, ['record', 'game', 'player'])]
    for sc in ('record', 'game', 'player'):
        for raw in (False, True):
            hs.append(Harness('%s, %s' % (sc, 'raw record' if raw else 'record'), h_trip(sc, raw), FUNCS, ['value', 'state', 'rest']))
    return hs
