"""U05: the record translation starts from a cleared translator and depends on nothing else; dispatch and strict mode."""
from props.trans import *
from props import U04
from pv.model import Splat

FUNCS = ['record.universe.tenhou.to_command_iter', 'record.universe.tenhou.to_command_records', 'record.universe.tenhou.to_commands',
         'record.universe.translator.CommandTranslator.__call__', 'record.universe.translator.CommandTranslator.fallback_call',
         'record.universe.translator.CommandTranslator.clear', 'record.universe.translator.CommandTranslator.preprocess',
         'record.universe.translator.CommandTranslator.postprocess',
         'record.universe.tenhou.xml_macher.TenhouCommandTranslator.translate',
         'record.universe.tenhou.xml_macher.TenhouCommandTranslator.postprocess'] + U04.FUNCS[:21]
TRUSTED = U04.TRUSTED
ASSUMPTIONS = U04.ASSUMPTIONS + ['one translation at a time: a record is not translated in the middle of translating another',
                                 'results of a translated event depend on the event, the state of the interpreter and module level data only; '
                                 'that the module level data stays as it was is an obligation']


class SomeEvent:
    def __init__(self, i):
        self.i = i
        self.tag, self.attrib, self.timestamp = 'E', {}, 3

    def __str__(self):
        return 'event'


class Cmd:
    def __init__(self, ev, k):
        self.ev, self.k = ev, k

    def to_record(self):
        return ('record', self)

    def to_raw_record(self):
        return ('raw', self)


class Rec:
    def __init__(self, events):
        self.events = events


class EventCut(Cut):
    """Before event i the translator's state is what the events before i made of the empty state."""
    name = 'to_command_iter/for'

    def __init__(self, tc, marks):
        self.tc, self.marks = tc, marks

    def match(self, seq, loc):
        return isinstance(seq, ASeq) and seq.tag == 'events'

    def enter(self, seq, loc):
        self.marks['started'] = True
        s = self.tc.interpreter.state
        E.prove('nothing is left of earlier records', isinstance(s, dict) and len(s) == 0)

    def indices(self, seq, loc):
        i = fresh_int('i', 0)
        E.assume_checked(i < seq.n)
        return [i]

    def element(self, seq, i, loc):
        return True, seq.at(i)

    def havoc(self, seq, i, loc):
        self.marks['state'] = {'after': i}
        self.marks['i'] = i
        self.tc.interpreter.state = self.marks['state']
        return {}

    def invariant(self, seq, i, loc):
        if 'state' not in self.marks:
            return []
        E.prove('between events the state is left alone', self.tc.interpreter.state is self.marks['state'])
        return [('one event at a time', self.marks['i'] == i)]

    def exit_index(self, seq, loc):
        return seq.n


def h_iter():
    TEN = M('mahjong.record.universe.tenhou')
    tc = setup(False)
    tc.interpreter.state = {(0, 'anything'): Keep('left over'), 'x': Keep('y')}      # of a record translated earlier, up to anywhere
    marks = {}
    strict = E.choose([True, False])
    out = {}

    def call(self, ev, s=False):
        E.prove('the shared translator translates', self is tc)
        E.prove('the state was cleared before', bool(marks.get('started')))
        E.prove('strict mode is handed on', bool(s) == strict)
        E.prove('events in order', isinstance(ev, SomeEvent) and ev.i == marks['i'])
        E.prove('from the state after the events before', tc.interpreter.state is marks['state'])
        E.prove('each event once', 'cmds' not in out)
        marks['state'] = tc.interpreter.state = {'after': ev.i + 1}
        marks['i'] = ev.i + 1
        out['cmds'] = [Cmd(ev, k) for k in range(E.choose([0, 1, 2, 3]))]
        return list(out['cmds'])
    stub(type(tc), '__call__', call, must=False)
    n = fresh_int('n', 0)
    ev = ASeq(n, SomeEvent, 'events')
    CUTS['to_command_iter'] = [EventCut(tc, marks)]
    g = iter(TEN.to_command_iter(Rec(ev), strict))
    got = []
    # the cut ends the path after the commands of one arbitrary event, or leaves the loop
    for c in g:
        got.append(c)
        E.prove('the commands of the event, in order', c is out['cmds'][len(got) - 1])
        E.cover('command')
        if len(got) == len(out['cmds']):
            E.cover('all commands of an event')
    E.prove('nothing is handed out before or after the events', not got)
    E.cover('end')


class RecordCut(Cut):
    name = 'to_command_records/for'

    def match(self, seq, loc):
        return isinstance(seq, ASeq) and seq.tag == 'commands'

    def indices(self, seq, loc):
        self.i = fresh_int('i', 0)
        E.assume_checked(self.i < seq.n)
        return [self.i]

    def element(self, seq, i, loc):
        self.cmd = seq.at(i)
        return True, self.cmd

    def havoc(self, seq, i, loc):
        return {}

    def invariant(self, seq, i, loc):
        return []

    def exit_index(self, seq, loc):
        return seq.n


def h_records():
    TEN = M('mahjong.record.universe.tenhou')
    setup(False)
    raw, strict = E.choose([True, False]), E.choose([True, False])
    rec = Rec(())
    memo = {}
    seq = ASeq(fresh_int('n', 0), lambda i: memo.setdefault(z3.simplify(num(i)).sexpr(), Cmd(None, i)), 'commands')
    asked = []

    def ghost(record, s=False, **k):
        asked.append((record, k.get('strict', s)))
        return seq
    stub(TEN, 'to_command_iter', ghost)
    cut = RecordCut()
    CUTS['to_command_records'] = [cut]
    g = iter(TEN.to_command_records(rec, raw=raw, strict=strict))
    try:
        x = next(g)
    except StopIteration:
        E.cover('end')
        E.prove('the record is translated once', asked == [(rec, strict)])
        return
    E.cover('record')
    E.prove('the record is translated once', asked == [(rec, strict)])
    E.prove('each command as its record', x == ('raw' if raw else 'record', cut.cmd))
    next(g)
    E.prove('one record for a command', False)


def h_list():
    """to_commands: the list of what to_command_iter hands out."""
    TEN = M('mahjong.record.universe.tenhou')
    setup(False)
    rec, strict = Rec(()), E.choose([True, False])
    cmds = [Cmd(None, k) for k in range(E.choose([0, 1, 3]))]
    asked = []

    def ghost(record, s=False, **k):
        asked.append((record, k.get('strict', s)))
        yield from cmds
    stub(TEN, 'to_command_iter', ghost)
    r = TEN.to_commands(rec, strict) if E.choose([True, False]) else TEN.to_commands(rec, strict=strict)
    E.prove('the commands in order', isinstance(r, list) and len(r) == len(cmds) and all(a is b for a, b in zip(r, cmds)))
    E.prove('the record is translated once', asked == [(rec, strict)])
    E.prove('not strict unless asked', list(TEN.to_commands(rec)) == cmds and asked[1] == (rec, False))
    E.cover('list')


class MatcherCut(Cut):
    """No matcher before i gave a command."""
    name = 'fallback_call/for'

    def __init__(self, log):
        self.log = log

    def match(self, seq, loc):
        return isinstance(seq, ASeq) and seq.tag == 'matchers'

    def indices(self, seq, loc):
        i = fresh_int('i', 0)
        E.assume_checked(i < seq.n)
        self.log['i'] = i
        return [i]

    def element(self, seq, i, loc):
        return True, seq.at(i)

    def havoc(self, seq, i, loc):
        self.log['calls'] = []
        return {}

    def invariant(self, seq, i, loc):
        E.prove('a matcher that gives commands is the last one asked', not any(c for c in self.log['calls']))
        return []

    def exit_index(self, seq, loc):
        return seq.n


def h_fallback():
    T = M('mahjong.record.universe.translator')
    t = T.CommandTranslator()
    t.interpreter.state = state = {'x': Keep('x')}
    ev = SomeEvent(0)
    log = {'calls': [], 'i': None}

    def matcher(i):
        def f(event, ctx):
            E.prove('the matcher sees the event and the state', event is ev and ctx is state)
            E.prove('matchers in order', log['i'] is not None and i == log['i'])
            r = [Cmd(ev, k) for k in range(E.choose([0, 1, 2]))]
            log['calls'].append(r)
            return E.choose([iter, list, lambda x: (c for c in x)])(r)
        return f
    CUTS['CommandTranslator.fallback_call'] = [MatcherCut(log)]
    got = t.fallback_call(ev, ASeq(fresh_int('n', 0), matcher, 'matchers'))
    if log['calls']:
        E.cover('found')
        E.prove('its commands', isinstance(got, list) and len(got) == len(log['calls'][-1]) > 0 and all(a is b for a, b in zip(got, log['calls'][-1])))
        E.prove('asked once', len(log['calls']) == 1)
    else:
        E.cover('none')
        E.prove('no commands', not got)
    E.prove('the state is left alone', t.interpreter.state is state and len(state) == 1)


def h_call():
    """One event: translate, else the defaults, else nothing (strict: ValueError)."""
    T = M('mahjong.record.universe.translator')
    t = T.CommandTranslator()
    state = t.interpreter.state = {'x': Keep('x')}
    ev = SomeEvent(0)
    strict = E.choose([True, False])
    a = E.choose([None, [], [Cmd(ev, 0)], [Cmd(ev, 0), Cmd(ev, 1)]])
    b = E.choose([None, [], [Cmd(ev, 2)]])
    asked, done, interp = [], [], []

    def translate(e):
        E.prove('the event', e is ev)
        return a

    def fallback(e, ms):
        E.prove('the defaults', e is ev and ms is t.defaults)
        asked.append(1)
        return b

    def interpret(c):
        interp.append(c)
        return ('state', c)
    stub(t, 'translate', translate)
    stub(t, 'fallback_call', fallback)
    stub(t.interpreter, 'interpret', interpret)
    want = a or b
    try:
        got = t(ev, strict)
    except ValueError:
        E.cover('strict')
        E.prove('only strict mode fails, and only without commands', strict and not want)
        E.prove('no state change', not interp and t.interpreter.state is state)
        return
    E.prove('strict mode fails without commands', bool(want) or not strict)
    E.prove('defaults are asked only without commands', bool(asked) == (not a))
    if want:
        E.cover('commands')
        E.prove('the commands', isinstance(got, list) and len(got) == len(want) and all(x is y for x, y in zip(got, want)))
        E.prove('each interpreted once, in order', len(interp) == len(want) and all(x is y for x, y in zip(interp, want)))
        E.prove('with its state', all(c.state == ('state', c) for c in got))
    else:
        E.cover('skipped')
        E.prove('skipped', list(got) == [] and not interp)


def h_clear():
    tc = setup(False)
    old = tc.interpreter.state = {'x': Keep('x')}
    tc.clear()
    s = tc.interpreter.state
    E.prove('empty after clear', isinstance(s, dict) and len(s) == 0)
    s['a'] = 1
    tc.clear()
    E.prove('empty after clear again', len(tc.interpreter.state) == 0)
    E.cover('cleared')


def strictly(f, quiet):
    """A harness of U04 in strict mode, with the module level data observed."""
    def h():
        orig = Run.__call__

        def call(self, ev, strict=False):
            self.tc.interpreter.state = self.tc.interpreter.state      # (the state itself may change)
            before = frame()
            try:
                try:
                    got = orig(self, ev, not quiet)
                except ValueError as e:
                    if type(e) is not ValueError:
                        raise
                    got = orig(self, ev, False)
                    E.prove('strict mode refuses only events without commands', not got)
            finally:
                bad = changed(before, self.tc)
                if bad:
                    raise Unsupported('module level data changes: %s' % bad[:3])
            E.cover('accepted')
            return got
        Run.__call__ = call
        try:
            f()
        finally:
            Run.__call__ = orig
    return h


def h_strict_none():
    r = Run({0: fresh_int('drawn', 0, 135)})
    tag, at = E.choose(NOTHING)
    st = r.tc.interpreter.state
    old = dict(st)
    failed = False
    before = frame()
    try:
        r.tc(Ev(tag, at, 1), True)
    except ValueError:
        failed = True
    bad = changed(before, r.tc)
    if bad:
        raise Unsupported('module level data changes: %s' % bad[:3])
    E.cover('refused')
    E.prove('an event without commands is refused in strict mode', failed)
    E.prove('no state change', r.tc.interpreter.state is st and len(st) == len(old) and all(st.get(k) is v for k, v in old.items()) and not r.log)


NOTHING = [('X', {}), ('HELO', {'name': 'x'}), ('DORAX', {'hai': '1'}), ('REACH', {'who': '0', 'step': '3'}), ('Z12', {}), ('T', {}),
           ('INITIAL', {}), ('AGARI2', {}), ('NN', {}), ('T12x', {})]


def frame():
    import sys
    cs = []
    for name in [m for m in sys.modules if m == 'mahjong' or m.startswith('mahjong.')]:
        cs += loader._containers(sys.modules[name])
        cs.append(vars(sys.modules[name]))
    return [(o, loader._copy(o)) for o in {id(o): o for o in cs}.values()]


def changed(before, tc):
    bad = []
    for o, c in before:
        if o is tc.interpreter.state:
            continue
        now = loader._copy(o)
        if isinstance(o, dict):
            ks = [k for k in set(now) | set(c) if k not in now or k not in c or now[k] is not c[k]]
            if o is vars(tc.interpreter):
                ks = [k for k in ks if k != 'state']
            bad += [str(k) for k in ks]
        elif isinstance(o, list):
            if len(now) != len(c) or any(a is not b for a, b in zip(now, c)):
                bad.append('a list')
        elif isinstance(o, set):
            if now != c:
                bad.append('a set')
        elif repr(now) != repr(c):
            bad.append('a counter')
    return bad


def harnesses(tier):
    hs = [Harness('clear', h_clear, FUNCS, ['cleared']), Harness('records', h_iter, FUNCS, ['command', 'all commands of an event', 'end']),
          Harness('to_command_records', h_records, FUNCS, ['record', 'end']), Harness('to_commands', h_list, FUNCS, ['list']),
          Harness('dispatch', h_fallback, FUNCS, ['found', 'none']), Harness('one event', h_call, FUNCS, ['strict', 'commands', 'skipped']),
          Harness('strict, no meaning', h_strict_none, FUNCS, ['refused'])]
    for h in U04.harnesses(tier):
        if h.name in ('tables',) or h.name.startswith('win, 3') or h.name.startswith('no winner, 3'):
            continue
        quiet = h.name == 'no meaning'
        hs.append(Harness('strict: ' + h.name if not quiet else 'no meaning', strictly(h.fn, quiet), FUNCS, ['accepted'] ))
    return hs
