import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from common import run
from U01 import PROPS, value

EVENTS = ['record_init', 'game_init', 'draw', 'discard', 'open_hand', 'new_dora', 'richii', 'connect_change', 'game_finish', 'record_finish']
UPDATES = ['REPLACE', 'CLEAR', 'ADD', 'REMOVE', 'RESET_DEFAULT', 'ASSERT_EQUAL_OR_SET']


def gen(rng, tier):
    for (sc, pr), typ in sorted(PROPS.items()):
        for u in UPDATES:
            for e in EVENTS + [None]:
                for k in range(2 if tier == 'quick' else 12):
                    v = value(rng, typ)
                    s = value(rng, typ)
                    if typ != 'str' and rng.random() < .1:
                        v = None
                    yield {'scope': sc, 'prop': pr, 'sub': rng.randrange(4) if sc == 'player' else 'all', 'update': u, 'event': e,
                           'value': v, 'state': s, 'timestamp': rng.choice([0, 7, 123456])}


def check(case):
    from mahjong.record.universe.command import GameCommand
    from mahjong.record.universe.format import View, Update, EventType, RecordView, GameView, PlayerView
    cls = {'record': RecordView, 'game': GameView, 'player': PlayerView}[case['scope']]
    prop = cls[case['prop']]
    c = GameCommand(prop=prop, update=Update[case['update']], sub_scope=case['sub'], value=case['value'], timestamp=case['timestamp'],
                    state=case['state'], event=EventType[case['event']] if case['event'] else None)
    if View.by_name(case['scope'])[case['prop']] is not prop or prop.scope.name != case['scope']:
        return 'the name resolves to another property'
    rec, raw = c.to_record(), c.to_raw_record()
    if (rec.scope, rec.property, rec.update_method, rec.event, rec.timestamp, rec.sub_scope_id) != \
            (case['scope'], case['prop'], case['update'], case['event'], case['timestamp'], case['sub']):
        return 'record %s' % (rec,)
    if not isinstance(rec.value, str) or not isinstance(rec.state, str):
        return 'record values are not text'
    for how, d in (('record', GameCommand.from_record(rec)), ('raw record', GameCommand.from_raw_record(raw))):
        if d.property is not prop or d.prop.view_property is not prop or d.prop.scope is not prop.scope:
            return '%s: property %s' % (how, d.property)
        if d.prop.update_method is not Update[case['update']] or d.event is not c.event:
            return '%s: update or event' % how
        if d.sub_scope_id != case['sub'] or type(d.sub_scope_id) is not type(case['sub']) or d.timestamp != case['timestamp']:
            return '%s: sub scope or timestamp' % how
        for f, g, w in (('value', d.value, case['value']), ('state', d.state, case['state'])):
            if g != w or type(g) is not type(w) or repr(g) != repr(w):
                return '%s: %s %r, expected %r' % (how, f, g, w)
        if d.to_record() != rec:
            return '%s: written again as %s' % (how, d.to_record())


if __name__ == '__main__':
    run(gen, check, 'every property with every update method and event type, random values of its type')
