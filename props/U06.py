"""U06: the record-finish commands for arbitrary final scores and points (ties and negative scores included)."""
from props.trans import *

FUNCS = ['record.universe.tenhou.event_definition.game_finish', 'record.universe.tenhou.event_definition.agari_command',
         'record.universe.tenhou.event_definition.no_win_command', 'record.utils.value.general.number_list',
         'record.utils.builder.Builder.when', 'record.utils.builder.Builder.__call__', 'record.universe.translator.default_event_type',
         'record.universe.tenhou.xml_macher.TenhouCommandTranslator.translate', 'record.universe.translator.CommandTranslator.__call__']
TRUSTED = ['list.sort, sorted (run as they are over symbolic comparisons)']
ASSUMPTIONS = ['final scores are whole numbers of hundreds; the sum of points is not constrained; owari lists of three and of four pairs',
               'scores and points are mathematical numbers']


def h(n, win):
    def run():
        r = Run({}, n)
        m = E.choose([4, 3]) if n == 3 else 4
        scores = [fresh_int('score%d' % p) for p in range(m)]
        points = [fresh_real('point%d' % p) for p in range(m)]
        for x in points[1:]:
            E.assume(z3.Not(z3.IsInt(x.t)))
        pts = list(points)
        E.witness_fn = lambda f: {'case': {'n': n, 'scores': [f(s) for s in scores[:n]], 'points': [0] * 4, 'agari': int(win)}}
        at = {'owari': text([x for a, b in zip(scores, pts) for x in (a, b)]), 'sc': '250,0,250,0,250,0,250,0', 'ba': '0,0'}
        if win:
            at.update(hai='4', machi='4', ten='30,1000,0', yaku='0,1', who='0', fromWho=E.choose(['0', '1']))
        got = r(Ev('AGARI' if win else 'RYUUKYOKU', at, 9))
        fin = [c for c in got if c.event.name == 'record_finish']
        by = {}
        for c in fin:
            by.setdefault((c.prop.view_property.name, c.sub_scope_id), []).append(c)
        E.prove('one command for each figure and player of the game', {k: len(v) for k, v in by.items()}
                == {(f, p): 1 for f in ('final_score', 'final_point', 'rank') for p in range(n)})
        E.prove('nothing else reports final figures', not any(c.prop.view_property.name in ('final_score', 'final_point', 'rank') for c in got
                                                             if c.event.name != 'record_finish'))
        for c in fin:
            E.prove('the update replaces', c.prop.update_method.name == 'REPLACE' and c.prop.scope.name == 'player')
        rank = {}
        for p in range(n):
            E.prove('the final score', same_val(None, by['final_score', p][0].value, scores[p] * 100))
            E.prove('the final point', same_val(None, by['final_point', p][0].value, points[p]))
            rank[p] = by['rank', p][0].value
            E.prove('ranks are numbers', is_int(rank[p]))
        for p in range(n):
            E.prove('the rank is one more than the number of better players', rank[p] == 1 + sum_of(
                [ite(Or([scores[q] > scores[p], And([scores[q] == scores[p], q < p])]), 1, 0) for q in range(n) if q != p]))
            for q in range(n):
                if p != q:
                    E.prove('a higher score has the better rank', Implies(scores[p] > scores[q], rank[p] < rank[q]))
                if p < q:
                    E.prove('equal scores rank the earlier seat first', Implies(scores[p] == scores[q], rank[p] < rank[q]))
        E.cover('ranks')
    return run


def sum_of(xs):
    r = 0
    for x in xs:
        r = r + x
    return r


def harnesses(tier):
    return [Harness('%d players, %s' % (n, 'win' if w else 'no winner'), h(n, w), FUNCS, ['ranks']) for n in (3, 4) for w in (True, False)]
