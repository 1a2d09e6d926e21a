import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from common import run
import builtins
import random
import shutil
import tempfile
import types
import mahjong.tenhou_record_check as C

BAD = '\\/:*?"<>|\0'
NAMES37 = {'%d%s' % (n, s) for s in 'mps' for n in range(10)} | {'%dz' % n for n in range(1, 8)}


class Player:
    def __init__(self, k, name):
        self.index, self.name = k, name

    def __str__(self):
        return 'player ' + self.name


class Hand:
    def __init__(self, k):
        self.k = k

    def __str__(self):
        return 'hand %d' % self.k


def record(names, hands):
    r = types.SimpleNamespace(players=[Player(k, n) for k, n in enumerate(names)], game_list=[Hand(k) for k in range(hands)])
    return r


class Template:
    def render(self, **kw):
        self.kw = kw
        return 'TEXT'


def report(case):
    k = case['index']
    rec = record([case['name']] * 4, case.get('hands', 0))
    keep = C.game_reason_list
    C.game_reason_list = lambda g, p, r: ('reasons', g.k, p.index, r is rec)
    try:
        t = Template()
        url = C.log_id_to_url(case['id'])
        how = case.get('how', 'id')
        try:
            if how == 'id':
                got = C.render_template(rec.players[k], rec, t, log_id=case['id'])
            elif how == 'link':
                got = C.render_template(rec.players[k], rec, t, url)
            elif how == 'none':
                got = C.render_template(rec.players[k], rec, t)
            else:
                got = C.render_template(rec.players[k], rec, t, log_id=case['id'], generate_filename=False)
        except ValueError as e:
            return None if how == 'none' else 'ValueError: %s' % e
        if how == 'none':
            return 'a report without link or id'
        if t.kw['log_url'] != url or t.kw['player'] != str(rec.players[k]) or set(t.kw['all_tiles']) != NAMES37:
            return 'rendered %r' % (t.kw,)
        games = [tuple(vars(g).values()) for g in t.kw['games']]
        if games != [('hand %d' % i, ('reasons', i, k, True)) for i in range(case.get('hands', 0))]:
            return 'analyses %r' % (games,)
        if how == 'text':
            return None if got == 'TEXT' else 'text %r' % (got,)
        name, text = got
        if text != 'TEXT':
            return 'text %r' % (text,)
        want = 'tenhou_record_%s_%s_%d.html' % (case['id'], case['name'], k)
        if len(name) != len(want) or set(name) & set(BAD) or any(a != b and b not in BAD for a, b in zip(name, want)):
            return 'file name %r for player %r of log %r' % (name, case['name'], case['id'])
    finally:
        C.game_reason_list = keep


def whole(case):
    n = case['players']
    rec = record(['p/%d' % k for k in range(n)], 2)
    answers = ['http://tenhou.net/0/?log=2009-x', case['answer']]
    keep = C.game_reason_list, C.from_url, C.template_env, builtins.input, builtins.print
    here, room = os.getcwd(), tempfile.mkdtemp(prefix='q02_')
    C.game_reason_list = lambda g, p, r: []
    C.from_url = lambda u, t=None: rec

    class T:
        def render(self, **kw):
            return 'text \u96c0 of %s' % kw['player']
    C.template_env = lambda p: types.SimpleNamespace(get_template=lambda f: T())
    builtins.input = lambda *a: answers.pop(0)
    builtins.print = lambda *a, **k: None
    os.chdir(room)
    try:
        C.main()
        files = {}
        for f in os.listdir(room):
            with open(os.path.join(room, f), encoding='utf-8') as h:
                files[f] = h.read()
    finally:
        os.chdir(here)
        shutil.rmtree(room)
        C.game_reason_list, C.from_url, C.template_env, builtins.input, builtins.print = keep
    a = case['answer']
    who = [int(a) - 1] if a.isdigit() and 1 <= int(a) <= n else range(n)
    want = {'tenhou_record_2009-x_p_%d_%d.html' % (k, k): 'text \u96c0 of player p/%d' % k for k in who}
    return None if files == want else 'answer %r: files %r, expected %r' % (a, files, want)


def check(case):
    return whole(case) if 'answer' in case else report(case)


def gen(rng, tier):
    for n in (3, 4):
        for a in ['1', '2', '3', '4', '0', '5', '', 'x', '-1', '01', '10']:
            yield {'answer': a, 'players': n}
    for c in BAD + ' .%_-':
        for how in ('id', 'link', 'text', 'none'):
            yield {'name': 'a' + c + c + 'b', 'id': '2009-1', 'index': 1, 'how': how, 'hands': 3}
    yield {'name': 'x', 'id': '../2009', 'index': 0}
    for k in range(2000 if tier == 'quick' else 50000):
        name = ''.join(rng.choice(list(BAD) + list('ab.. \n\u96c0\u00e9')) for _ in range(rng.randrange(12)))
        yield {'name': name, 'id': '2009%d-%d' % (rng.randrange(1000), k), 'index': rng.randrange(4), 'how': rng.choice(['id', 'link']), 'hands': rng.randrange(5)}


if __name__ == '__main__':
    run(gen, check, 'reports of players with names of special characters; every answer to the question of main for three and four players')
