"""Q02: the report of a player: its file name, and one analysis per hand."""
from props.lib import *
import os
import re as _re
import shutil
import tempfile

FUNCS = ['tenhou_record_check.render_template', 'tenhou_record_check.main']
TRUSTED = ['re.sub with a character class replaces the characters of the class one by one (the class is tried on every character)']
ASSUMPTIONS = ['game_reason_list by its contract (K01); Template.render, log_id_from_url and log_id_to_url by their contracts',
               'main: render_template by its contract, the record and the answers of the user arbitrary, files written to a scratch directory']
NAMES37 = {'%d%s' % (n, s) for s in 'mps' for n in range(10)} | {'%dz' % n for n in range(1, 8)}
BAD = set('\\/:*?"<>|\0')


class Re:
    """re with sub() of one character class recorded."""

    def __init__(self):
        self.done = []

    def sub(self, pattern, repl, text, count=0, flags=0):
        import re._parser as sre
        if hasattr(pattern, 'pattern'):
            pattern, flags = pattern.pattern, pattern.flags & ~_re.UNICODE
        tree = list(sre.parse(pattern, flags)) if not flags else None
        if tree is None or len(tree) != 1 or str(tree[0][0]) not in ('IN', 'LITERAL', 'NOT_LITERAL') or not isinstance(repl, str) or count:
            raise Unsupported('another substitution')
        rx = _re.compile(pattern)
        m = {}
        for c in range(0x110000):
            ch = chr(c)
            r = rx.sub(repl, ch)
            if r != ch:
                m[ch] = r
        if not isinstance(text, str) or any(c in m for c in text):
            raise Unsupported('text with replaced characters of its own')
        self.done.append(m)
        return text

    def compile(self, pattern, flags=0):
        me = self

        class P:
            def sub(self, repl, text, count=0):
                return me.sub(pattern, repl, text, count, flags)
        return P()

    def __getattr__(self, n):
        raise Unsupported('re.%s' % n)


def h_report():
    C = M('mahjong.tenhou_record_check')
    n = fresh_int('hands', 0)
    rx = Re()
    stub(C, 're', rx)
    name, log, idx = '\ue010NAME\ue011', '\ue010ID\ue011', E.choose(range(4))
    E.witness_fn = lambda f: {'case': {'name': 'a/..\\b:c', 'id': '2009/x', 'index': idx}}

    class Hand:
        def __init__(self, k):
            self.k = k

        def __str__(self):
            return str(self.k)

    class Player:
        def __str__(self):
            return 'THE PLAYER'

    class Record:
        game_list = ASeq(n, Hand, 'hands')

        def __str__(self):
            return 'THE RECORD'
    p, rec = Player(), Record()
    p.name, p.index = name, idx
    made = []

    def reasons(game, player, record):
        E.prove('the hand, player and record at hand', player is p and record is rec and isinstance(game, Hand))
        return ('reasons of', game)
    stub(C, 'game_reason_list', reasons)
    url = OpaqueStr('link')

    def log_id_from_url(u):
        E.prove('the id of the link', u is url)
        return log
    stub(C, 'log_id_from_url', log_id_from_url)
    stub(C, 'log_id_to_url', lambda i: 'link of ' + i)

    class Template:
        def render(self, **kw):
            made.append(kw)
            return 'TEXT'
    way = E.choose(['link', 'id', 'none', 'text only'])
    E.cover(way)
    try:
        if way == 'link':
            r = C.render_template(p, rec, Template(), url)
        elif way == 'id':
            r = C.render_template(p, rec, Template(), log_id=log)
        elif way == 'none':
            r = C.render_template(p, rec, Template())
        else:
            r = C.render_template(p, rec, Template(), log_id=log, generate_filename=False)
    except ValueError:
        E.prove('only without a log there is no report', way == 'none')
        return
    E.prove('without a log there is no file name', way != 'none')
    E.prove('rendered once', len(made) == 1)
    kw = made[0]
    E.prove('what the report is about', kw.get('player') == 'THE PLAYER' and kw.get('record') == 'THE RECORD')
    E.prove('the link of the log', kw.get('log_url') is url if way == 'link' else kw.get('log_url') == 'link of ' + log)
    E.prove('a picture for each tile', set(kw.get('all_tiles')) == NAMES37 and len(list(kw['all_tiles'])) == 37)
    games = kw.get('games')
    if not isinstance(games, ASeq):
        raise Unsupported('the hands of the report')
    E.prove('as many analyses as hands', games.n == n)
    k = fresh_int('hand', 0)
    if bool(k < n):
        g = games.at(k)
        fields = list(g) if isinstance(g, tuple) else list(vars(g).values())
        E.prove('analysis k is that of hand k', len(fields) == 2 and same(fields[0], str(k)) and fields[1][0] == 'reasons of'
                and bool(fields[1][1].k == k))
    if way == 'text only':
        E.prove('the text', r == 'TEXT')
        return
    E.prove('file name and text', isinstance(r, tuple) and len(r) == 2 and r[1] == 'TEXT')
    E.prove('the file name', r[0] == 'tenhou_record_%s_%s_%d.html' % (log, name, idx), '%r' % (r[0],))
    if not rx.done:
        raise Unsupported('the file name is made plain in another way')
    E.prove('every character that is special in a path is replaced', len(rx.done) > 0 and BAD <= set().union(*rx.done))
    for m in rx.done:
        E.prove('by none of them', not any(set(v) & BAD for v in m.values()))
        E.prove('no other character is touched', set(m) <= BAD)


class Answer(str):
    """What the user typed: a decimal numeral or not."""
    digits = False

    def isdigit(self):
        return self.digits
    isdecimal = isnumeric = isdigit

    def strip(self, chars=None):
        return self


def h_main():
    C = M('mahjong.tenhou_record_check')
    n = E.choose([4, 3])

    class Player:
        def __init__(self, k):
            self.index, self.name = k, 'p%d' % k

        def __str__(self):
            return 'player %d' % self.index
    players = [Player(k) for k in range(n)]

    class Record:
        pass
    rec = Record()
    rec.players = list(players)
    kind = E.choose(['number', 'other', 'empty'])
    num_ = None
    if kind == 'number':
        num_ = fresh_int('answer', 0)
        ans = Answer(str(num_))
        ans.digits = True
    else:
        ans = Answer('all of them' if kind == 'other' else '')
    E.witness_fn = lambda f: {'case': {'answer': str(f(num_)) if kind == 'number' else str(ans), 'players': n}}
    url = Answer('LINK')
    asked = []

    def ask(prompt=''):
        asked.append(prompt)
        return url if len(asked) == 1 else ans
    stub(C, 'input', ask, must=False)
    stub(C, 'print', lambda *a, **k: None, must=False)
    stub(C, 'logger', Quiet())

    def from_url(u, timeout=None):
        E.prove('the link the user gave', u is url or u == 'LINK')
        return rec
    stub(C, 'from_url', from_url)

    class Env:
        def get_template(self, name):
            E.prove('the template of the report', name == 'record_checker_template.html')
            return 'TEMPLATE'
    stub(C, 'template_env', lambda path: Env())
    made = []

    def render(player, record, template, log_url=None, log_id=None, generate_filename=True):
        E.prove('the report is of this record', record is rec and template == 'TEMPLATE' and log_url == 'LINK' and bool(generate_filename))
        made.append(player)
        return 'report %d' % player.index, 'text \u96c0 %d\n' % player.index
    stub(C, 'render_template', render)
    here, room = os.getcwd(), tempfile.mkdtemp(prefix='q02_')
    os.chdir(room)
    try:
        C.main()
        files = {}
        for f in os.listdir(room):
            with open(os.path.join(room, f), 'rb') as h:
                files[f] = h.read()
    finally:
        os.chdir(here)
        shutil.rmtree(room)
    if kind == 'number' and bool(And(num_ >= 1, num_ <= n)):
        one = [p for p in players if bool(num_ == p.index + 1)]
        E.cover('one')
    else:
        one = players
        E.cover('all')
    E.prove('the reports of the chosen players', len(made) == len(one) and all(a is b for a, b in zip(made, one)))
    E.prove('each in its file', files == {'report %d' % p.index: ('text \u96c0 %d\n' % p.index).encode('utf-8') for p in one})
    E.prove('the record keeps its players', len(rec.players) == n and all(a is b for a, b in zip(rec.players, players)))


class Quiet:
    def __getattr__(self, n):
        return lambda *a, **k: None


def harnesses(tier):
    return [Harness('report', h_report, FUNCS[:1], ['link', 'id', 'none', 'text only']),
            Harness('main', h_main, FUNCS[1:], ['one', 'all'])]
