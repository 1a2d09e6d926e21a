"""M02: game type codes, all 65536 codes as one symbolic 16-bit value."""
from props.lib import *
from pv.shims import from_bits

FUNCS = ['record.utils.value.gametype.GameType.' + f for f in
         ('__init__', 'player_count', 'has_aka_dora', 'play_level', 'speed_up', 'allow_tanyao_open', 'play_wind_count',
          'main_game_count', 'with_tips', 'tips_count', 'show_discard_shadow', '__eq__', '__str__')] + [
    'record.utils.bit.bit_struct_from_desc', 'record.utils.bit.named_tuple_from_desc', 'record.utils.bit.unpack_with',
    'record.utils.bit.repack_to', 'record.utils.bit.to_bit_bytes']
TRUSTED = ['models of struct.pack(">H") and bitstruct (pv/shims.py; compared with the real libraries on every 16-bit value '
           'by the concrete run)']


def code(name):
    bits = [z3.Bool(E.fresh_name('%s.bit%d' % (name, i))) for i in range(16)]
    v = from_bits(bits[::-1])
    E.assume(And(v >= 0, v <= 65535))
    return v, [SBool(b) for b in bits]


def game(G, v):
    form = E.choose(['int', 'text'])
    return G.GameType(v if form == 'int' else str(v))


def h_rules():
    G = M('mahjong.record.utils.value.gametype')
    v, b = code('code')
    E.witness_fn = lambda ev: {'case': {'code': ev(v)}}
    g = game(G, v)
    E.cover('decoded')
    three = b[4]
    E.prove('player count', same(g.player_count(), ite(three, 3, 4)))
    E.prove('red fives', Iff(truthy(g.has_aka_dora()), Not(b[1])))
    E.prove('open tanyao', Iff(truthy(g.allow_tanyao_open()), Not(b[2])))
    E.prove('rounds', same(g.play_wind_count(), ite(b[3], 2, 1)))
    E.prove('speed', Iff(truthy(g.speed_up()), b[6]))
    E.prove('level', same(g.play_level(), ite(b[5], 2, 0) + ite(b[7], 1, 0)))
    E.prove('discard shadow', Iff(truthy(g.show_discard_shadow()), b[8]))
    E.prove('tips', Iff(truthy(g.with_tips()), b[9]))
    E.prove('tips count', same(g.tips_count(), ite(b[9], ite(b[10], 5, 2), 0)))
    E.prove('number of hands', same(g.main_game_count(), ite(b[3], 2, 1) * ite(three, 3, 4)))


def truthy(x):
    return x if isinstance(x, (bool, SBool)) else x != 0


def h_eq():
    G = M('mahjong.record.utils.value.gametype')
    v, b = code('x')
    w, c = code('y')
    E.witness_fn = lambda ev: {'case': {'code': ev(v), 'other': ev(w)}}
    r = bool(G.GameType(v) == G.GameType(w))
    E.cover('equal' if r else 'different')
    agree = And([Iff(b[i], c[i]) for i in range(1, 11)])
    E.prove('equal iff all rule bits agree', Iff(r, agree))
    E.prove('!= is the negation', bool(G.GameType(v) != G.GameType(w)) == (not r))


def h_str():
    G = M('mahjong.record.utils.value.gametype')
    v, b = code('code')
    E.witness_fn = lambda ev: {'case': {'code': ev(v)}}
    s = str(G.GameType(v))
    E.cover('printed')
    bits = [E.branch(x.t) for x in b[:11]]
    lv = 2 * bits[5] + bits[7]
    want = ('三' if bits[4] else '四') + ('若銀琥孔' if bits[9] else '般上特鳳')[lv] + ('南' if bits[3] else '東')
    want += '' if bits[2] else '喰'
    want += '' if bits[1] else '赤'
    want += '速' if bits[6] else ''
    want += '暗' if bits[8] else ''
    want += ('祝5' if bits[10] else '祝2') if bits[9] else ''
    E.prove('printed name', s == want, '%r want %r' % (s, want))


def harnesses(tier):
    return [Harness('rules', h_rules, FUNCS, ['decoded']), Harness('equality', h_eq, FUNCS, ['equal', 'different']),
            Harness('name', h_str, FUNCS, ['printed'])]
