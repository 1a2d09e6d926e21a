"""D01: dora indicators (any list) and the initial tiles of a game."""
from props.lib import *

FUNCS = ['record.const.doras', 'record.const.initial_tiles', 'record.const._dora_map']
NAMES = ['%d%s' % k for k in KINDS] + ['0m', '0p', '0s']
ASSUMPTIONS = ['indicators are tile names; players are three or four']


def spec(name):
    """The dora of one indicator, from the rules."""
    n, c = int(name[0]), name[1]
    if c == 'z':
        return ['%dz' % (n % 4 + 1)] if n <= 4 else ['%dz' % ((n - 5 + 1) % 3 + 5)]
    n = n or 5
    return ['%d%s' % (n % 9 + 1, c)] + (['0%s' % c] if n == 4 else [])


class Ghost:
    """The dora list of the first i indicators (defined by: G(0) = [], G(i+1) = G(i) + spec(indicator i))."""

    def __init__(self, i):
        self.i = i


class DoraCut(Cut):
    name = 'doras/loop'

    def match(self, seq, loc):
        return isinstance(seq, ASeq)

    def enter(self, seq, loc):
        # the accumulator: the one list among the locals
        ls = [v for v in loc.values() if type(v) is list]
        if len(ls) != 1:
            raise Unsupported('accumulator of doras not found')
        self.acc = ls[0]

    def indices(self, seq, loc):
        m = fresh_int('m', 0)
        E.assume_checked(m < seq.n)
        return [m]

    def element(self, seq, i, loc):
        self.now = seq.at(i)
        return True, self.now

    def exit_index(self, seq, loc):
        return seq.n

    def invariant(self, seq, i, loc):
        if isinstance(i, int) and i == 0:
            return [('list is empty at the start', len(self.acc) == 0)]
        g = self.acc[:1]
        ok = bool(g) and isinstance(g[0], Ghost) and same(g[0].i + 1, i) is True
        return [('the dora of the indicator is appended in order', ok and self.acc[1:] == spec(self.now))]

    def havoc(self, seq, i, loc):
        self.acc[:] = [Ghost(i)]
        return {}

    def modifies(self, loc):
        return [self.acc]


def h_doras():
    C = M('mahjong.record.const')
    CUTS['doras'] = [DoraCut()]
    n = fresh_int('n', 0)
    cur = []

    def at(k):
        if not cur:
            cur.append(E.choose(NAMES))
        return cur[0]
    E.witness_fn = lambda ev: {'case': {'indicators': cur[:1] * 2}}
    r = C.doras(ASeq(n, at))
    E.cover('all')
    E.prove('the whole list is translated', len(r) == 1 and isinstance(r[0], Ghost) and same(r[0].i, n) is True)


def h_one():
    """The same for concrete lists of up to two indicators, executed without any invariant."""
    C = M('mahjong.record.const')
    a = E.choose([None] + NAMES)
    cur = []
    E.witness_fn = lambda ev: {'case': {'indicators': list(cur)}}
    for b in ([None] if a is None else [None] + NAMES):
        cur[:] = [x for x in (a, b) if x]
        E.prove('doras', list(C.doras(list(cur))) == [d for x in cur for d in spec(x)])
    E.cover('done')


def h_tiles():
    C = M('mahjong.record.const')
    n = E.choose([3, 4])
    aka = E.choose([False, True])
    E.witness_fn = lambda ev: {'case': {'players': n, 'aka': aka}}
    want = {}
    for x in NAMES[:34]:
        if n == 4 or not (x[1] == 'm' and x[0] in '2345678'):
            want[x] = 4
    if aka:
        for c in ('mps' if n == 4 else 'ps'):
            want['5' + c] -= 1
            want['0' + c] = 1
    for again in range(2):
        # the second round shows that the first changed nothing
        for m, b in ([(n, aka)] if again else [(n, aka)] + [(x, y) for x in (3, 4) for y in (False, True)]):
            r = list(C.initial_tiles(m, b))
            if (m, b) == (n, aka):
                got = {x: r.count(x) for x in r}
                E.prove('initial tiles', got == want, repr(got))
    E.cover('done')


def harnesses(tier):
    return [Harness('doras of any list', h_doras, FUNCS, ['all']), Harness('doras of short lists', h_one, FUNCS, ['done']),
            Harness('initial tiles', h_tiles, FUNCS, ['done'])]
