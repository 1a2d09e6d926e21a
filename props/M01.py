"""M01: meld codes, every well-formed 16-bit code (symbolic bits; concretised only where the code builds sets)."""
from props.lib import *
from pv.model import SymSet

FUNCS = ['record.utils.value.meld.' + f for f in
         ('meld_from', 'meld_type', 'init_from_basic', 'Flush.__init__', 'Triplet.__init__', 'TenhouAddedKan.__init__',
          'TenhouKan.__init__', 'Kita.__init__', 'KanFromTriplet.__init__', 'TenhouMeld.from_who', 'TenhouMeld.unpack',
          'Meld.is_opened', 'is_triplet_of_added_kan')] + [
    'record.utils.bit.unpack_with', 'record.utils.bit.to_bit_bytes', 'record.utils.bit.bit_struct_from_desc',
    'record.category.SubCategory.category', 'record.category.MixedCategory.index']
TRUSTED = ['models of struct.pack(">H") and bitstruct (pv/shims.py)']
ASSUMPTIONS = ['well-formed codes: the type field is in range (chi < 63, pon and added kan < 102, kan and kita a tile id)']


def setup(kind):
    ML = M('mahjong.record.utils.value.meld')
    v, b = code16()
    who = fresh_int('who', 0, 3)
    flags = {'chi': {2: True}, 'pon': {2: False, 3: True}, 'added': {2: False, 3: False, 4: True},
             'kita': {2: False, 3: False, 4: False, 5: True}, 'kan': {2: False, 3: False, 4: False, 5: False}}[kind]
    for i, on in flags.items():
        E.assume(b[i] if on else Not(b[i]))
    E.witness_fn = lambda ev: {'case': {'code': ev(v), 'who': ev(who)}}
    return ML, v, b, who


def decode(ML, v, who):
    m = ML.meld_from(Ev('N', {'who': str(who), 'm': str(v)}))
    E.cover('decoded')
    return m


def keys_of(s):
    return [k for k, g in s.g.items() if E.check(as_z3bool(g)) != z3.unsat] if isinstance(s, SymSet) else list(s)


def member(s, x):
    return s.has(x) if isinstance(s, SymSet) else x in s


def common(ML, m, b, who, kind, cls, tiles, borrowed):
    """tiles: all ids as a list of numbers; borrowed: the borrowed one or None."""
    E.prove('class of the meld', type(m) is getattr(ML, cls))
    E.prove('source player', same(m.from_who, (who + field(b, 0, 2)) % 4))
    rest = [t for t in tiles if t is not borrowed]
    bt, st = m.borrowed_tiles, m.self_tiles
    for name, got, want in (('borrowed tile', bt, [] if borrowed is None else [borrowed]), ('tiles of the own hand', st, rest)):
        E.prove('%s: only tile ids' % name, all(isinstance(k, int) and 0 <= k < 136 for k in keys_of(got)))
        E.prove(name, wrapb(z3.And([as_z3bool(member(got, x)) == as_z3bool(Or([t == x for t in want] or [False]))
                                    for x in range(136)])))
    E.prove('disjoint', wrapb(z3.And([z3.Not(z3.And(as_z3bool(member(bt, x)), as_z3bool(member(st, x)))) for x in range(136)])))
    E.prove('opened iff a tile was borrowed', bool(m.is_opened()) == (borrowed is not None))
    name = {'chi': 'flush', 'pon': 'triplet', 'added': 'add_kan', 'kita': 'kita', 'kan': 'kan'}[kind]
    E.prove('meld_type', ML.meld_type(E.notes['code']) is getattr(ML.MeldType, name))


def h_chi(color):
    def h():
        ML, v, b, who = setup('chi')
        E.notes['code'] = v
        t = field(b, 10, 6)
        E.assume(And(t >= 21 * color, t < 21 * (color + 1)))
        m = decode(ML, v, who)
        kind = t // 3 // 7 * 9 + t // 3 % 7
        tiles = [4 * (kind + i) + field(b, 3 + 2 * i, 2) for i in range(3)]
        common(ML, m, b, who, 'chi', 'Flush', tiles, tiles[t % 3])
    return h


def h_pon(u):
    def h():
        ML, v, b, who = setup('pon')
        E.notes['code'] = v
        t = field(b, 9, 7)
        E.assume(t < 102)
        E.assume(field(b, 5, 2) == u)
        m = decode(ML, v, who)
        tiles = [4 * (t // 3) + i for i in range(4) if i != u]
        common(ML, m, b, who, 'pon', 'Triplet', tiles, tiles[t % 3])
    return h


def h_added():
    ML, v, b, who = setup('added')
    E.notes['code'] = v
    t = field(b, 9, 7)
    E.assume(t < 102)
    m = decode(ML, v, who)
    common(ML, m, b, who, 'added', 'TenhouAddedKan', [4 * (t // 3) + field(b, 5, 2)], None)


def h_kita():
    ML, v, b, who = setup('kita')
    E.notes['code'] = v
    t = field(b, 8, 8)
    E.assume(t < 136)
    m = decode(ML, v, who)
    common(ML, m, b, who, 'kita', 'Kita', [t], None)


def h_kan():
    ML, v, b, who = setup('kan')
    E.notes['code'] = v
    t = field(b, 8, 8)
    E.assume(t < 136)
    m = decode(ML, v, who)
    tiles = [4 * (t // 4) + i for i in range(4)]
    kui = field(b, 0, 2)
    closed = E.branch((kui == 0).t) if isinstance(kui == 0, SBool) else kui == 0
    E.cover('closed' if closed else 'open')
    common(ML, m, b, who, 'kan', 'TenhouKan', tiles, None if closed else tiles[t % 4])
    E.prove('is_opened_kan', bool(m.is_opened_kan) == (not closed))


def h_added_to_triplet():
    ML = M('mahjong.record.utils.value.meld')
    k = E.choose(list(range(34)))
    cur = {}
    E.witness_fn = lambda ev: {'case': dict(cur)}
    for r in range(3):
        for u in range(4):
            kui, who = (r + u) % 3 + 1, (r + k) % 4
            code = kui + 8 + 32 * u + 512 * (3 * k + r)
            tri = ML.meld_from(Ev('N', {'who': str(who), 'm': str(code)}))
            for j in range(34):
                acode = kui + 16 + 32 * (u if j == k else (u + j) % 4) + 512 * (3 * j + r)
                cur.update(code=code, who=who, added=acode)
                add = ML.meld_from(Ev('N', {'who': str(who), 'm': str(acode)}))
                E.prove('an added tile belongs to the triplet of its kind only',
                        bool(ML.is_triplet_of_added_kan(tri, add)) == (j == k))
                if j == k:
                    kan = ML.KanFromTriplet(tri, add)
                    E.cover('combined')
                    E.prove('the four ids of the kind', set(kan.self_tiles) | set(kan.borrowed_tiles)
                            == set(range(4 * k, 4 * k + 4)) and len(kan.self_tiles) == 3)
                    E.prove('borrowed tile stays', set(kan.borrowed_tiles) == set(tri.borrowed_tiles))
                    E.prove('source player stays', kan.from_who == (who + kui) % 4)
                    E.prove('an added kan is open', kan.is_opened() is True and kan.is_opened_kan is True)


def harnesses(tier):
    return [Harness('run, colour %d' % c, h_chi(c), FUNCS, ['decoded']) for c in range(3)] + [
        *[Harness('triplet without tile %d' % u, h_pon(u), FUNCS, ['decoded']) for u in range(4)],
        Harness('added kan', h_added, FUNCS, ['decoded']),
        Harness('kita', h_kita, FUNCS, ['decoded']), Harness('kan', h_kan, FUNCS, ['open', 'closed']),
        Harness('triplet with added tile', h_added_to_triplet, FUNCS, ['combined'])]
