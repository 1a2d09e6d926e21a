"""N01: number_list for lists of any length; log links with opaque ids and fields."""
from props.lib import *

FUNCS = ['record.utils.value.general.number_list', 'record.reader.log_id_from_url', 'record.reader.log_id_to_url',
         'record.reader.download_url']
TRUSTED = ['str.split (gives the parts between separators), float() and int() of a decimal numeral', 'urllib.parse, run on the link itself']
ASSUMPTIONS = ['numbers below 2**53, so that float() of an integer numeral is exact',
               'log links: an opaque id among up to two opaque fields before and after it, names and values (bounded; the id, the '
               'names and the values are arbitrary except for the reserved characters of links)']


class Numbers:
    """A string of numbers joined by a separator; only split is known about it."""
    pv_abstract = True

    def __init__(self, sep, parts):
        self.sep, self.parts = sep, parts

    def split(self, sep=None, maxsplit=-1):
        E.prove('the list is split at the separator', sep == self.sep and maxsplit == -1)
        return self.parts

    def __getattr__(self, n):
        raise Unsupported('str.%s of a list of numbers' % n)


def h_numbers():
    G = M('mahjong.record.utils.value.general')
    n = fresh_int('n', 1)
    memo = {}
    K = fresh_int('k', 0)
    E.assume(K < n)
    dot = E.choose([False, True])     # is part k a numeral with a fraction part (1.5, 1500.00)?
    whole = fresh_int('v', -2 ** 53 + 1, 2 ** 53 - 1)
    fr = fresh_real('fraction')
    E.assume(And(fr >= 0, fr < 1))
    integral = not dot or E.choose([True, False])
    if integral:
        E.assume(SBool(fr.t == 0))
    else:
        E.assume(SBool(fr.t > 0))
    v = SReal(z3.ToReal(whole.t) + fr.t) if dot else whole

    def at(k):
        if bool(SBool(num(k) == num(K))):
            return str(v)
        return '0'
    sep = E.choose([',', ';', ' '])
    E.witness_fn = lambda f: {'case': {'numbers': [repr(float(f(v))) if dot else str(f(v))], 'split': sep}}
    parts = ASeq(n, at)
    r = G.number_list(Numbers(sep, parts)) if sep == ',' else G.number_list(Numbers(sep, parts), sep)
    eq('one number per part', r.n if isinstance(r, ASeq) else len(r), n)
    x = r.at(K) if isinstance(r, ASeq) else r[K.__index__()]
    E.prove('a number', isinstance(x, (int, float, SInt, SReal)) and not isinstance(x, bool))
    E.prove('the number of the part', wrapb(z3.ToReal(num(x)) == num(v)) if z3.is_int(num(x)) and dot else x == v)
    E.cover('integral' if integral else 'fraction')
    E.prove('int when integral, float otherwise', isinstance(x, (int, SInt)) == integral)


def opaque(name):
    """A string without reserved characters, known only by its identity."""
    return str(fresh_int(name))


def h_link_roundtrip():
    R = M('mahjong.record.reader')
    i = opaque('id')
    u = R.log_id_to_url(i)
    eq('log_id_from_url undoes log_id_to_url', R.log_id_from_url(u), i)
    eq('download url of the viewer link', R.download_url(u), 'http://e.mjv.jp/0/log/?' + i)
    E.cover('link')


def some_field(where):
    kind = E.choose(['other', 'like log', 'tw', 'bare'])
    if kind == 'other':
        return opaque('name') + '=' + opaque('value')
    if kind == 'like log':
        return E.choose(['log2', 'Log', 'xlog', opaque('x') + 'log', 'log' + opaque('x')]) + '=' + opaque('value')
    if kind == 'tw':
        return 'tw=' + opaque('value')
    return E.choose([opaque('name'), opaque('name') + '='])


def h_link_fields(a, b):
    def h():
        R = M('mahjong.record.reader')
        i = opaque('id')
        fs = [some_field('before') for _ in range(a)] + ['log=' + i] + [some_field('after') for _ in range(b)]
        u = E.choose(['http://tenhou.net/0/', 'https://tenhou.net/3/', 'tenhou.net/0/']) + '?' + '&'.join(fs) + E.choose(['', '#' + opaque('frag')])
        eq('the id of a link with other fields', R.log_id_from_url(u), i)
        eq('download url', R.download_url(u), 'http://e.mjv.jp/0/log/?' + i)
        E.cover('link')
    return h


def harnesses(tier):
    return [Harness('number_list', h_numbers, FUNCS, ['integral', 'fraction']), Harness('link', h_link_roundtrip, FUNCS, ['link'])] + [
        Harness('link, %d fields before, %d after (bounded)' % (a, b), h_link_fields(a, b), FUNCS, ['link'])
        for a, b in [(0, 0), (1, 0), (0, 1), (1, 1)] + ([(2, 0), (0, 2)] if tier != 'quick' else [])]
