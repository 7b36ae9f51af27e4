"""Pairing functions."""
from .common import Case

LEVEL = 'model_checking'
NOTE = ('Bounded: the shell of a pair (its sum, or its larger member) is enumerated up to the bound, everything else is symbolic and decided by z3, with exact roots and floors. '
        'Different numbers for different pairs follow from the inversion. Trusts the symbolic interpreter in vlib.')
ASSUMPTIONS = ['both integers of a pair are at least the lowest integer', 'values stay far below 2^53, so that the intermediate doubles are exact']
CAN, SYM, XIE = ('pairing_functions.cantor_pairing', 'pairing_functions.symmetric_pairing', 'pairing_functions.xie_pairing')


def pair(m, K, name=''):
    lo = m.integer('lowest', -K, K)
    a, b = m.integer('a' + name, 0, K), m.integer('b' + name, 0, K)
    return lo, a, b


def shell(m, K):
    """A pair of given sum; the sum is enumerated."""
    lo, s = m.integer('lowest', -K, K), m.pick('sum', list(range(K + 1)))
    b = m.integer('b', 0, s)
    return lo, s - b, b


def ordered(m, K):
    """A pair of given larger member, in either order; the larger member is enumerated."""
    lo, s = m.integer('lowest', -K, K), m.pick('larger', list(range(K + 1)))
    b = m.integer('b', 0, s)
    return (lo, s, b) if m.pick('larger first', [True, False]) else (lo, b, s)


def form(m, x, y):
    return m.pick('form', [lambda: (x, y), lambda: [x, y], lambda: m.np.array([x, y])])()


def cantor(K):
    def f(m):
        lo, a, b = shell(m, K)
        c = m.entry(CAN, 'cantor_pair')(form(m, a + lo, b + lo), lo)
        m.eq('number', c, (a + b) * (a + b + 1) / 2 + b)
        r = m.entry(CAN, 'invert_cantor_pair')(c, lo)
        m.true('a pair', len(r) == 2)
        m.eq('first', r[0], a + lo)
        m.eq('second', r[1], b + lo)
    return f


def cantor_onto(K):
    """Every number is the number of the pair it is turned into."""
    def f(m):
        lo, n = m.integer('lowest', -K, K), m.integer('n', 0, K * K)
        r = m.entry(CAN, 'invert_cantor_pair')(n, lo)
        m.true('domain', m.And(r[0] >= lo, r[1] >= lo))
        m.eq('number', m.entry(CAN, 'cantor_pair')((r[0], r[1]), lo), n)
    return f


def symmetric(K):
    def f(m):
        lo, a, b = ordered(m, K)
        P = m.entry(SYM, 'symmetric_pair')
        s = P(form(m, a + lo, b + lo), lo)
        m.eq('order does not matter', P((b + lo, a + lo), lo), s)
        r = m.entry(SYM, 'invert_symmetric_pair')(s, lo)
        m.true('a pair', len(r) == 2)
        m.eq('smaller', r[0], m.minimum(a, b) + lo)
        m.eq('larger', r[1], m.maximum(a, b) + lo)
    return f


def symmetric_onto(K):
    def f(m):
        lo, n = m.integer('lowest', -K, K), m.integer('n', 1, K * K)
        r = m.entry(SYM, 'invert_symmetric_pair')(n, lo)
        m.true('domain', m.And(r[0] >= lo, r[1] >= r[0]))
        m.eq('number', m.entry(SYM, 'symmetric_pair')((r[0], r[1]), lo), n)
    return f


def xie(K):
    def f(m):
        lo, a, b = ordered(m, K)
        m.split_ints(-1, 2 ** (2 * K * K).bit_length() - 2)
        P = m.entry(XIE, 'xie_symmetric_pair')
        s = P(form(m, a + lo, b + lo), lo)
        m.eq('order does not matter', P((b + lo, a + lo), lo), s)
        r = m.entry(XIE, 'invert_xie_symmetric_pair')(s, lo)
        m.true('a pair', len(r) == 2)
        m.eq('smaller', m.minimum(r[0], r[1]), m.minimum(a, b) + lo)
        m.eq('larger', m.maximum(r[0], r[1]), m.maximum(a, b) + lo)
    return f


def injective(mod, name, sym, K):
    """Different pairs get different numbers."""
    def f(m):
        lo, a, b = pair(m, K)
        c, d = m.integer('c', 0, K), m.integer('d', 0, K)
        P = m.entry(mod, name)
        s, t = P((a + lo, b + lo), lo), P((c + lo, d + lo), lo)
        same = m.And(a == c, b == d)
        if sym:
            same = m.Or(same, m.And(a == d, b == c))
        m.true('different numbers', m.num(s == t) == m.num(same))
    return f


def cases(tier):
    T = dict(quick=100, thorough=600)[tier]
    K = dict(quick=20, thorough=40)[tier]
    b = f'offsets from the lowest integer <= {K}, |lowest| <= {K}'
    return [Case('Cantor pairing inverted', cantor(K), seconds=T, bounds=b, max_paths=20000),
            Case('Cantor numbers', cantor_onto(K), seconds=T, bounds=f'numbers <= {K * K}'),
            Case('symmetric pairing inverted', symmetric(K), seconds=T, bounds=b, max_paths=20000),
            Case('symmetric numbers', symmetric_onto(K), seconds=T, bounds=f'numbers <= {K * K}'),
            Case('Xie pairing inverted', xie(K), seconds=T, bounds=b, max_paths=20000),
            Case('symmetric pairing injective', injective(SYM, 'symmetric_pair', True, K), seconds=T, bounds=b, max_paths=20000)]
