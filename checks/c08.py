"""Mode input."""
from .common import Case
from .c07 import count, member

LEVEL = 'model_checking'
NOTE = ('The ends of the ranges are symbolic, the lengths of the ranges are enumerated up to the bound. Trusts the symbolic interpreter in vlib.')
ASSUMPTIONS = ['ranges are not empty', 'degrees and azimuthal orders are handed through unchanged']
B = 200


def gen(m):
    return m.entry('aesolver.mode_input_generator.input_generator', 'AdNadModeInfoInputGenerator')


def absv(m, x):
    return m.absv(x)


def statistics(m, o, label=''):
    L = o.combinations_radial_orders
    m.true('one average per triad', len(o.average_radial_orders) == len(L))
    m.true('one difference per triad', len(o.wu_difference_statistics) == len(L))
    for t, a, w in zip(L, o.average_radial_orders, o.wu_difference_statistics):
        m.eq('average', a, (t[0] + t[1] + t[2]) / 3)
        m.eq('difference', w, t[0] - m.absv(t[1] - t[2]))


def count3(m, L, t):
    r = 0
    for v in L:
        c = m.And(v[0] == t[0], v[1] == t[1], v[2] == t[2])
        r = r + (m.num(c) if m.sym else int(c))
    return r


def two(n0, n1, n2):
    def f(m):
        p0, d1, d2 = m.integer('parent', -B, B), m.integer('first', -B, B), m.integer('second', -B, B)
        o = gen(m)([2, 1, 1], [2, 1, 1], p0, p0 + n0 - 1, d1, d1 + n1 - 1, d2, d2 + n2 - 1)
        L = o.combinations_radial_orders
        m.true('number of triads', len(L) == n0 * n1 * n2)
        for i in range(n0):
            for j in range(n1):
                for k in range(n2):
                    m.eq('each triad once', count3(m, L, (p0 + i, d1 + j, d2 + k)), 1)
        for t in L:
            m.true('own ranges', m.And(t[0] >= p0, t[0] <= p0 + n0 - 1, t[1] >= d1, t[1] <= d1 + n1 - 1, t[2] >= d2, t[2] <= d2 + n2 - 1))
        statistics(m, o)
        m.true('degrees', list(o.mode_l) == [2, 1, 1])
    return f


def one(n0, n1):
    def f(m):
        p0, d1 = m.integer('parent', -B, B), m.integer('daughter', -B, B)
        part = m.pick('second range', [(None, None), (d1, None), (None, d1)])
        o = gen(m)([2, 1, 1], [2, 1, 1], p0, p0 + n0 - 1, d1, d1 + n1 - 1, *part)
        L = o.combinations_radial_orders
        m.true('number of triads', len(L) == n0 * n1 * (n1 - 1) // 2)
        for i in range(n0):
            for j in range(n1):
                for k in range(j):
                    m.eq('each pair once', count3(m, L, (p0 + i, d1 + j, d1 + k)) + count3(m, L, (p0 + i, d1 + k, d1 + j)), 1)
        statistics(m, o)
    return f


def cases(tier):
    T = dict(quick=100, thorough=900)[tier]
    s2 = [(1, 1, 1), (1, 2, 2), (2, 1, 2), (1, 3, 2)] + ([(2, 3, 3)] if tier == 'thorough' else [])
    s1 = [(1, 2), (2, 2), (2, 3)] + ([(3, 5)] if tier == 'thorough' else [])
    b = f'ends of the ranges between -{B} and {B}'
    return ([Case('two ranges, lengths %d %d %d' % s, two(*s), seconds=T, bounds=b, max_paths=20000) for s in s2]
            + [Case('one range, lengths %d %d' % s, one(*s), seconds=T, bounds=b, max_paths=20000) for s in s1])
