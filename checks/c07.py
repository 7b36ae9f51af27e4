"""Combinations."""
from .common import Case

LEVEL = 'model_checking'
NOTE = ('The members of the sets are symbolic integers, equal or not; set iteration follows the hash table of the interpreter. Bounded in the number of members. '
        'Trusts the symbolic interpreter in vlib.')
ASSUMPTIONS = ['the members of one set are different integers']
B = 200


def members(m, name, n, lo=-B):
    x = [m.integer(f'{name}{i}', lo, B) for i in range(n)]
    for i in range(n):
        for j in range(i):
            m.assume(m.Not(x[i] == x[j]))
    return x


def b2i(m, c):
    return m.num(c) if m.sym else int(c)


def count(m, vals, a, b, unordered=True):
    """How often the pair occurs in the list."""
    r = 0
    for v in vals:
        c = m.And(v[0] == a, v[1] == b)
        if unordered:
            c = m.Or(c, m.And(v[0] == b, v[1] == a))
        r = r + b2i(m, c)
    return r


def member(m, x, xs):
    return m.Or(*[x == y for y in xs])


def symmetric(na, nb):
    def f(m):
        A, Bs = members(m, 'a', na), members(m, 'b', nb)
        dia = m.pick('diagonal', [True, False])
        C = m.entry('py_combinations.symmetric_product', 'SymmetricProductCombos')
        o = C(A, Bs, include_diagonal=dia)
        L = o.l
        m.true('cardinality', o.c == len(L))
        for a in A:
            for b in Bs:
                eq = bool(a == b)
                if not eq or dia:
                    m.eq('each pair once', count(m, L, a, b), 1)
        for v in L:
            m.true('members of a pair', m.Or(m.And(member(m, v[0], A), member(m, v[1], Bs)), m.And(member(m, v[1], A), member(m, v[0], Bs))))
            if not dia:
                m.true('no diagonal', m.Not(v[0] == v[1]))
    return f


def ranges(na, nb):
    """Ranges, as the mode input uses them."""
    def f(m):
        a0, b0 = m.integer('a0', -B, B), m.integer('b0', -B, B)
        dia = m.pick('diagonal', [True, False])
        C = m.entry('py_combinations.symmetric_product', 'SymmetricProductCombos')
        A, Bs = [a0 + i for i in range(na)], [b0 + i for i in range(nb)]
        o = C(list(A), list(Bs), dia)
        L = o.l
        m.true('cardinality', o.c == len(L))
        for a in A:
            for b in Bs:
                if not bool(a == b) or dia:
                    m.eq('each pair once', count(m, L, a, b), 1)
        for v in L:
            m.true('members of a pair', m.Or(m.And(member(m, v[0], A), member(m, v[1], Bs)), m.And(member(m, v[1], A), member(m, v[0], Bs))))
    return f


def cartesian(na, nb):
    def f(m):
        A, Bs = members(m, 'a', na), members(m, 'b', nb)
        o = m.entry('py_combinations.cartesian_combinations', 'CartesianCombos')(A, Bs)
        m.true('cardinality', o.c == len(o.l) and o.c == na * nb)
        for a in A:
            for b in Bs:
                m.eq('each pair once', count(m, o.l, a, b, False), 1)
    return f


def single(n):
    def f(m):
        A = members(m, 'a', n)
        o = m.entry('py_combinations.single_set_combinations', 'SingleSetCombos')(A)
        m.true('cardinality', o.c == len(o.l) and o.c == n * (n - 1) // 2)
        for i in range(n):
            for j in range(i):
                m.eq('each pair once', count(m, o.l, A[i], A[j]), 1)
    return f


def cases(tier):
    T = dict(quick=100, thorough=900)[tier]
    sz = [(1, 1), (1, 2), (2, 1), (2, 2), (1, 3), (3, 1), (2, 3), (3, 2)] + ([(3, 3)] if tier == 'thorough' else [])
    b = 'members between -%d and %d' % (B, B)
    return ([Case(f'symmetric product, {i} and {j} members', symmetric(i, j), seconds=T, bounds=b, max_paths=20000) for i, j in sz]
            + [Case(f'ranges of {i} and {j}', ranges(i, j), seconds=T, bounds=b, max_paths=20000) for i, j in [(2, 2), (3, 1), (3, 2)] + ([(3, 3), (4, 3)] if tier == 'thorough' else [])]
            + [Case('cartesian product', cartesian(3, 3), seconds=T, bounds=b + ', three and three members'),
               Case('one set', single(4), seconds=T, bounds=b + ', four members')])
