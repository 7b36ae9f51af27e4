"""C21: derivatives and differential operators on the Chebyshev collocation grid."""
import math
from fractions import Fraction

import numpy as np

from .common import Case

LEVEL = 'bounded'
NOTE = 'grids of 2 to 12 points (thorough: 24), all functions of the space of the expansion with coefficients of at most one, all coefficients of the operator'
ASSUMPTIONS = ['the grid and its matrices are evaluated in floating point by the code itself; results may differ from the exact derivative by 1e-8 of the largest derivative of a basis function',
               'numpy.linalg.inv and numpy.linalg.eig as documented']

MOD = 'cheby_transform'
TOL = Fraction(1, 10**8)


def basis(mu, s, parity, pf, n):
    """Values, first and second derivatives (exact in the given mu and s) of the basis functions at one point."""
    mu, s = Fraction(mu), Fraction(s)
    T, D, E = [Fraction(1), mu], [Fraction(0), Fraction(1)], [Fraction(0), Fraction(0)]
    for k in range(2, 2 * n + 2):
        T.append(2 * mu * T[-1] - T[-2])
        D.append(2 * T[k - 1] + 2 * mu * D[-1] - D[-2])
        E.append(4 * D[k - 1] + 2 * mu * E[-1] - E[-2])
    out = []
    for j in range(n):
        k = 2 * j + parity
        t, d, e = T[k], D[k], E[k]
        if pf:
            s1, s2 = -mu / s, -1 / s**3
            t, d, e = t * s, d * s + t * s1, e * s + 2 * d * s1 + t * s2
        out.append((t, d, e))
    return out


def build(m, npts):
    # the grid and the matrices depend on the number of points only: numpy itself evaluates them
    K = m.entry(MOD, 'ChebyTransform')
    g = K.__init__.__globals__
    real, g['np'] = g['np'], np
    try:
        o = K(npts)
    finally:
        g['np'] = real
    n = npts // 2
    th = [math.pi * (i + 0.5) / (2 * n) for i in range(n)]
    mu = [float(o.mu[i]) for i in range(n)]
    s = [float(o.s[i]) for i in range(n)]
    m.true('number of points', len(o.mu) == n and len(o.s) == n and o.npts == 2 * n)
    m.true('the grid of Chebyshev roots', all(abs(a - math.cos(t)) < 1e-12 for a, t in zip(mu, th)))
    m.true('sines of the grid', all(abs(a - math.sin(t)) < 1e-12 for a, t in zip(s, th)))
    return o, n, [math.cos(t) for t in th], [math.sin(t) for t in th]


def near(m, label, got, want, scale):
    b = m.const(TOL * Fraction(scale))
    for i, (g, w) in enumerate(zip(got, want)):
        m.true(f'{label} at point {i}', m.And(g - w <= b, w - g <= b))


def c_(m, x):
    return m.const(Fraction(float(x)))


def space(m):
    parity, pf = m.pick('parity', [0, 1]), m.pick('factor', [0, 1])
    return parity, pf


def derivatives(npts):
    def f(m):
        parity, pf = space(m)
        o, n, mu, s = build(m, npts)
        a = [m.real(f'a{j}', lo=-1, hi=1) for j in range(n)]
        b = [basis(mu[i], s[i], parity, pf, n) for i in range(n)]
        v = [[sum((a[j] * c_(m, b[i][j][d]) for j in range(n)), m.const(0)) for i in range(n)] for d in range(3)]
        big = [1 + max(abs(b[i][j][d]) for i in range(n) for j in range(n)) for d in range(3)]
        fa = m.arr(v[0])
        d1, d2 = o.diff1(fa, parity, pf), o.diff2(fa, parity, pf)
        m.true('shape of the derivatives', d1.shape == (n,) and d2.shape == (n,))
        near(m, 'first derivative', d1, v[1], big[1])
        near(m, 'second derivative', d2, v[2], big[2])
    return f


def operator(npts, second):
    def f(m):
        parity, pf = space(m)
        o, n, mu, s = build(m, npts)
        c = [[m.real(f'c{d}{i}', lo=-1, hi=1) for i in range(n)] for d in range(3)]
        b = [basis(mu[i], s[i], parity, pf, n) for i in range(n)]
        for j in range(n):
            fa = m.arr([c_(m, b[i][j][0]) for i in range(n)])
            r = o.apply(fa, m.arr(c[0]), m.arr(c[1]), m.arr(c[2]) if second else None, parity, pf)
            want = [sum((c[d][i] * c_(m, b[i][j][d]) for d in range(3 if second else 2)), m.const(0)) for i in range(n)]
            m.true('shape of the result', r.shape == (n,))
            near(m, f'operator on basis function {j}', r, want, 3 + sum(max(abs(b[i][j][d]) for i in range(n)) for d in range(3)))
    return f


def eigen(npts):
    """The matrix handed to the eigenvalue solver is that of the operator, and the solver's results are returned."""
    def f(m):
        parity, pf = space(m)
        o, n, mu, s = build(m, npts)
        c = [[m.real(f'c{d}{i}', lo=-1, hi=1) for i in range(n)] for d in range(3)]
        seen = []
        g = m.entry(MOD, 'ChebyTransform').solve_eig.__globals__
        real = g['np']

        class Lin:
            def eig(self, x):
                seen.append(x)
                return 'values', 'vectors'

            def __getattr__(self, k):
                return getattr(real.linalg, k)

        class NP:
            linalg = Lin()

            def __getattr__(self, k):
                return getattr(real, k)
        g['np'] = NP()
        try:
            r = o.solve_eig(m.arr(c[0]), m.arr(c[1]), m.arr(c[2]), parity, pf)
        finally:
            g['np'] = real
        m.true('one matrix is solved', len(seen) == 1)
        m.true('the values and vectors of the solver are returned', tuple(r) == ('values', 'vectors'))
        M = seen[0]
        m.true('shape of the matrix', M.shape == (n, n))
        b = [basis(mu[i], s[i], parity, pf, n) for i in range(n)]
        for j in range(n):
            got = [sum((M[i, k] * c_(m, b[k][j][0]) for k in range(n)), m.const(0)) for i in range(n)]
            want = [sum((c[d][i] * c_(m, b[i][j][d]) for d in range(3)), m.const(0)) for i in range(n)]
            near(m, f'matrix on basis function {j}', got, want, 3 + sum(max(abs(b[i][j][d]) for i in range(n)) for d in range(3)))
    return f


def cases(tier):
    deep = tier != 'quick'
    out = []
    for n in ([2, 3, 4, 5, 6, 8, 12] + ([7, 10, 16, 24] if deep else [])):
        out.append(Case(f'derivatives, {n} points', derivatives(n), bounds=f'{n} points, both parities, with and without the factor sin(theta); any coefficients in [-1, 1]'))
    for n in ([4, 6, 8] + ([12] if deep else [])):
        for sec in (True, False):
            out.append(Case(f'operator{"" if sec else " without second derivative"}, {n} points', operator(n, sec), bounds=f'{n} points; any coefficients of the operator'))
        out.append(Case(f'eigenvalue problem, {n} points', eigen(n), bounds=f'{n} points; any coefficients of the operator'))
    return out
