"""Isolation of mode triads."""
import contextlib
import io
from fractions import Fraction

from .common import Case

LEVEL = 'model_checking'
NOTE = ('The radial orders and the pattern of missing thresholds are picked from lists; thresholds, equilibrium amplitudes, detunings and the stability checks are symbolic. '
        'Ties between thresholds are outside the check. Trusts the symbolic interpreter in vlib.')
ASSUMPTIONS = ['different triads have thresholds that differ by more than 1e-6 ppm; every triad with a threshold has an equilibrium amplitude']
AN, PL = 'ae_analyzer.library_functions', 'aeplotter.library_functions'

# parent and daughter orders of the triads
ORDERS = {
    1: [[(5, 3, 2)], [(-5, -5, -5)]],
    2: [[(1, 2, 3), (1, 4, 5)], [(1, 2, 3), (1, 3, 2)], [(1, 2, 3), (4, 3, 5)], [(1, 2, 3), (4, 5, 2)], [(1, 2, 3), (4, 5, 6)],
        [(1, 2, 2), (1, 3, 3)], [(1, 2, 3), (3, 4, 5)], [(1, 2, 3), (2, 1, 4)], [(1, 2, 3), (4, 2, 5)]],
    3: [[(1, 2, 3), (1, 4, 5), (1, 6, 7)], [(1, 2, 3), (1, 4, 5), (6, 5, 7)], [(1, 2, 3), (1, 3, 4), (5, 4, 2)], [(1, 2, 3), (4, 2, 5), (6, 7, 3)],
        [(1, 2, 3), (1, 2, 4), (1, 5, 2)], [(1, 2, 3), (4, 5, 6), (4, 7, 8)], [(1, 2, 3), (4, 5, 6), (7, 8, 9)], [(3, 1, 1), (3, 2, 2), (4, 2, 1)]],
    4: [[(1, 2, 3), (1, 4, 5), (6, 7, 8), (6, 9, 3)], [(1, 2, 3), (1, 4, 5), (1, 6, 7), (8, 7, 9)], [(1, 2, 3), (1, 3, 4), (2, 5, 6), (2, 4, 7)],
        [(1, 2, 2), (1, 2, 3), (4, 3, 2), (4, 5, 5)]],
}


def triads(m, n, stable=None, valid=None, missing=True, orders=None):
    """The symbolic data of n triads."""
    ro = m.pick('orders', orders or ORDERS[n])
    none = m.pick('without', [()] + ([(0,), (n - 1,)] if n > 1 else [(0,)]) + ([(0, 1)] if n > 2 else []) if missing else [()])
    t = [m.real(f't{i}', lo=Fraction(1, 10), hi=1000) for i in range(n)]
    e = [m.real(f'e{i}', lo=0, hi=1) for i in range(n)]
    ok = [i for i in range(n) if i not in none]
    for x, i in enumerate(ok):
        for j in ok[:x]:
            m.assume(m.Or(t[i] > t[j] + Fraction(1, 10**6), t[j] > t[i] + Fraction(1, 10**6)))
        for j in ok:
            if j != i:
                m.assume(m.Or(t[j] > e[i] * 10**6 + Fraction(1, 10**6), t[j] < e[i] * 10**6 - Fraction(1, 10**6)))
    nan = float('nan')
    if stable is None:
        stable = [[m.boolean(f's{i}{k}') for k in range(3)] for i in range(n)]
    if valid is None:
        dl = [m.real(f'd{i}', lo=-3, hi=3) for i in range(n)]
        for d in dl:
            m.assume(m.And(*[m.Or(d > x + Fraction(1, 10**6), d < x - Fraction(1, 10**6)) for x in (Fraction(1, 10), -Fraction(1, 10))]))
    else:
        dl = [Fraction(1, 100) if v else Fraction(-1, 2) for v in valid]
    par = [i in ok for i in range(n)]
    dd = {'checks': m.arr([y for i in range(n) for y in [par[i], False, m.boolean(f'x{i}')] + list(stable[i])], (n, 6)) if m.sym else
          m.np.array([[par[i], False, m.boolean(f'x{i}')] + list(stable[i]) for i in range(n)], dtype=bool),
          'linear_omega_diff_to_min_omega': m.arr([d if m.sym else float(d) for d in dl]),
          'thresh_surf_ppm': m.arr([nan if i in none else t[i] for i in range(n)]),
          'rad_ord': m.arr([y for x in ro for y in x], (n, 3)),
          'surfs': m.arr([y for i in range(n) for y in (e[i], m.real(f'f{i}', lo=0, hi=1), m.real(f'g{i}', lo=0, hi=1))], (n, 3)),
          'harmonic_mask': m.np.array([b == c for _, b, c in ro])}
    return dd, ro, ok, t, [1000000 * x for x in e], stable, dl


def isolated(m, ro, ok, t, eq):
    """The isolation criterion."""
    r = []
    for i in range(len(ro)):
        if i not in ok:
            r.append(False)
            continue
        c = []
        for j in ok:
            if j == i:
                continue
            if ro[j][0] == ro[i][0]:
                c += [t[i] < t[j], eq[i] < t[j]]
            if set(ro[j][1:]) & set(ro[i][1:]):
                c.append(t[i] < t[j])
        r.append(m.And(*c) if c else True)
    return r


def ae(m, dl):
    return [m.And(d < Fraction(1, 10), d > -Fraction(1, 10)) if m.sym else abs(float(d)) <= .1 for d in dl]


def same(m, what, got, want):
    m.true(what + ': number of triads', len(got) == len(want))
    for i, w in enumerate(want):
        m.true(f'{what}: triad {i}', m.num(got[i]) == m.num(w))


def analyzer(n):
    def f(m):
        m.fork_minmax()
        dd, ro, ok, t, eq, st, dl = triads(m, n, stable=[(True,) * 3] * n, valid=[True] * n)
        with contextlib.redirect_stdout(io.StringIO()):
            r = m.entry(AN, 'get_mask_information_triad_counts')(dd)
        same(m, 'isolated', r[2], isolated(m, ro, ok, t, eq))
    return f


def plotter(n):
    def f(m):
        m.fork_minmax()
        dd, ro, ok, t, eq, st, dl = triads(m, n, stable=[(True,) * 3] * n, valid=[True] * n)
        with contextlib.redirect_stdout(io.StringIO()):
            a, b = m.entry(PL, 'isolated_non_isolated_stable_valid_masking')(dd, None, None)
        iso = isolated(m, ro, ok, t, eq)
        same(m, 'isolated', a, iso)
        same(m, 'not isolated', b, [m.Not(x) if not isinstance(x, bool) else not x for x in iso])
    return f


def cases(tier):
    out = []
    for n in (1, 2, 3) + ((4,) if tier != 'quick' else ()):
        out += [Case(f'analysis, {n} triads', analyzer(n)), Case(f'plots, {n} triads', plotter(n))]
    return out
