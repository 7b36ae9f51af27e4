"""Classification of mode triads."""
import contextlib
import io
from fractions import Fraction

from .c24 import AN, PL, ae, isolated, same, triads
from .common import Case

LEVEL = 'model_checking'
NOTE = ('The radial orders and the pattern of missing thresholds are picked from lists; thresholds, equilibrium amplitudes, detunings, limits and the stability checks are symbolic. '
        'Ties and exact limits are outside the check. Trusts the symbolic interpreter in vlib.')
ASSUMPTIONS = ['different triads have thresholds that differ by more than 1e-6 ppm; no quantity equals its limit; every triad with a threshold has an equilibrium amplitude']
FEW = {1: [[(5, 3, 2)], [(5, 2, 2)]], 2: [[(1, 2, 3), (1, 4, 5)], [(1, 2, 3), (1, 3, 3)], [(1, 2, 3), (4, 5, 6)]],
       3: [[(1, 2, 3), (1, 4, 4), (6, 5, 7)], [(1, 2, 3), (4, 2, 5), (6, 7, 3)]]}


def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*a, **k)


def no(m, x):
    return not x if isinstance(x, bool) else m.Not(x)


def data(m, n):
    m.fork_minmax()
    dd, ro, ok, t, eq, st, dl = triads(m, n, orders=FEW[n], missing=n < 3)
    return dd, ro, ok, t, [m.And(*x) for x in st], ae(m, dl), isolated(m, ro, ok, t, eq), dl


def overview(n):
    def f(m):
        dd, ro, ok, t, S, A, I, dl = data(m, n)
        H = [b == c for _, b, c in ro]
        r = quiet(m.entry(PL, 'theoretical_plotting_masks_overview'), dd)
        m.true('three classes', len(r) == 3)
        same(m, 'stable only', r[0], [False if H[i] else m.And(S[i], no(m, A[i])) for i in range(n)])
        same(m, 'stable and valid expansion', r[1], [False if H[i] else m.And(S[i], A[i], no(m, I[i])) for i in range(n)])
        same(m, 'stable and valid', r[2], [False if H[i] else m.And(S[i], A[i], I[i]) for i in range(n)])
    return f


def counts(n):
    def f(m):
        dd, ro, ok, t, S, A, I, dl = data(m, n)
        r = quiet(m.entry(AN, 'get_mask_information_triad_counts'), dd)
        m.true('five classes', len(r) == 5)
        same(m, 'stable', r[0], S)
        same(m, 'valid expansion', r[1], A)
        same(m, 'isolated', r[2], I)
        same(m, 'valid', r[3], [m.And(A[i], I[i]) for i in range(n)])
        same(m, 'stable and valid', r[4], [m.And(S[i], A[i], I[i]) for i in range(n)])
    return f


def sharpness(n):
    def f(m):
        dd, ro, ok, t, S, A, I, dl = data(m, n)
        lim = m.pick('limits', ['none', 'threshold', 'detuning', 'both'])
        tm = dm = None
        eps = Fraction(1, 10**6)
        low = [i not in ok for i in range(n)]
        keep_d = [True] * n
        if lim in ('threshold', 'both'):
            tm = m.real('tmin', lo=1, hi=500)
            for i in ok:
                m.assume(m.Or(t[i] > tm + eps, t[i] < tm - eps))
                low[i] = t[i] < tm
        if lim in ('detuning', 'both'):
            dm = m.real('dmax', lo=Fraction(1, 100), hi=1)
            for i in range(n):
                m.assume(m.And(m.Or(dl[i] > dm + eps, dl[i] < dm - eps), m.Or(dl[i] > -dm + eps, dl[i] < -dm - eps)))
            keep_d = [m.And(x < dm, x > -dm) for x in dl]
        keep = [True] * n
        if tm is not None:
            # no mode may partake, in the same role, in a triad with a lower threshold
            keep = [no(m, m.Or(*[low[j] for j in range(n) if any(ro[i][k] == ro[j][k] for k in range(3))])) for i in range(n)]
        r = quiet(m.entry(PL, 'isolated_non_isolated_stable_valid_masking'), dd, tm, dm)
        m.true('two classes', len(r) == 2)
        same(m, 'isolated', r[0], [m.And(S[i], A[i], I[i], keep[i], keep_d[i]) for i in range(n)])
        same(m, 'not isolated', r[1], [m.And(S[i], A[i], no(m, I[i]), keep[i], keep_d[i]) for i in range(n)])
    return f


def cases(tier):
    out = []
    for n in (1, 2) + ((3,) if tier != 'quick' else ()):
        out += [Case(f'overview, {n} triads', overview(n)), Case(f'counts, {n} triads', counts(n)), Case(f'sharpness, {n} triads', sharpness(n))]
    return out
