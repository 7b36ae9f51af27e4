"""Choice of the bins by the jackknife likelihood."""
import contextlib
import io
from fractions import Fraction
from .common import Case
from . import c22

LEVEL = 'model_checking'
NOTE = ('The logarithm is an arbitrary function of its argument, so the claims hold for it in particular; likelihoods that are equal up to rounding may be ordered either way. '
        'The Cython sources are translated from their syntax tree on every run; numexpr, BLAS and numpy.histogram are modelled. Bounded in the number of data and bins.')
ASSUMPTIONS = ['at least two different data values; smoothing parameters are positive; at least one combination has a finite likelihood']
ALPHAS = [[Fraction(1, 2)], [2, Fraction(1, 2)], [1, 10]]
B, X, CY, IT = c22.B, c22.X, c22.CY, c22.IT


def likelihood(m, c, a, ws):
    """The leave-one-out log-likelihood, None if it is not a number."""
    N, M = sum(c), len(c)
    if any(n + a - 1 <= 0 for n in c):
        return None
    L = 0
    for n, w in zip(c, ws):
        if n:
            L = L + n * m.fn('log', (n + a - 1) / ((N + M * a - 1) * w))
    return L


def quiet(f, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(**k)


def with_nan(m, d, i):
    """The data, and the same with a missing value."""
    if i is None:
        return m.arr(d)
    d = list(d)
    d.insert(i if i >= 0 else len(d), float('nan'))
    if not m.sym:
        return m.arr(d)
    return m.np.array(d)


def judge(m, r, combos, kind, n):
    """combos: (alpha, bins) -> (counts, edges, widths)"""
    m.true('four results', len(r) == 4)
    h, e, bw, par = r
    m.true('parameters', isinstance(par, dict))
    m.eq('phase', par['binning phase'], 0)
    a, M = par['binning alpha'], par['nr of bins']
    sel = [k for k in combos if k[1] == int(M) and abs(float(k[0]) - float(a)) < 1e-9]
    m.true('offered combination', len(sel) == 1)
    if len(sel) != 1:
        return
    L = {k: likelihood(m, v[0], k[0] if m.sym else float(k[0]), v[2]) for k, v in combos.items()}
    best = L[sel[0]]
    m.true('finite likelihood', best is not None)
    if best is None:
        return
    for k in combos:
        if L[k] is not None and k != sel[0]:
            m.true(f'alpha {float(k[0])}, {k[1]} bins is not better', best >= L[k] if m.sym else best >= L[k] - 1e-9 * max(1, abs(L[k])))
    c, ed, ws = combos[sel[0]]
    m.eq('edges', e, ed)
    m.eq('widths', bw, ws[0] if not hasattr(bw, '__len__') else ws)
    c22.same(m, kind, h, c22.wanted(m, kind, c, n, ws))


# kind of histogram, messages, position of a missing value
SETS = [('probability', False, None), ('density', False, 0), ('counts', True, -1), ('density', True, None)]


def options(kind, verbose):
    return dict(empirical_probability=kind == 'probability', empirical_density=kind == 'density', return_binning_parameters=True, verbose=verbose)


def run(m, F, d, al, Ms, n, sets, combos, **k):
    if not any(likelihood(m, v[0], a if m.sym else float(a), v[2]) is not None for (a, M), v in combos.items()):
        m.skip()
    r = quiet(F, my_data=with_nan(m, d, sets[2]), my_alpha_parameters=[x if isinstance(x, int) else float(x) for x in al], my_bin_numbers=Ms, **options(*sets[:2]), **k)
    judge(m, r, combos, sets[0], n)


def linear(name, mod, n, Mss, par=None):
    def f(m):
        Ms = m.pick('bins', Mss)
        al = m.pick('alpha', ALPHAS)
        sets = m.pick('output', SETS)
        lo, R, t, d = c22.linear_data(m, n)
        combos = {}
        for a in al:
            for M in Ms:
                combos[(a, M)] = (c22.expected(m, t, M), [lo + R * i / M for i in range(M + 1)], [R / M] * M)
        run(m, m.entry(mod, name), list(d), al, Ms, n, sets, combos, **({} if par is None else {'use_parallel': par}))
    return f


def log(name, mod, n, Mss, par=None):
    def f(m):
        Ms = m.pick('bins', Mss)
        al = m.pick('alpha', ALPHAS)
        sets = m.pick('output', SETS)
        E = {(1, 2): 2, (2,): 2, (2, 3): 6, (3,): 3, (1, 3): 3}[tuple(Ms)]
        m.split_ints(-1, 8)
        m.fork_minmax()
        s, r = m.real('s', lo=Fraction(1, 4), hi=4), m.real('r', lo=Fraction(9, 8), hi=2)
        p = [s]
        for i in range(E):
            p.append(p[-1] * r)
        xs = [m.real(f'x{i}', gt=0, hi=300) for i in range(n)]
        i, j = m.pick('ends', [(0, n - 1), (1, 0)])
        for q in range(n):
            if q not in (i, j):
                m.assume(m.And(xs[q] > p[0], xs[q] < p[-1]))
                if not m.sym:
                    for y in p:
                        m.assume(abs(xs[q] - y) > 1e-6)
        xs[i], xs[j] = p[0], p[-1]
        combos = {}
        for M in Ms:
            e = [p[k * E // M] for k in range(M + 1)]
            c = [0] * M
            for x in xs:
                c[c22.log_bin(x, e)] += 1
            for a in al:
                combos[(a, M)] = (c, e, [v - u for u, v in zip(e, e[1:])])
        combos = {(a, M): combos[(a, M)] for a in al for M in Ms}
        run(m, m.entry(mod, name), xs, al, Ms, n, sets, combos, **({} if par is None else {'use_parallel': par}))
    return f


FNS = [('hogg_jackknife_likelihood_blas', B, None), ('hogg_jackknife_likelihood_numexpr', X, None), ('hogg_jackknife_likelihood_cython', CY, False),
       ('hogg_jackknife_likelihood_cython', CY, True), ('hogg_jackknife_likelihood_iterator', IT, None), ('hogg_jackknife_likelihood_numpy', IT, None)]
LOG = [('hogg_jackknife_likelihood_blas_log', B, None), ('hogg_jackknife_likelihood_numexpr_log', X, None), ('hogg_jackknife_likelihood_cython_log', CY, False),
       ('hogg_jackknife_likelihood_cython_log', CY, True), ('hogg_jackknife_likelihood_iterator_log', IT, None)]


def degenerate(m):
    """No data, missing data only, one value."""
    name, mod, par = m.pick('function', FNS + LOG)
    F = m.entry(mod, name)
    k = {} if par is None else {'use_parallel': par}
    for d in (m.arr([]), m.np.array([float('nan'), float('nan')])):
        r = quiet(F, my_data=d, my_alpha_parameters=[1.0, 2.0], my_bin_numbers=[1, 2], **k)
        m.true('nothing', len(r) == 4 and all(x is None for x in r))
    x = m.real('x', lo=Fraction(1, 10), hi=10)
    w = m.real('w', lo=Fraction(1, 10), hi=10)
    r = quiet(F, my_data=m.arr([x]), my_alpha_parameters=[1.0, 2.0], my_bin_numbers=[1, 2], custom_bin_width=[w], verbose=m.pick('verbose', [True, False]), **k)
    m.true('four results', len(r) == 4)
    m.eq('one count', r[0], [1])
    m.eq('width', r[2], w)
    m.true('no parameters', r[3] is None)
    if name.endswith('_log'):
        y = m.real('y', lo=Fraction(1, 10), hi=10)
        r = quiet(F, my_data=m.arr([x, x + y]), my_alpha_parameters=[1.0], my_bin_numbers=[1], negative_values=True, **k)
        m.true('no logarithm of negative values', len(r) == 4 and all(v is None for v in r))


def cases(tier):
    th = tier == 'thorough'
    T = 800 if th else 250
    n = 4 if th else 3
    k = dict(seconds=T, max_paths=60000 if th else 4000)
    out = []
    lin = [[1, 2], [2, 3], [3, 1, 4]] if th else [[1, 2], [2, 3]]
    lg = [[1, 2], [2, 3], [3]] if th else [[1, 2], [3]]
    for name, mod, par in FNS:
        out.append(Case(name + (' parallel' if par else ''), linear(name, mod, n, lin, par), bounds=f'{n} data, bin numbers from {lin}', **k))
    for name, mod, par in LOG:
        out.append(Case(name + (' parallel' if par else ''), log(name, mod, n, lg, par), bounds=f'{n} data, bin numbers from {lg}', **k))
    out.append(Case('degenerate data', degenerate, bounds='no data, missing data, one value', **k))
    return out
