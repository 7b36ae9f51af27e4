"""Histogram counting in the histogram backends."""
from fractions import Fraction
from .common import Case

LEVEL = 'model_checking'
NOTE = ('The data are real numbers: rounding at bin edges is outside the check. The Cython sources are translated from their syntax tree on every run. '
        'numexpr, BLAS and numpy.histogram are modelled. Bounded in the number of data and bins.')
ASSUMPTIONS = ['at least two different data values; the phase lies in [0, 1)']
B, X, CY, IT, SH = ('hogg_jacky.blas_jacky', 'hogg_jacky.numexpr_jacky', 'hogg_jacky.cython_jacky.cy_jacky', 'hogg_jacky.numpy_iterator_jacky',
                    'hogg_jacky.shared.shared_computation_functions')


# positions of the lowest and the highest values
ENDS = [[(0,), (-1,)], [(2,), (0,)], [(1,), (0, 2)], [(1, 2), (0,)]]


def linear_data(m, n, ends=True, nmax=None):
    """n numbers lo + R * t; with ends, the extremes sit at picked places."""
    m.split_ints(0, nmax or 8)
    m.fork_minmax()
    lo, R = m.real('lo', lo=-5, hi=5), m.real('R', lo=Fraction(1, 4), hi=8)
    t = [m.real(f't{i}', lo=0, hi=1) if not ends else m.real(f't{i}', gt=0, lt=1) for i in range(n)]
    if ends:
        z, o = m.pick('ends', ENDS)
        for i in z:
            t[i] = 0
        for i in o:
            t[i] = 1
    return lo, R, t, m.arr([lo + R * x for x in t])


def bin_of(m, t, M, p=0):
    """Index of the bin, decided by cases."""
    u = M * t + p
    for b in range(M - 1):
        if bool(u < b + 1):
            return b
    return M - 1


def expected(m, t, M, p=0):
    c = [0] * M
    for x in t:
        c[bin_of(m, x, M, p)] += 1
    return c


def same(m, what, h, want):
    m.true(what + ': number of bins', h is not None and len(h) == len(want))
    for i, w in enumerate(want):
        m.eq(f'{what}: bin {i}', h[i], w)


def norm(kind, c, n, w):
    ws = w if isinstance(w, list) else [w] * len(c)
    return [x if kind == 'counts' else Fraction(x, n) if kind == 'probability' else x / (n * v) for x, v in zip(c, ws)]


KINDS = ['counts', 'probability', 'density']


def fun(m, kind, backend, mod):
    return m.entry(mod, {'counts': '', 'probability': 'empirical_probability_', 'density': 'empirical_density_'}[kind] + 'histogram_' + backend)


def wanted(m, kind, c, n, w):
    if not m.sym:
        return [float(x) for x in norm(kind, c, n, w)]
    return norm(kind, c, n, w)


def one_backend(backend, mod, n, Ms, par=None):
    def f(m):
        M = m.pick('bins', Ms)
        lo, R, t, d = linear_data(m, n)
        p = m.real('phase', lo=0, lt=1) if backend != 'iter' else 0
        kind = m.pick('kind', KINDS)
        w = R / M
        k = {} if par is None else {'use_parallel': par}
        h, e, bw = fun(m, kind, backend, mod)(d, w, M, bin_phase=p, additional_checks=m.pick('checked', [False, True]), **k)
        c = expected(m, t, M, p)
        same(m, kind, h, wanted(m, kind, c, n, w))
        m.eq('edges', e, [lo + R * i / M for i in range(M + 1)])
        m.eq('bin width', bw, w)
    return f


def spec(backend, mod, n, Ms, par=None):
    """Bins with a given width and lowest value."""
    def f(m):
        M = m.pick('bins', Ms)
        lo, R, t, d = linear_data(m, n, ends=False)
        kind = m.pick('kind', KINDS)
        w = R / M
        F = m.entry(mod, f'histogram_{backend}_spec_width')
        k = {} if par is None else {'use_parallel': par}
        k['bin_nr' if backend == 'blas' else 'nr_bins'] = M
        p = m.real('phase', lo=0, lt=1)
        h = F(d, w, bin_phase=p, empirical_probability=kind == 'probability', empirical_density=kind == 'density', min_nr_bins=M, my_data_min=lo, **k)
        if M == 1:
            c = [n]
        else:
            c = expected(m, t, M, p)
        same(m, kind, h, wanted(m, kind, c, n, w))
        m.true('no data', F(None, w, bin_phase=p, empirical_probability=True, **{x: y for x, y in k.items() if x != 'use_parallel'}) is None)
    return f


def spec_numpy(n, Ms):
    def f(m):
        M = m.pick('bins', Ms)
        lo, R, t, d = linear_data(m, n)
        kind = m.pick('kind', KINDS)
        h = m.entry(IT, 'histogram_spec_width')(d, M, kind == 'probability', kind == 'density')
        same(m, kind, h, wanted(m, kind, expected(m, t, M), n, R / M))
    return f


def edges(m, M):
    e = [m.real('e0', lo=Fraction(1, 10), hi=5)]
    for i in range(M):
        e.append(e[-1] + m.real(f'w{i}', lo=Fraction(1, 10), hi=5))
    return e


def log_bin(x, e):
    for b in range(len(e) - 2):
        if bool(x <= e[b + 1]):
            return b
    return len(e) - 2


def log_spec(name, mod, n, Ms, par=None):
    """Bins with given edges, closed on the right."""
    def f(m):
        M = m.pick('bins', Ms)
        m.split_ints(-1, 8)
        e = edges(m, M)
        xs = [m.real(f'x{i}', lo=Fraction(1, 20), hi=20) for i in range(n)]
        # values outside the edges belong to the outermost bins
        kind = m.pick('kind', KINDS)
        k = {} if par is None else {'use_parallel': par}
        F = m.entry(mod, name)
        d = m.arr(xs)
        h = F(d, m.arr(e), kind == 'probability', kind == 'density', min_nr_bins=M, **k)
        c = [0] * M
        for x in xs:
            c[log_bin(x, e)] += 1
        same(m, kind, h, wanted(m, kind, c, n, [b - a for a, b in zip(e, e[1:])]))
        for i in range(n):
            m.eq('data untouched', d[i], xs[i])
        m.true('negative values', F(d, m.arr(e), True, negative_values=True) is None)
    return f


def log_edges(m, n, M):
    """Data between s and s * r**M, so that the bins of the logarithm end at s * r**i."""
    m.split_ints(-1, 8)
    m.fork_minmax()
    s, r = m.real('s', lo=Fraction(1, 4), hi=4), m.real('r', lo=Fraction(5, 4), hi=2)
    e = [s]
    for i in range(M):
        e.append(e[-1] * r)
    xs = [m.real(f'x{i}', lo=Fraction(1, 20), hi=300) for i in range(n)]
    i, j = m.pick('ends', [(0, n - 1), (1, 0)])
    for q in range(n):
        if q not in (i, j):
            m.assume(m.And(xs[q] > e[0], xs[q] < e[-1]))
            if not m.sym:
                for y in e:
                    m.assume(abs(xs[q] - y) > 1e-6)
    xs[i], xs[j] = e[0], e[-1]
    return e, xs


def log_counts(n, M):
    def f(m):
        e, xs = log_edges(m, n, M)
        kind = m.pick('kind', KINDS)
        d = m.arr(xs)
        h, ed, bw = fun(m, kind, 'blas', B)(d, 1.0, M, log_bins=True)
        c = [0] * M
        for x in xs:
            c[log_bin(x, e)] += 1
        w = [b - a for a, b in zip(e, e[1:])]
        m.eq('edges', ed, e)
        m.eq('widths', bw, w)
        same(m, kind, h, wanted(m, kind, c, n, w))
        r = fun(m, kind, 'blas', B)(d, 1.0, M, log_bins=True, negative_values=True)
        m.true('negative values', len(r) == 3 and all(x is None for x in r))
    return f


def cases(tier):
    th = tier == 'thorough'
    T = 600 if th else 150
    n, Ms = (5, [1, 2, 3, 4]) if th else (3, [1, 2, 3])
    k = dict(seconds=T, max_paths=60000 if th else 4000)
    b = f'{n} data, {Ms} bins'
    out = []
    for name, mod, par in (('blas', B, None), ('numexpr', X, None), ('cython', CY, False), ('cython', CY, True)):
        tag = name + (' parallel' if par else '')
        out.append(Case(f'histograms, {tag}', one_backend(name, mod, n, Ms, par), bounds=b, **k))
        out.append(Case(f'given width, {tag}', spec(name, mod, n, Ms, par), bounds=b, **k))
    out.append(Case('given bins, numpy', spec_numpy(n, Ms), bounds=b, **k))
    for name, mod, par in (('histogram_blas_log_spec_edges', B, None), ('histogram_numexpr_log_spec_edges', X, None), ('histogram_log_spec_edges', IT, None),
                           ('histogram_cython_log_spec_edges', CY, False), ('histogram_cython_log_spec_edges', CY, True)):
        for n_, M_ in ([(4, [1, 2]), (3, [3]), (2, [4])] if th else [(3, [1, 2]), (2, [3])]):
            out.append(Case(f'{name}{" parallel" if par else ""}, {n_} data', log_spec(name, mod, n_, M_, par), bounds=f'{n_} data, {M_} bins', **k))
    for M in (1, 2, 3) + ((4,) if th else ()):
        out.append(Case(f'logarithmic bins, {M}', log_counts(4 if th else 3, M), bounds=f'{4 if th else 3} data, {M} bins', **k))
    return out
