"""Angular integrals of products of Hough functions."""
import math
from fractions import Fraction

from . import quad
from .common import Case, Obj, two_pi

LEVEL = 'model_checking'
NOTE = 'The compiled integrator is replaced by the composite rules that C01 decides for it. Trusts the symbolic interpreter in vlib; rounding is outside the claims.'
ASSUMPTIONS = ['the functions are real; a mode that is conjugated changes the sign of the functions that stand for an azimuthal component or derivative (each carries a factor i that the coupling terms take out)',
               'the samples are increasing in the cosine of the colatitude, strictly inside (-1, 1), and need not be equally spaced']
MOD = 'aesolver.angular_integration.rotating_tar_angular.hough_integration'
FUN = ['hr', 'ht', 'hp', 'theta_der_hr', 'theta_der_ht', 'theta_der_hp', 'theta_phi', 'phi_phi', 'mhr', 'theta_der2_hr',
       'theta_der_hr_theta', 'theta_der2_hr_theta', 'theta_der_ht_theta', 'theta_der_hp_theta']
AZ = {'hp', 'theta_der_hp', 'theta_phi', 'mhr', 'theta_der_hp_theta'}
CONJ = [None, False, True, (True, False, False), (False, False, False), (False, True, False), (False, True, True), (True, True, True), (True, False, True)]


HOW = [(False, False, 'trapz', False), (True, False, 'simpson', True), (False, True, 'simpson', False), (True, True, 'trapz', True)]


def HI(m):
    return m.entry(MOD, 'HoughIntegration')


def grid(m, n):
    """Increasing cosines, their sines."""
    mu = m.increasing('mu', n, lo=-1, hi=1)
    m.assume(mu[0] > -1)
    m.assume(mu[n - 1] < 1)
    return list(mu), [m.sqrt(1 - u * u) for u in mu]


def holder(m, names, mu, vals):
    o = Obj(_mu_values=m.arr(mu))
    d = []
    for k, (nm, v) in enumerate(zip(names, vals), 1):
        setattr(o, f'_{nm}_mode_{k}', m.arr(list(v)))
        d.append(f'_{nm}_mode_{k}')
    return o, d


def pattern(conj):
    if isinstance(conj, tuple):
        return conj
    return (bool(conj), False, False)


def sign(names, conj):
    s = 1
    for nm, c in zip(names, pattern(conj)):
        if c and nm in AZ:
            s = -s
    return s


def regular(n, k, blow=False):
    def f(m):
        first = m.pick('functions', list(range(len(FUN))))
        names = [FUN[first], FUN[(5 * first + 2) % len(FUN)], FUN[(3 * first + 6) % len(FUN)]][:k]
        conj = m.pick('conj', CONJ if k == 3 else CONJ[:4])
        mu, s = grid(m, n)
        vals = [m.reals(f'v{i}', n) for i in range(k)]
        o, d = holder(m, names, mu, vals)
        div, mul, met, par = m.pick('how', HOW)
        r = HI(m).quadratic_angular_integral(o, d, conj=conj, div_by_sin=div, mul_with_mu=mul, num_integ_method=met,
                                             nr_omp_threads=2, use_parallel=par)
        m.eq('integral', r, two_pi(m) * sign(names, conj) * quad.trapezoid(product(vals, mu, s, div, mul), mu))
    return f


def product(vals, mu, s, div, mul):
    out = []
    for i, u in enumerate(mu):
        v = 1
        for x in vals:
            v = v * x[i]
        if mul:
            v = v * u
        if div:
            v = v / s[i]
        out.append(v)
    return out


def selection(m):
    """The azimuthal selection rule."""
    names = [m.pick('f0', ['hr', 'hp']), 'ht', 'hr']
    conj = m.pick('conj', CONJ)
    mu, s = grid(m, 2)
    vals = [m.reals(f'v{i}', 2, lo=1, hi=5) for i in range(3)]
    o, d = holder(m, names, mu, vals)
    ms = list(m.ints('m', 3, -40, 40))
    only = m.pick('only_theta', [False, True])
    check = m.pick('check', [True, False])
    before = list(ms)
    r = HI(m).quadratic_angular_integral(o, d, m_list_for_azimuthal_check=ms if check else None, only_theta=only, conj=conj)
    full = two_pi(m) * sign(names, conj) * quad.trapezoid(product(vals, mu, s, False, False), mu)
    tot = sum(-1 * a if c else a for a, c in zip(before, pattern(conj)))
    want = full if only or not check else m.ite(tot == 0, full, 0)
    m.eq('integral', r, want)
    m.eq('azimuthal orders untouched', ms, before)


def symmetric(m):
    """The order of the functions does not matter."""
    names = [m.pick('f0', ['hr', 'hp', 'mhr']), m.pick('f1', ['ht', 'theta_phi']), 'theta_der_hp_theta']
    conj = m.pick('conj', [(True, False, False), (False, True, True), None])
    perm = m.pick('perm', [(1, 0, 2), (0, 2, 1)])
    mu, s = grid(m, 2)
    vals = [m.reals(f'v{i}', 2) for i in range(3)]
    ms = list(m.ints('m', 3, -5, 5))
    div, mul = m.pick('div', [False, True]), m.pick('mul', [False, True])
    o, d = holder(m, names, mu, vals)
    K = HI(m)
    a = K.quadratic_angular_integral(o, d, ms, conj=conj, div_by_sin=div, mul_with_mu=mul)
    b = K.quadratic_angular_integral(o, [d[i] for i in perm], [ms[i] for i in perm], conj=None if conj is None else tuple(conj[i] for i in perm),
                                     div_by_sin=div, mul_with_mu=mul)
    m.eq('exchanged', a, b)


def gauss(m, mu, s, vals, div, mul, order):
    """Chebyshev-Gauss quadrature of the linear interpolant; None if a node is outside the samples."""
    g = product(vals, mu if m.sym else [float(u) for u in mu], s, False, mul)
    if not div:
        g = [a * b for a, b in zip(g, s)]
    tot = 0
    for k in range(1, order + 1):
        x = math.cos(math.pi * (2 * k - 1) / (2 * order))
        x = Fraction(x)
        if x < mu[0] or x > mu[-1]:
            return None
        i = max(j for j in range(len(mu) - 1) if mu[j] <= x)
        t = (x - mu[i]) / (mu[i + 1] - mu[i])
        w = Fraction(math.pi) / order
        if not m.sym:
            t, w = float(t), float(w)
        tot = tot + w * (1 - t) * g[i] + w * t * g[i + 1]
    return tot


GRIDS = [[(-399, 40, 401), (-3, 4, 5), (5, 12, 13), (399, 40, 401)], [(-1599, 80, 1601), (-4, 3, 5), (0, 1, 1), (9999, 200, 10001)],
         [(-3, 4, 5), (0, 1, 1), (8, 15, 17), (4, 3, 5)]]


def chebyshev(m):
    """Chebyshev-Gauss quadrature, requested or as protection against a blow-up."""
    pts = m.pick('mu', GRIDS)
    mu, s = [Fraction(a, c) for a, b, c in pts], [Fraction(b, c) for a, b, c in pts]
    exact = mu
    if not m.sym:
        mu, s = [float(x) for x in mu], [float(x) for x in s]
    vals = [m.reals(f'v{i}', 4, lo=-10, hi=10) if i == 0 else [1. if not m.sym else m.const(1)] * 4 for i in range(3)]
    names = ['hr', m.pick('f1', ['ht', 'hp']), 'mhr']
    conj = m.pick('conj', [None, (False, True, True)])
    o, d = holder(m, names, mu, vals)
    div, mul = m.pick('div', [False, True]), m.pick('mul', [False, True])
    order = m.pick('order', [1, 2])
    mode = m.pick('mode', ['always', 'protect'])
    fac = m.real('factor', lo=-5, hi=20)
    g = gauss(m, exact, s, vals, div, mul, 4 * order)
    reg = quad.trapezoid(product(vals, mu, s, div, mul), mu)
    f = two_pi(m) * sign(names, conj)
    kw = dict(conj=conj, div_by_sin=div, mul_with_mu=mul, cheby_order_multiplier=order)
    if mode == 'always':
        if g is None:
            m.done()
        r = HI(m).quadratic_angular_integral(o, d, use_cheby_integration=True, **kw)
        m.eq('quadrature', r, f * g)
    else:
        m.assume(m.absv(reg - fac) > Fraction(1, 10 ** 6) if m.sym else abs(reg - fac) > 1e-6)
        r = HI(m).quadratic_angular_integral(o, d, cheby_blow_up_protection=True, cheby_blow_up_factor=fac, **kw)
        m.eq('protected', r, f * g if g is not None and reg > fac else f * reg)


def bad(m):
    """A pattern of another length is refused."""
    o, d = holder(m, ['hr'] * 3, [-.5, .5], [m.reals(f'v{i}', 2) for i in range(3)])
    c = m.pick('conj', [(True,), (True, False), (False, False, True, True)])
    try:
        HI(m).quadratic_angular_integral(o, d, [1, 2, 3], conj=c)
        ok = False
    except SystemExit:
        ok = True
    m.true('refused', ok)


def cases(tier):
    big = tier != 'quick'
    st = quad.stubs
    return [
        Case('three functions', regular(3, 3), st, max_paths=8000, seconds=200, bounds='3 samples, any spacing; all functions, patterns and factors'),
        Case('two functions', regular(4, 2), st, max_paths=8000, seconds=100, bounds='4 samples; norms of one mode'),
        Case('selection rule', selection, st, max_paths=4000, bounds='azimuthal orders up to 40'),
        Case('exchange', symmetric, st, max_paths=4000, bounds='2 samples'),
        Case('Chebyshev-Gauss', chebyshev, st, max_paths=4000, bounds='4 samples on three grids; any values and threshold'),
        Case('malformed pattern', bad, st),
    ] + ([Case('six samples', regular(6, 3), st, max_paths=12000, seconds=800, bounds='6 samples')] if big else [])
