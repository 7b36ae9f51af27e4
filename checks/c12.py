"""Stability verdicts against the linearised amplitude equations."""
from fractions import Fraction

from .common import Case, Obj

LEVEL = 'model_checking'
ASSUMPTIONS = [
    'exact real arithmetic; constants read to 10 significant digits',
    'amplitude equations of three quadratically coupled modes: dS_i/dt = gamma_i S_i + (bilinear term) sin(phase), stationary phase with cot(phase) = -q',
    'Routh-Hurwitz conditions of the exact Jacobian were derived with a computer algebra system (tools/jacobian.py) and are written out in the harness',
]
THREE = 'aesolver.stability_checker.three_mode.stab_checker_quadratic_three_sum'
TWO = 'aesolver.stability_checker.two_mode.stab_checker_quadratic_two_sum'
HYP = 'aesolver.stability_checker.hyperbolicity.hyperbolicity_checker'
CHK = 'aesolver.pre_checks.specific.three_mode_checks'


def hurwitz(g, q):
    """P < 0 is the third Routh-Hurwitz condition of the three-mode fixed point (summed rate negative, parent driven, daughters damped)."""
    a, b, c = g
    s = a + b + c
    e2, e3 = a * b + a * c + b * c, a * b * c
    q2 = q * q
    return (2 * e3 - s * s * s) + (2 * s * s * s + 12 * e3 - 4 * e2 * s) * q2 + (18 * e3 + 3 * s * s * s - 12 * e2 * s) * q2 * q2


def rates(m):
    g1 = m.real('g1', lo=Fraction(1, 10), hi=10)
    r2, r3 = m.real('rho2', lo=Fraction(1, 100), hi=20), m.real('rho3', lo=Fraction(1, 100), hi=20)
    return g1, r2, r3, [g1, -g1 * r2, -g1 * r3]


def sums(m):
    gss = m.entry(THREE, 'gamma_sum_stability')
    n = m.pick('n', [1, 2, 3, 4])
    g = [m.real(f'g{i}', lo=-3, hi=3) for i in range(n)]
    s = sum(g[1:], g[0])
    m.true('array', m.num(gss(m.arr(g))) == m.num(s < 0))
    m.true('list', m.num(gss(list(g))) == m.num(s < 0))
    m.true('number', m.num(gss(g[0])) == m.num(g[0] < 0))


def three(m):
    g1, r2, r3, g = rates(m)
    q = m.real('q', lo=-20, hi=20)
    cond = m.entry(THREE, 'check_corrected_dziembowski_conditions')
    u = [1, -r2, -r3]
    m.true('stability condition', m.num(cond(m.arr(g), q)) == m.num(hurwitz(u, q) < 0))


def three_equiv(m):
    # summed rate -k, so that the ratios used by the criterion are polynomials
    k, u, v = m.real('k', lo=Fraction(1, 10), hi=10), m.real('u', lo=Fraction(1, 100), hi=20), m.real('v', lo=Fraction(1, 100), hi=20)
    w = 1 + u - v
    m.assume(w > Fraction(1, 100))
    q = m.real('q', lo=-20, hi=20)
    cond = m.entry(THREE, 'check_additional_condition_equivalent')
    m.true('equivalent condition', m.num(cond(m.arr([k * u, -1 * k * v, -1 * k * w]), q)) == m.num(hurwitz([u, -1 * v, -1 * w], q) < 0))


def ratio(m):
    """The reported ratio is the q^4 coefficient of the correct condition over that of the published one."""
    g1, r2, r3, g = rates(m)
    f = m.entry(THREE, 'ratio_coefficients_q4_dziembowski')
    good, orig = m.entry(THREE, 'check_corrected_dziembowski_conditions', 'check_original_dziembowski_conditions')
    a, p = 1 - r2 - r3, r2 * r3
    top = -18 * p - 3 * a * (a * a + 4 * (r2 + r3 - p))
    bot = 3 * (-6 * p - a * ((r2 - r3) * (r2 - r3) + 2 * (r2 + r3) * (r2 + r3) + 1))
    m.assume(m.Or(bot > Fraction(1, 100), bot < -Fraction(1, 100)))
    m.eq('ratio', f(m.arr(g)) * bot, top)
    q = m.real('q', lo=-20, hi=20)
    c0 = a * a * a - 2 * p
    c2 = -12 * p - a * ((r2 - r3) * (r2 - r3) + (r2 + r3) * (r2 + r3) + 2)
    m.true('published condition', m.num(orig(m.arr(g), q)) == m.num(c0 + c2 * q * q + bot * q * q * q * q > 0))


def theta_case(m, sign):
    g1 = m.real('g1', lo=Fraction(1, 10), hi=10)
    th = m.real('theta', lo=Fraction(1, 100), hi=20)
    g = [sign * g1, -sign * g1 * th, -sign * g1 * th]
    return th, g


def quotients(th):
    a = 2 * th * (th - 1)
    return a - 1, a + 1


def two_par(region):
    def f(m):
        th, g = theta_case(m, 1)
        q = m.real('q', lo=-20, hi=20)
        n, d = quotients(th)          # sign of n: theta beyond (1 + sqrt 3) / 2
        if region == 'theta':
            m.assume(n <= -Fraction(1, 10**7))
        else:
            m.assume(n >= Fraction(1, 10**7))
            if region == 'far':
                m.assume(q * q * n >= d * Fraction(1000001, 1000000))
            elif region == 'near':
                m.assume(q * q * d <= n * Fraction(999999, 1000000))
            else:
                m.assume(q * q * n <= d * Fraction(999999, 1000000))
                m.assume(q * q * d >= n * Fraction(1000001, 1000000))
        cond = m.entry(TWO, 'check_dziembowski_conditions_parametric')
        m.true('stability condition', m.num(cond(m.arr(g), q)) == int(region == 'far'))
        chk = checker(m, g, q, True)
        m.true('verdict of the pre-check', m.num(chk._check_linearly_stable_fp()) == int(region == 'far'))
    return f


def two_dir(m):
    th, g = theta_case(m, -1)
    cond = m.entry(TWO, 'check_dziembowski_conditions_direct')
    m.true('stability condition', m.num(cond(m.arr(g))) == m.num(2 * th < 1))
    m.eq('theta', m.entry(TWO, 'compute_theta')(m.arr(g)), th)
    m.true('verdict of the pre-check', m.num(checker(m, g, m.real('q', lo=-20, hi=20), True)._check_linearly_stable_fp()) == m.num(2 * th < 1))


def checker(m, g, q, two):
    C = m.entry(CHK, 'PreCheckThreeModesQuadratic')
    ad = [{'l': 2, 'm': 2}, {'l': 1, 'm': 1}, {'l': 1, 'm': 1}]
    fh = Obj(driving_rates=m.arr(g), q_factor=q)
    return C(ad, fh, two_mode_harmonic=two)


def dispatch(m):
    """Every pattern of growth rates, three-mode triads."""
    sg = [m.pick(f's{i}', [1, -1]) for i in range(3)]
    a = [m.real(f'a{i}', lo=Fraction(1, 10), hi=10) for i in range(3)]
    g = [s * x for s, x in zip(sg, a)]
    q = m.real('q', lo=-20, hi=20)
    v = checker(m, g, q, False)._check_linearly_stable_fp()
    chk = checker(m, g, q, False)
    m.true('kind', m.And(bool(chk._check_parametric()) == (sg == [1, -1, -1]), bool(chk._check_direct()) == (sg == [-1, 1, 1]),
                         bool(chk._check_driven()) == (sg == [1, 1, 1])))
    fs = m.entry(CHK, 'check_parametric', 'check_direct', 'check_driven')
    info = {'linear driving rates': m.arr(g)}
    m.true('kind from stored results', m.And(bool(fs[0](info)) == (sg == [1, -1, -1]), bool(fs[1](info)) == (sg == [-1, 1, 1]), bool(fs[2](info)) == (sg == [1, 1, 1])))
    if sg == [1, -1, -1]:
        s = g[0] + g[1] + g[2]
        u = [1, -a[1] / a[0], -a[2] / a[0]]
        m.true('parametric', m.num(v) == m.num(m.And(s < 0, hurwitz(u, q) < 0)))
    else:
        m.true('no stable fixed point', m.num(v) == 0)


def zero_rates(m):
    """A vanishing rate is neither driven nor damped."""
    i = m.pick('i', [0, 1, 2])
    sg = [m.pick(f's{k}', [1, -1]) for k in range(3)]
    g = [s * m.real(f'a{k}', lo=Fraction(1, 10), hi=10) for k, s in enumerate(sg)]
    g[i] = m.real('z', lo=0, hi=0)
    chk = checker(m, g, m.real('q', lo=-20, hi=20), False)
    m.true('kind', m.And(m.num(chk._check_parametric()) == 0, m.num(chk._check_direct()) == 0, m.num(chk._check_driven()) == 0))
    m.true('verdict', m.num(chk._check_linearly_stable_fp()) == 0)


def hyper_flag(m):
    H = m.entry(HYP, 'check_hyperbolicity_of_fp')
    kind = m.pick('kind', ['real', 'pair'])
    if kind == 'real':
        d = [m.real(f'd{i}', lo=-3, hi=3) for i in range(4)]
        J = m.np.diag(m.arr(d)) if not m.sym else m.arr([[d[i] if i == j else 0 for j in range(4)] for i in range(4)])
        ev = d
        want = m.And(*[m.Or(x > 0, x < 0) for x in d])
    else:
        a, b, c, e = m.real('a', lo=-3, hi=3), m.real('b', lo=Fraction(1, 10), hi=3), m.real('c', lo=-3, hi=3), m.real('e', lo=-3, hi=3)
        J = m.arr([[a, b, 0, 0], [-1 * b, a, 0, 0], [0, 0, c, 0], [0, 0, 0, e]])
        want = m.And(m.Or(a > 0, a < 0), m.Or(c > 0, c < 0), m.Or(e > 0, e < 0))
        if m.sym:
            from vlib.sym import SymComplex
            ev = [SymComplex(a, b), SymComplex(a, -1 * b), c, e]
    if m.sym:
        from vlib import npshim
        npshim.EIG_HOOK[:] = [lambda x: m.arr(ev)]
    m.true('hyperbolic', m.num(H(J)) == m.num(want))


def jac_setup(m, n=3):
    """Rates such that the square roots are explicit: |gamma_i / omega_i| = r_i^2."""
    om = [m.real(f'om{i}', lo=Fraction(1, 10), hi=10) for i in range(n)]
    r = [m.real(f'r{i}', lo=Fraction(1, 10), hi=3) for i in range(n)]
    g = [om[0] * r[0] * r[0]] + [-1 * om[i] * r[i] * r[i] for i in range(1, n)]
    q = m.real('q', lo=Fraction(1, 10), hi=10) * m.pick('sq', [1, -1])
    eta = m.real('eta', lo=Fraction(1, 10), hi=10) * m.pick('se', [1, -1])
    f = m.sqrt(1 + q * q) / (2 * eta)
    return om, r, g, q, eta, f


def jac4(m):
    om, r, g, q, eta, f = jac_setup(m)
    J = m.entry(HYP, 'jacobian_in_fp_real_four_ae_system')(m.arr(g), m.arr(om), q, m.pick('list', [False, True]) and [eta] or eta)
    el = lambda i, j: J[i, j]
    S = [f * r[1] * r[2], f * r[0] * r[2], f * r[0] * r[1]]
    G = g[0] + g[1] + g[2]
    m.true('shape', tuple(J.shape) == (4, 4))
    for i in range(3):
        m.eq(f'rate {i + 1}', el(i, i), g[i])
        m.eq(f'd mode {i + 1} / d phase', el(i, 3), q * g[i] * S[i])
        m.eq(f'd phase / d mode {i + 1}', el(3, i) * S[i], q * (G - 2 * g[i]))
        for j in range(3):
            if i != j:
                m.eq(f'size of d mode {i + 1} / d mode {j + 1}', el(i, j) * el(i, j) * r[i] * r[i], g[i] * g[i] * r[j] * r[j])
                m.eq(f'sign of d mode {i + 1} / d mode {j + 1}', el(i, j) * r[i], -1 * g[i] * r[j])
    m.eq('summed rate', el(3, 3), G)


def jac3(m):
    om, r, g, q, eta, f = jac_setup(m, 2)
    g, om = g + [g[1]], om + [om[1]]
    J = m.entry(HYP, 'jacobian_in_fp_real_three_ae_system')(m.arr(g), m.arr(om), q, m.pick('list', [False, True]) and [eta] or eta)
    G = g[0] + 2 * g[1]
    S1, S2 = -1 * f * r[1] * r[1], m.sqrt(2 if not m.sym else m.const(2)) * f * r[0] * r[1]
    m.true('shape', tuple(J.shape) == (3, 3))
    m.eq('rate of the parent', J[0, 0], g[0])
    m.eq('summed rate', J[2, 2], G)
    m.eq('d parent / d phase', J[0, 2], q * g[0] * S1)
    m.eq('d daughter / d phase', J[1, 2], q * g[1] * S2)
    m.eq('d phase / d parent', J[2, 0] * S1, q * (G - 2 * g[0]))
    m.eq('d phase / d daughter', J[2, 1] * S2, 2 * q * g[0])
    m.eq('d daughter / d parent', J[1, 0] * S1, -1 * g[1] * S2)
    m.eq('d parent / d daughter', J[0, 1] * S2, -2 * g[0] * S1)
    m.eq('d daughter / d daughter', J[1, 1], 0)


def cases(tier):
    T = dict(quick=90, thorough=400)[tier]
    return [Case('summed rate', sums, seconds=T, bounds='1..4 rates'),
            Case('three modes, stability condition', three, seconds=T, bounds='rate ratios in [0.01, 20], |q| <= 20'),
            Case('three modes, equivalent condition', three_equiv, seconds=T, bounds='rate ratios in [0.01, 20], |q| <= 20'),
            Case('three modes, published condition', ratio, seconds=T),
            Case('three modes, verdict', dispatch, seconds=T, bounds='all sign patterns'),
            Case('vanishing rate', zero_rates, seconds=T),
            Case('two modes, parametric, weak damping', two_par('theta'), seconds=T),
            Case('two modes, parametric, large detuning', two_par('far'), seconds=T),
            Case('two modes, parametric, small detuning', two_par('near'), seconds=T),
            Case('two modes, parametric, intermediate detuning', two_par('between'), seconds=T),
            Case('two modes, direct', two_dir, seconds=T),
            Case('hyperbolicity flag', hyper_flag, seconds=T, bounds='real-diagonal and one-complex-pair 4x4 matrices'),
            Case('jacobian, four equations', jac4, seconds=T),
            Case('jacobian, three equations', jac3, seconds=T)]
