"""Normalisation of angular and radial functions."""
from fractions import Fraction

from . import quad
from .common import Case, Obj, two_pi

LEVEL = 'model_checking'
NOTE = 'The compiled integrator is replaced by the composite rules that C01 decides for it. Trusts the symbolic interpreter in vlib; rounding is outside the claims.'
ASSUMPTIONS = ['mode energies are positive (the normalisation takes a square root)', 'real eigenfunctions',
               'the energy oracle is b = 2 omega <xi,xi> + <xi, 2 i Omega x xi> with the azimuthal function of the definition that the program requests']
QC = 'aesolver.coupling_coefficients.quadratic_coupling_coefficient_rotating'
EN = 'aesolver.coupling_coefficients.enumeration_files.enumerated_quadratic_coupling'
RADIAL = ['_z_1', '_z_2', '_x_z_1', '_z_2_over_c_1_omega', '_x_z_2_over_c_1_omega', '_rad_der_x_z_1', '_rad_der_x_z_2_c_1_omega', '_rad_diverg']


def hough(conv):
    def f(m):
        N = m.entry('hough_function.hough_normalizer', 'HoughNormalizer')
        n = m.pick('n', [1, 2, 3, 4] if conv == 'prat2019' else [2, 3, 4, 5])
        mu = m.increasing('mu', n, lo=-1, hi=1)
        hr = list(m.reals('hr', n, lo=-9, hi=9))
        name = m.pick('spelling', [conv, conv.upper()])
        if conv == 'lee2012':
            tot = two_pi(m) * quad.trapezoid([h * h for h in hr], list(mu))
            m.assume(tot > (Fraction(1, 1000) if m.sym else 1e-3))
            k = N.get_norm_factor(name, m.arr(list(mu)), m.arr(hr), 2, False)
            m.eq('unit norm', k * k * tot, 1)
        else:
            big = m.absv(hr[0])
            for h in hr[1:]:
                big = m.maximum(big, m.absv(h))
            m.assume(big > (Fraction(1, 1000) if m.sym else 1e-3))
            k = N.get_norm_factor(name, m.arr(list(mu)), m.arr(hr), 2, False)
            m.eq('unit maximum', k * big, 1)
        m.true('sign kept', k > 0)
    return f


def unknown(m):
    N = m.entry('hough_function.hough_normalizer', 'HoughNormalizer')
    try:
        N.get_norm_factor(m.pick('name', ['lee', '', 'townsend', 'get_norm_factor']), m.np.linspace(-.5, .5, 3), m.np.ones(3))
        ok = False
    except SystemExit:
        ok = True
    m.true('unknown convention is refused', ok)


def all_hough(m):
    """Every angular function of a mode is scaled by the same factor."""
    Q = m.entry(QC, 'QuadraticCouplingCoefficientRotating')
    names = m.entry('aesolver.angular_integration.rotating_tar_angular.hough_function_handler', 'HoughFunctionHandler').get_functional_names()
    m.true('names', sorted(names) == sorted(['hr', 'ht', 'hp', 'theta_der_hr', 'theta_der_ht', 'theta_der_hp', 'theta_phi', 'phi_phi', 'mhr', 'theta_der2_hr',
                                            'theta_der_hr_theta', 'theta_der2_hr_theta', 'theta_der_ht_theta', 'theta_der_hp_theta']))
    o = Q.__new__(Q)
    mu = m.increasing('mu', 2, lo=-1, hi=1)
    o._mu_values, o._omp_threads, o._use_parallel, o._store_debug = m.arr(list(mu)), 2, False, False
    before = {}
    for i in (1, 2, 3):
        for k, nm in enumerate(names):
            v = list(m.reals(f'v{i}{k}', 2, lo=-3, hi=3))
            before[i, nm] = v
            setattr(o, f'_{nm}_mode_{i}', m.arr(v))
    fac = []
    for i in (1, 2, 3):
        tot = two_pi(m) * quad.trapezoid([h * h for h in before[i, 'hr']], list(mu))
        m.assume(tot > (Fraction(1, 1000) if m.sym else 1e-3))
        fac.append(1 / m.sqrt(tot))
    o._normalize_houghs()
    for i in (1, 2, 3):
        for nm in names:
            m.eq(f'scaled {nm}', list(getattr(o, f'_{nm}_mode_{i}')), [fac[i - 1] * x for x in before[i, nm]])


def coupler(m, nr, nm, modes, poly, extra=True):
    """A coupling object with arbitrary functions for the first modes."""
    Q = m.entry(QC, 'QuadraticCouplingCoefficientRotating')
    o = Q.__new__(Q)
    names = RADIAL + ([] if poly else ['_lag_L_dim'])
    d = dict(x=list(m.increasing('x', nr, lo=0, hi=1)), rho=list(m.reals('rho', nr, lo=Fraction(1, 10), hi=1)), mu=list(m.increasing('mu', nm, lo=-1, hi=1)))
    for n in ('G', 'M', 'R', 'norm_rho'):
        d[n] = m.real(n, lo=Fraction(1, 10), hi=10)
    d['Om'] = m.real('Om', lo=-2, hi=2)
    d['w'] = list(m.reals('w', 3, lo=Fraction(1, 10), hi=10))
    o._x, o._rho_normed, o._mu_values = m.arr(d['x']), m.arr(d['rho']), m.arr(d['mu'])
    o._G, o._M_star, o._R_star, o._norm_rho = d['G'], d['M'], d['R'], d['norm_rho']
    o._omp_threads, o._use_parallel, o._numerical_integration_method = 2, False, 'trapz'
    o._use_cheby, o._cheby_order_mul, o._cheby_blow_up, o._cheby_blow_up_fac = False, 4, False, 1e3
    o._use_polytropic, o._store_debug, o._use_complex = poly, False, False
    o._radint = o._compute_radial_integral_real
    o._freq_handler = Obj(surf_rot_angular_freq=d['Om'], corot_mode_omegas=m.arr(d['w']))
    for i in modes:
        for k, n in enumerate(names):
            d[n, i] = list(m.reals(f'r{k}_{i}', nr, lo=-3, hi=3)) if extra or n in ('_x_z_1', '_x_z_2_over_c_1_omega') else [Fraction(k, 7) if m.sym else k / 7] * nr
            setattr(o, f'{n}_mode_{i}', m.arr(d[n, i]))
        for n in ('hr', 'ht', 'hp'):
            d[n, i] = list(m.reals(f'{n}_{i}', nm, lo=-3, hi=3))
            setattr(o, f'_{n}_mode_{i}', m.arr(d[n, i]))
    return o, d, names


def norms(m, d, i):
    x, mu, rho = d['x'], d['mu'], d['rho']
    z1, z2 = d['_x_z_1', i], d['_x_z_2_over_c_1_omega', i]
    rad = lambda f: quad.trapezoid([rho[k] * x[k] ** 2 * f[k] for k in range(len(x))], x)
    ang = lambda f: two_pi(m) * quad.trapezoid(f, mu)
    hr, ht, hp = (d[n, i] for n in ('hr', 'ht', 'hp'))
    R2 = rad([a * a for a in z2])
    T = rad([a * a for a in z1]) * ang([a * a for a in hr]) + R2 * (ang([a * a for a in ht]) + ang([a * a for a in hp]))
    C = R2 * ang([u * a * b for u, a, b in zip(mu, ht, hp)])
    b = (2 * d['w'][i - 1] * T - 4 * d['Om'] * C) * d['norm_rho'] * d['R'] ** 5
    return T, b, d['w'][i - 1] * b


def energy(nr, nm):
    def f(m):
        i = m.pick('mode', [1, 2, 3])
        o, d, names = coupler(m, nr, nm, (i,), m.pick('polytrope', [False, True]), extra=False)
        o.compute_b_a_mode_energy(i)
        T, b, e = norms(m, d, i)
        m.eq('displacement norm', getattr(o, f'_classic_norm_mode_{i}'), T)
        m.eq('b', getattr(o, f'_b_a_mode_{i}'), b)
        m.eq('energy', getattr(o, f'_energy_mode_{i}'), e)
    return f


def radial(conv):
    def f(m):
        poly = m.pick('polytrope', [False, True])
        m.cancel_branches()
        it = m.pick('iterate', [False, True])
        enum = m.entry(EN, 'EnumRadialPoly' if poly else 'EnumRadial')
        m.true('enumerated functions', sorted(enum.access_all_parameters()) == sorted(RADIAL + ([] if poly else ['_lag_L_dim'])))
        N = m.entry('gyre_eigen_norm.gyre_eigen_norm', 'GYREEigenFunctionNormalizer')
        nmod = m.pick('modes', [1, 3])
        o, d, names = coupler(m, 2, 2, range(1, nmod + 1), poly, extra=nmod == 1)
        fac = []
        for i in range(1, nmod + 1):
            T, b, e = norms(m, d, i)
            q, want = (e, d['G'] * d['M'] ** 2 / d['R']) if conv == 'lee2012' else (T, d['M'] * d['R'] ** 2)
            m.assume(q > (Fraction(1, 1000) if m.sym else 1e-3))
            fac.append(m.sqrt(want / q))
            o.compute_b_a_mode_energy(i)
        g = N(my_obj=o, coupler_enumeration=enum, norm_convention=conv, nr_modes=nmod, iterative_process=it, max_iterations=3)
        g()
        for i in range(1, nmod + 1):
            k = fac[i - 1]
            m.eq('factor', g.normalizing_factors[i - 1], k)
            for n in names:
                m.eq(f'scaled {n}', list(getattr(o, f'{n}_mode_{i}')), [k * v for v in d[n, i]])
            for n in ('hr', 'ht', 'hp'):
                m.eq('angular functions untouched', list(getattr(o, f'_{n}_mode_{i}')), d[n, i])
            if conv == 'lee2012':
                m.eq('energy of the normalised mode', getattr(o, f'_energy_mode_{i}'), d['G'] * d['M'] ** 2 / d['R'])
            else:
                m.eq('norm of the normalised mode', getattr(o, f'_classic_norm_mode_{i}'), d['M'] * d['R'] ** 2)
        again = N(my_obj=o, coupler_enumeration=enum, norm_convention=conv, nr_modes=nmod, iterative_process=it, max_iterations=3)
        again()
        for i in range(1, nmod + 1):
            m.eq('normalising again changes nothing', again.normalizing_factors[i - 1], 1)
    return f


class Refined:
    """A mode whose energy is known only approximately after the first scaling."""

    def compute_b_a_mode_energy(self, i):
        self.calls[i] += 1
        f = self.f[i][min(self.calls[i], len(self.f[i]) - 1)]
        q = self.want if f == 1 and not self.m.sym else self.want / (f * f)
        setattr(self, f'{self.attr}_mode_{i}', q)


PATTERNS = ['exact', 'off', 'off twice', 'off three times', 'always off']


def refinement(conv):
    def f(m):
        m.cancel_branches()
        nmod = m.pick('modes', [1, 2, 3])
        it = m.pick('iterate', [False, True])
        N = m.entry('gyre_eigen_norm.gyre_eigen_norm', 'GYREEigenFunctionNormalizer')
        o = Refined()
        o.m, o.calls, o.f = m, {i: 0 for i in range(1, nmod + 1)}, {}
        F = Fraction if m.sym else (lambda a, b: a / b)
        one = m.arr([m.const(1) if m.sym else 1.0])[0]
        o._G, o._M_star, o._R_star = (m.real(k, lo=Fraction(1, 10), hi=10) * one for k in 'GMR')
        o.want = o._G if conv == 'lee2012' else o._M_star * o._R_star ** 2
        if conv == 'lee2012':               # general mass and radius: the case of the radial norm
            o._M_star, o._R_star = 2 * one, 3 * one
            o._G = o.want * 3 / 4
        o.attr = '_energy' if conv == 'lee2012' else '_classic_norm'
        enum = Obj(access_all_parameters=lambda: ['_a', '_b'])
        d, want = {}, {}
        for i in range(1, nmod + 1):
            p = m.pick(f'accuracy{i}', PATTERNS) if i == 1 else PATTERNS[(i + m.pick('others', [0, 1, 2]) * 2) % 5] if i == 2 else 'off'
            k = PATTERNS.index(p)
            fs = [m.real(f'f{i}{j}', lo=Fraction(11, 10), hi=2) for j in range(k + 1)]
            if m.sym:
                for x in fs:
                    m.known_root(x, 2)
            o.f[i] = fs + ([1] if k < 4 else [])
            setattr(o, f'{o.attr}_mode_{i}', o.want / (fs[0] * fs[0]))
            want[i] = fs[0]
            if it:
                for x in fs[1:4]:
                    want[i] = want[i] * x
            for a in '_a', '_b':
                d[a, i] = [m.real(f'{a}{i}{j}', lo=-5, hi=5) for j in range(2)]
                setattr(o, f'{a}_mode_{i}', m.arr(d[a, i]))
        g = N(my_obj=o, coupler_enumeration=enum, norm_convention=conv, nr_modes=nmod, iterative_process=it, max_iterations=3)
        g()
        for i in range(1, nmod + 1):
            m.eq('factor', g.normalizing_factors[i - 1], want[i])
            for a in '_a', '_b':
                m.eq('functions', list(getattr(o, f'{a}_mode_{i}')), [want[i] * v for v in d[a, i]])
    return f


def ratios(m):
    """Normalised coupling coefficients."""
    Q = m.entry(QC, 'QuadraticCouplingCoefficientRotating')
    o = Q.__new__(Q)
    k, e = m.real('kappa', lo=-9, hi=9), m.real('energy', lo=Fraction(1, 10), hi=10)
    prof = [list(m.reals(f'p{i}', 3, lo=-9, hi=9)) for i in range(5)]
    o._coupling_coefficient, o._energy_mode_1, o._coupling_coefficient_integrated = k, e, m.arr(prof[0])
    for i in range(1, 5):
        setattr(o, f'_cc_term_{i}_integrated', m.arr(prof[i]))
    m.eq('normalised', o.normed_coupling_coefficient, k / e)
    m.eq('of Lee (2012)', o.eta_lee_coupling_coefficient, 2 * k / e)
    m.eq('profile', list(o.normed_coupling_coefficient_profile), [v / e for v in prof[0]])
    for i in range(1, 5):
        m.eq('contributions', list(o.normed_contributions_coupling_coefficient_profile[i - 1]), [v / e for v in prof[i]])
    o._coupling_coefficient = o._coupling_coefficient_integrated = None
    m.true('nothing before the computation', o.normed_coupling_coefficient is None and o.eta_lee_coupling_coefficient is None
           and o.normed_coupling_coefficient_profile is None and o.normed_contributions_coupling_coefficient_profile is None)


def cases(tier):
    st = quad.stubs
    big = tier != 'quick'
    return [Case('angular norm, lee2012', hough('lee2012'), st, bounds='2 to 5 samples, any spacing'),
            Case('angular norm, prat2019', hough('prat2019'), st, bounds='1 to 4 samples'),
            Case('unknown convention', unknown, st),
            Case('angular functions', all_hough, st, bounds='2 samples, 14 functions, 3 modes'),
            Case('energy', energy(3, 3), st, seconds=300, bounds='3 radial and 3 angular samples'),
            Case('radial norm, lee2012', radial('lee2012'), st, seconds=400, bounds='2 radial and 2 angular samples; 1 or 3 modes'),
            Case('radial norm, schenk2002', radial('schenk2002'), st, seconds=400, bounds='2 radial and 2 angular samples; 1 or 3 modes'),
            *[Case(f'refinement, {c}', refinement(c), st, seconds=200, bounds='1 to 3 modes, up to 3 refinements') for c in ('lee2012', 'schenk2002')],
            Case('normalised coefficients', ratios, st, bounds='3 samples'),
            ] + ([Case('energy, five samples', energy(5, 5), st, seconds=600, bounds='5 radial and 5 angular samples')] if big else [])
