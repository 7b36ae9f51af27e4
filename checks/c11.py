"""Stationary three-mode solution: fixed point of the amplitude equations."""
from fractions import Fraction

from .common import Case, FH_MOD, HarnessGap, Obj, gyre_dict, star, two_pi

LEVEL = 'model_checking'
ASSUMPTIONS = [
    'exact real arithmetic (rounding is outside the claim); constants read to 10 significant digits',
    'parametric resonance: parent excited, daughters damped, summed growth rate negative, co-rotating frequencies positive',
    'a spline is linear in the values it passes through (its weights are left open; the interpolation itself is trusted)',
]


def build(m, frame, units, nadunits):
    FH = m.entry(FH_MOD, 'FrequencyHandler')
    st = star(m)
    g, w, mm = [], [], []
    for i in (1, 2, 3):
        w.append(m.real(f'w{i}', lo=Fraction(1, 10), hi=50))
        mm.append(m.integer(f'm{i}', -3, 3))
    g = [m.real('g1', gt=0, hi=5), m.real('g2', lo=-5, lt=0), m.real('g3', lo=-5, lt=0)]
    # w is the co-rotating frequency; the input is what GYRE would report for it
    wi = [w[i] + mm[i] * st[3] if frame == b'INERTIAL' else w[i] for i in range(3)]
    k = {b'RAD_PER_SEC': 1, b'HZ': 1 / two_pi(m), b'UHZ': 1000000 / two_pi(m), b'CYC_PER_DAY': 86400 / two_pi(m),
         b'NONE': None}[units]
    if k is None:
        k = m.sqrt(st[2] * st[2] * st[2] / (st[0] * st[1]))
    ds = [gyre_dict(m, st, wi[i] * k, mm[i], units, frame) for i in range(3)]
    dn = [gyre_dict(m, st, wi[i] * k, mm[i], units, frame, im=g[i] * k) for i in range(3)]
    fh = FH(*ds, my_freq_units='RAD_PER_SEC')
    fh.set_mode_nonadiabatic_info(*dn)
    return fh


def stubs(mode):
    if mode != 'sym':
        return {}
    import types
    s = types.ModuleType('scipy.interpolate')
    s.splrep = lambda *a, **k: None

    def splev(*a, **k):
        raise HarnessGap('spline evaluation requested')
    s.splev = splev
    return {'scipy.interpolate': s}


def fixed_point(units, frame):
    def f(m):
        fh = build(m, frame, units, units)
        w, g = fh.corot_mode_omegas, fh.driving_rates
        for i in range(3):
            m.assume(w[i] > (0 if m.sym else 1e-3))
        m.assume(g.sum() < 0)
        m.assume(m.Or(fh.detuning > Fraction(1, 1000), fh.detuning < -Fraction(1, 1000)) if m.sym else abs(fh.detuning) > 1e-4)
        S = m.entry('aesolver.stationary_solving.three_mode.three_mode_stationary', 'ThreeModeStationary')
        eta = m.real('eta', lo=Fraction(1, 10), hi=10)
        sgn = m.pick('sgn', [1, -1])
        n = 5
        mu = m.np.linspace(-1., 1., n)
        coup = Obj(eta_lee_coupling_coefficient=sgn * eta, _mu_values=mu,
                   _hr_mode_1=mu * 1., _hr_mode_2=mu * 2., _hr_mode_3=mu * mu,
                   _m_mode_1=1, _m_mode_2=1, _m_mode_3=0)
        sl, sx, tk, ek = m.reals('sl', 3), m.reals('sx', 3), m.reals('tk', 3), m.reals('ek', 3)
        sol = Obj(_coupler=coup, _lag_var_surf_lum=sl, _xir_terms_norm=sx,
                  _tk_disc_integrals=tk, _ek_disc_integrals=ek, _freq_handler=fh)
        r = S(precheck_satisfied=True, freq_handler=fh, hyperbolic=True, solver_object=sol)()
        a = r['equilibrium amplitudes']
        G = g.sum()
        det = w[0] - w[1] - w[2]
        q = det / G
        m.eq('detuning', r['detunings'], det)
        m.eq('q factor', r['q factor'], q)
        m.eq('gamma', r['gamma'], G)
        m.eq('critical q', r['critical q factor'], det / (g[1] + g[2]))
        m.eq('driving rates', r['linear driving rates'], g)
        # amplitude balance: (gamma_i a_i)^2 = (2 eta omega_i a_j a_k)^2 sin^2(phase)
        s2 = 1 / (1 + q * q)
        a2 = [x * x for x in a]
        # the squared amplitudes solve the three balance equations
        Q = [w[i] / g[i] for i in range(3)]
        e4 = 4 * eta * eta * s2
        m.eq('parent amplitude', a2[0] * (e4 * Q[1] * Q[2]), 1)
        m.eq('daughter 2 amplitude', a2[1] * (e4 * Q[0] * Q[2]), -1)
        m.eq('daughter 3 amplitude', a2[2] * (e4 * Q[0] * Q[1]), -1)
        for i in range(3):
            j, k = [x for x in range(3) if x != i]
            m.eq(f'balance of mode {i + 1}', a2[i] * g[i] * g[i], e4 * w[i] * w[i] * a2[j] * a2[k])
            m.true(f'amplitude {i + 1} is not negative', a[i] >= 0)
        m.eq('energy exchange 1-2', a2[0] * w[1] * g[0], -1 * a2[1] * w[0] * g[1])
        m.eq('energy exchange 1-3', a2[0] * w[2] * g[0], -1 * a2[2] * w[0] * g[2])
        # threshold of the parametric resonance
        ac = r['critical parent amplitude']
        qc = det / (g[1] + g[2])
        m.eq('critical amplitude', ac * ac * 4 * eta * eta * w[1] * w[2], (1 + qc * qc) * g[1] * g[2])
        m.true('critical amplitude is not negative', ac >= 0)
        m.eq('phase', r['stationary relative phase'], m.fn('arctan', -1 / q))
        fl = r['surface flux variations']
        for i in range(3):
            m.eq(f'flux {i + 1}', fl[i], a[i] * m.absv(tk[i] * sl[i] - ek[i] * sx[i]))
        m.eq('no phase offset of the light curve', r['stationary relative luminosity phase'], m.fn('arctan', -1 / q))
        m.true('flags', m.And(r['linearly stable'] is True, r['hyperbolic'] is True))
    return f


def azimuth(m):
    """Argument of periastron shifts the light-curve phase by (m1-m2-m3) times the azimuth."""
    fh = build(m, b'COROT', b'RAD_PER_SEC', b'RAD_PER_SEC')
    w, g = fh.corot_mode_omegas, fh.driving_rates
    m.assume(g.sum() < 0)
    m.assume(m.Or(fh.detuning > Fraction(1, 1000), fh.detuning < -Fraction(1, 1000)) if m.sym else abs(fh.detuning) > 1e-4)
    S = m.entry('aesolver.stationary_solving.three_mode.three_mode_stationary', 'ThreeModeStationary')
    mu = m.np.linspace(-1., 1., 5)
    p = [m.integer(f'az{i}', -4, 4) for i in range(3)]
    coup = Obj(eta_lee_coupling_coefficient=m.real('eta', lo=Fraction(1, 10), hi=10), _mu_values=mu,
               _hr_mode_1=mu * 1., _hr_mode_2=mu * 2., _hr_mode_3=mu * mu,
               _m_mode_1=p[0], _m_mode_2=p[1], _m_mode_3=p[2])
    o = m.np.ones(3)
    sol = Obj(_coupler=coup, _lag_var_surf_lum=o, _xir_terms_norm=o, _tk_disc_integrals=o * 2., _ek_disc_integrals=o, _freq_handler=fh)
    per = m.real('per', lo=Fraction(-1), hi=Fraction(3, 2))
    r = S(precheck_satisfied=True, freq_handler=fh, hyperbolic=False, solver_object=sol, periastron_arg=per)()
    pi = two_pi(m) / 2
    az = pi / 2 - per       # in [0, 2 pi)
    m.eq('light-curve phase', r['stationary relative luminosity phase'], m.fn('arctan', -1 / r['q factor']) + (p[0] - p[1] - p[2]) * az)
    m.true('flag', r['hyperbolic'] is False)


def unstable(m):
    """No amplitudes are reported when the pre-checks fail."""
    fh = build(m, b'INERTIAL', b'HZ', b'HZ')
    m.assume(m.Or(fh.gamma_sum > Fraction(1, 1000), fh.gamma_sum < -Fraction(1, 1000)) if m.sym else abs(fh.gamma_sum) > 1e-4)
    S = m.entry('aesolver.stationary_solving.three_mode.three_mode_stationary', 'ThreeModeStationary')
    sol = m.pick('with_solver', [None, Obj(_coupler=None)])
    r = S(precheck_satisfied=False, freq_handler=fh, hyperbolic=False, solver_object=sol)()
    m.eq('no amplitudes', r['equilibrium amplitudes'], m.np.zeros(3))
    m.eq('no flux', r['surface flux variations'], m.np.zeros(3))
    m.eq('detuning', r['detunings'], fh.detuning)
    m.eq('q', r['q factor'], fh.detuning / fh.gamma_sum)
    m.true('flags', m.And(r['linearly stable'] is False, r['critical parent amplitude'] is None))


def spline_stubs(mode):
    """A spline is linear in the values it goes through; its weights at a point are left open."""
    if mode != 'sym':
        return {}
    import types
    from vlib import sym as S
    s = types.ModuleType('scipy.interpolate')

    def splrep(x, y, *a, **k):
        if a or k:
            raise HarnessGap('options of a spline')
        return [v for v in x], [v for v in y]

    def splev(x, tck, *a, **k):
        if a or k:
            raise HarnessGap('options of a spline')
        key = '_'.join(str(v) for v in tck[0])
        return sum((S.uf(f'weight {i} of a spline through {key}', x) * v for i, v in enumerate(tck[1])))
    s.splrep, s.splev = splrep, splev
    return {'scipy.interpolate': s}


def observer(m):
    """Light variations are those seen at the inclination of the spin axis, and complex factors count by their size."""
    fh = build(m, b'COROT', b'RAD_PER_SEC', b'RAD_PER_SEC')
    g = fh.driving_rates
    m.assume(g.sum() < 0)
    m.assume(m.Or(fh.detuning > Fraction(1, 1000), fh.detuning < -Fraction(1, 1000)) if m.sym else abs(fh.detuning) > 1e-4)
    S = m.entry('aesolver.stationary_solving.three_mode.three_mode_stationary', 'ThreeModeStationary')
    n = 6
    mu = m.np.array([m.const(Fraction(2 * i - n + 1, n - 1)) for i in range(n)])
    H = [[m.real(f'h{k}_{i}', lo=-3, hi=3) for i in range(n)] for k in range(3)]
    coup = Obj(eta_lee_coupling_coefficient=m.real('eta', lo=Fraction(1, 10), hi=10), _mu_values=mu,
               **{f'_hr_mode_{k + 1}': m.arr(H[k], (n,)) for k in range(3)}, _m_mode_1=2, _m_mode_2=1, _m_mode_3=1)
    tk, ek, sx = m.reals('tk', 3, lo=-3, hi=3), m.reals('ek', 3, lo=-3, hi=3), m.reals('sx', 3, lo=-3, hi=3)
    wave = m.pick('complex luminosities', [False, True])
    sl = m.arr([m.cplx(f'sl{i}') if wave else m.real(f'sl{i}', lo=-3, hi=3) for i in range(3)], (3,))
    inc = m.pick('inclination', [None, m.real('inc', lo=0, hi=Fraction(3, 2))])
    sol = Obj(_coupler=coup, _lag_var_surf_lum=sl, _xir_terms_norm=sx, _tk_disc_integrals=tk, _ek_disc_integrals=ek, _freq_handler=fh)
    r = S(precheck_satisfied=True, freq_handler=fh, hyperbolic=True, solver_object=sol, spin_inclination=inc)()
    a, f = r['equilibrium amplitudes'], r['surface flux variations']
    for k in range(3):
        if inc is None:
            h = 1
        elif m.sym:
            import vlib.sym as Y
            c = m.np.cos(inc)
            key = '_'.join(str(v) for v in mu)
            h = sum((Y.uf(f'weight {i} of a spline through {key}', c) * H[k][i] for i in range(n)), m.const(0))
        else:
            from scipy.interpolate import CubicSpline
            import math
            h = float(CubicSpline([float(x) for x in mu], [float(x) for x in H[k]], bc_type='not-a-knot')(math.cos(inc)))
        z = tk[k] * sl[k] - ek[k] * sx[k]
        size = m.sqrt(z.real * z.real + z.imag * z.imag) if wave else m.absv(z)
        m.eq(f'light variation {k + 1}', f[k], a[k] * size * h)


def cases(tier):
    cs = [Case('fixed point, rad/s, co-rotating input', fixed_point(b'RAD_PER_SEC', b'COROT'), stubs, bounds='all real inputs in the stated box'),
          Case('fixed point, rad/s, inertial input', fixed_point(b'RAD_PER_SEC', b'INERTIAL'), stubs, bounds='m in -3..3'),
          Case('argument of periastron', azimuth, stubs, bounds='m in -4..4'),
          Case('inclined observer', observer, spline_stubs, bounds='6 latitudes; any values of the Hough functions there; any inclination or none'),
          Case('failed pre-check', unstable, stubs)]
    if tier == 'thorough':
        cs += [Case(f'fixed point, {u.decode()}, {f.decode()}', fixed_point(u, f), stubs, seconds=300)
               for u in (b'HZ', b'UHZ', b'CYC_PER_DAY', b'NONE') for f in (b'COROT', b'INERTIAL')]
    return cs
