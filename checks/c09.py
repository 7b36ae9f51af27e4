"""Frequency handling: frames, units, spin, dimensionless, detuning, quality factors."""
from fractions import Fraction

from .common import Case, FH_MOD, freq_array, gyre_dict, star, two_pi

LEVEL = 'model_checking'
ASSUMPTIONS = [
    'exact real arithmetic; constants read to 10 significant digits',
    'input dictionaries carry the keys GYRE writes (freq, freq_units, freq_frame, m, Omega_rot or Omega_rot_dim, G, M_star, R_star)',
    'uninitialised array memory may hold any value',
]
REQ = ['HZ', 'UHZ', 'CYC_PER_DAY', 'CPD', 'RAD_PER_SEC']
GIVEN = [b'HZ', b'UHZ', b'CYC_PER_DAY', b'RAD_PER_SEC', b'NONE']


def from_rps(m, unit, st):
    """Factor from rad/s to the unit."""
    tp = two_pi(m)
    u = unit if isinstance(unit, str) else unit.decode()
    if u == 'NONE':
        return m.sqrt(st[2] * st[2] * st[2] / (st[0] * st[1]))
    return {'HZ': 1 / tp, 'UHZ': 1000000 / tp, 'CYC_PER_DAY': 86400 / tp, 'CPD': 86400 / tp, 'RAD_PER_SEC': 1}[u]


def handler(req, given, frame, dimless_rot, given_nad, frame_nad):
    def f(m):
        FH = m.entry(FH_MOD, 'FrequencyHandler')
        st = star(m)
        G, M, R, Om = st
        tp = two_pi(m)
        n = 3
        w = [m.real(f'w{i}', lo=Fraction(1, 10), hi=20) for i in range(n)]
        wn = [m.real(f'wn{i}', lo=Fraction(1, 10), hi=20) for i in range(n)]
        g = [m.real('g0', gt=0, hi=3), m.real('g1', lo=-3, lt=0), m.real('g2', lo=-3, lt=0)]
        az = [m.integer(f'm{i}', -4, 4) for i in range(n)]
        inert = [w[i] + az[i] * Om for i in range(n)]
        inert_n = [wn[i] + az[i] * Om for i in range(n)]
        # one unit and one frame for all modes, or one for each mode
        each = lambda x: x if isinstance(x, tuple) else (x,) * n     # noqa: E731
        un, unn, fr, frn = each(given), each(given_nad), each(frame), each(frame_nad)
        k, kn, kr = [from_rps(m, u, st) for u in un], [from_rps(m, u, st) for u in unn], from_rps(m, req, st)
        ds = [gyre_dict(m, st, (inert[i] if fr[i] == b'INERTIAL' else w[i]) * k[i], az[i], un[i], fr[i]) for i in range(n)]
        dn = [gyre_dict(m, st, (inert_n[i] if frn[i] == b'INERTIAL' else wn[i]) * kn[i], az[i], unn[i], frn[i], im=g[i] * kn[i]) for i in range(n)]
        if dimless_rot:
            fac = m.sqrt(G * M / (R * R * R))
            for d in ds + dn:
                del d['Omega_rot_dim']
                d['Omega_rot'] = m.arr([Om / fac * 2, Om / fac])
        else:
            for d in ds + dn:
                d['Omega_rot_dim'] = m.arr([Om * 2, Om])
        fh = FH(*ds, my_freq_units=req)
        ang = req == 'RAD_PER_SEC'
        ko = kr if ang else kr * tp         # rad/s -> reported angular frequency
        kf = kr / tp if ang else kr         # rad/s -> reported cyclic frequency
        arr = m.arr
        m.eq('co-rotating angular frequencies', fh.corot_mode_omegas, [x * ko for x in w])
        m.eq('co-rotating frequencies', fh.corot_mode_freqs, [x * kf for x in w])
        m.eq('inertial angular frequencies', fh.inert_mode_omegas, [x * ko for x in inert])
        m.eq('inertial frequencies', fh.inert_mode_freqs, [x * kf for x in inert])
        m.eq('spin', fh.spin_factors, [2 * Om / x for x in w])
        m.eq('rotation frequency', fh.surf_rot_freq, Om * kr)
        m.eq('rotation angular frequency', fh.surf_rot_angular_freq, Om * ko)
        m.eq('rotation frequency, rad/s', fh.surf_rot_angular_freq_rps, Om)
        m.eq('factor from rad/s', fh.angular_conv_factor_from_rps, ko)
        m.true('angular flag', fh.angular == ang)
        dl = m.sqrt(R * R * R / (G * M))
        m.eq('dimensionless co-rotating', fh.dimless_corot_omegas, [x * dl for x in w])
        m.eq('dimensionless inertial', fh.dimless_inert_omegas, [x * dl for x in inert])
        m.eq('dimensionless co-rotating cyclic', fh.dimless_corot_freqs, [x * dl / tp for x in w])
        m.eq('dimensionless inertial cyclic', fh.dimless_inert_freqs, [x * dl / tp for x in inert])
        m.eq('detuning', fh.detuning, (w[0] - w[1] - w[2]) * ko)
        m.eq('detuning array', fh.get_detunings().reshape(-1), [(w[0] - w[1] - w[2]) * ko] * 2)
        for i in range(n):
            m.eq(f'pair f {i + 1}', fh.get_inert_corot_f(i + 1).reshape(-1), [w[i] * kf, inert[i] * kf])
            m.eq(f'pair o {i + 1}', fh.get_inert_corot_o(i + 1).reshape(-1), [w[i] * ko, inert[i] * ko])
            m.eq(f'pair dimless o {i + 1}', fh.get_dimless_omegas(i + 1).reshape(-1), [w[i] * dl, inert[i] * dl])
            m.eq(f'pair dimless f {i + 1}', fh.get_dimless_freqs(i + 1).reshape(-1), [w[i] * dl / tp, inert[i] * dl / tp])
        fh.set_mode_nonadiabatic_info(*dn)
        m.eq('growth rates', fh.driving_rates, [x * ko for x in g])
        m.eq('nad co-rotating angular', fh.corot_mode_omegas_nad, [x * ko for x in wn])
        m.eq('nad co-rotating', fh.corot_mode_freqs_nad, [x * kf for x in wn])
        m.eq('nad inertial angular', fh.inert_mode_omegas_nad, [x * ko for x in inert_n])
        m.eq('nad inertial', fh.inert_mode_freqs_nad, [x * kf for x in inert_n])
        m.eq('nad dimensionless', fh.dimless_corot_omegas_nad, [x * dl for x in wn])
        m.eq('nad dimensionless inertial', fh.dimless_inert_omegas_nad, [x * dl for x in inert_n])
        m.eq('nad dimensionless f', fh.dimless_corot_freqs_nad, [x * dl / tp for x in wn])
        m.eq('nad dimensionless inertial f', fh.dimless_inert_freqs_nad, [x * dl / tp for x in inert_n])
        q = [w[i] / g[i] for i in range(n)]
        qn = [wn[i] / g[i] for i in range(n)]
        m.eq('quality factors', fh.quality_factors, q)
        m.eq('nad quality factors', fh.quality_factors_nad, qn)
        m.eq('products', fh.quality_factor_products, [q[0] * q[1], q[0] * q[2], q[1] * q[2]])
        m.eq('nad products', fh.quality_factor_products_nad, [qn[0] * qn[1], qn[0] * qn[2], qn[1] * qn[2]])
        gs = g[0] + g[1] + g[2]
        m.assume(m.Or(gs > Fraction(1, 100), gs < -Fraction(1, 100)) if m.sym else abs(gs) > 0.009)
        m.eq('sum of rates', fh.gamma_sum, gs * ko)
        m.eq('q', fh.q_factor, (w[0] - w[1] - w[2]) / gs)
        m.eq('q1', fh.q1_factor, (w[0] - w[1] - w[2]) / g[0])
        m.eq('nad detuning', fh.detuning_nad, (wn[0] - wn[1] - wn[2]) * ko)
        m.eq('nad q', fh.q_factor_nad, (wn[0] - wn[1] - wn[2]) / gs)
        m.eq('nad q1', fh.q1_factor_nad, (wn[0] - wn[1] - wn[2]) / g[0])
        for i in range(n):
            m.eq(f'nad pair f {i + 1}', fh.get_inert_corot_f_nad(i + 1).reshape(-1), [wn[i] * kf, inert_n[i] * kf])
            m.eq(f'nad pair o {i + 1}', fh.get_inert_corot_o_nad(i + 1).reshape(-1), [wn[i] * ko, inert_n[i] * ko])
            m.eq(f'nad pair dimless o {i + 1}', fh.get_dimless_omegas_nad(i + 1).reshape(-1), [wn[i] * dl, inert_n[i] * dl])
            m.eq(f'nad pair dimless f {i + 1}', fh.get_dimless_freqs_nad(i + 1).reshape(-1), [wn[i] * dl / tp, inert_n[i] * dl / tp])
        # the adiabatic results are not disturbed by the non-adiabatic input
        m.eq('co-rotating angular frequencies again', fh.corot_mode_omegas, [x * ko for x in w])
        m.eq('detuning again', fh.detuning, (w[0] - w[1] - w[2]) * ko)
    return f


def cases(tier):
    cs = []
    combos = []
    for i, req in enumerate(REQ):
        for j, fr_ in enumerate((b'INERTIAL', b'COROT')):
            gs = GIVEN if tier == 'thorough' else [GIVEN[(i + 2 * j) % 5], GIVEN[(i + 2 * j + 3) % 5]]
            for t, g in enumerate(gs):
                combos.append((req, g, fr_, bool((i + j + t) % 2), GIVEN[(i + j + t) % 5] if (i + t) % 3 else g, (b'COROT', b'INERTIAL')[(i + j + t) % 2]))
    if tier == 'thorough':
        combos += [(r, g, f, True, g2, f2) for r in ('HZ', 'RAD_PER_SEC') for g in GIVEN[:3] for f in (b'INERTIAL', b'COROT') for g2 in GIVEN[2:] for f2 in (b'INERTIAL', b'COROT')]
    I, C = b'INERTIAL', b'COROT'
    for i, req in enumerate(REQ):
        a, b, c = GIVEN[i % 5], GIVEN[(i + 1) % 5], GIVEN[(i + 3) % 5]
        for j in range(3):
            mix, mixf = (a, b, c)[j:] + (a, b, c)[:j], (I, C, C)[j:] + (I, C, C)[:j]
            combos.append((req, mix, mixf, bool(j % 2), (b, a, c), (C, C, I)))     # all modes differ
            one = [a, a, a]
            one[j] = b
            combos.append((req, a, (I, C)[j % 2], bool(j % 2), tuple(one), (C, I)[j % 2]))     # one mode of the non-adiabatic input differs
            combos.append((req, tuple(one), C, False, a, mixf))
    name = lambda x: x.decode() if isinstance(x, bytes) else '/'.join(y.decode() for y in x)     # noqa: E731
    for c in dict.fromkeys(combos):
        cs.append(Case('requested {} given {} {}{} nad {} {}'.format(c[0], name(c[1]), name(c[2]), ' dimensionless rotation' if c[3] else '', name(c[4]), name(c[5])),
                       handler(*c), bounds='3 modes, m in -4..4, all real frequencies/rates/stellar parameters in the stated boxes', seconds=100))
    return cs
