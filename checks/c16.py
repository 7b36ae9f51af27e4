"""Stellar-structure profiles used for the coupling coefficients."""
import math
from fractions import Fraction

from . import quad
from .common import Case, Obj, two_pi

LEVEL = 'model_checking'
NOTE = ('The whole constructor of the coupling coefficient runs, up to the angular functions and the normalisation (C18, C19, C20); numerical derivatives are a stand-in (second-order differences; C05 decides the real one).'
        ' Trusts the symbolic interpreter in vlib; rounding is outside the claims.')
ASSUMPTIONS = ['real eigenfunctions', 'the structure coefficients U and c_1 of the input model are consistent with its density and mass', 'the first and last radial points (centre and surface) are cut, as the program does']
MOD = 'aesolver.coupling_coefficients.quadratic_coupling_coefficient_rotating'
SUP = 'aesolver.coupling_coefficients.coefficient_support_classes.super_coupling_coefficients'
CCR = 'aesolver.coupling_coefficients.coefficient_support_classes.coupling_coefficient_rotating'
LOAD = 'aesolver.model_handling.load_models'
GRID = {4: [0, 1, 2, 3], 5: [0, 1, 2, 3, 4], 6: [0, 1, 3, 4, 5, 6], 7: [0, 2, 3, 5, 6, 7, 9]}


def grid(m, n):
    g = GRID[n]
    return [Fraction(k, g[-1]) if m.sym else k / g[-1] for k in g]


def interp(x, xs, f):
    """Linear interpolation on concrete grids."""
    out = []
    for v in x:
        for i in range(1, len(xs)):
            if v <= xs[i]:
                out.append(f[i - 1] + (f[i] - f[i - 1]) * (v - xs[i - 1]) / (xs[i] - xs[i - 1]))
                break
    return out


class Done(Exception):
    pass


class Star:
    pass


def differentiator(m, log):
    class ND:
        def __init__(self, order_derivative=1, differentiation_method='gradient', **k):
            log.append((order_derivative, differentiation_method))

        def differentiate(self, x, y, **k):
            out = [y, m.np.gradient(y, x)]
            return out, 'derivatives'
    return ND


def der(m, x, y):
    return list(m.np.gradient(m.arr(y), m.arr(x)))


def coupler(m, lens, nprof, poly=False, analytic=False, symbolic=True, method='gradient', brunt=True, l=(2, 2, 2), mesa_extra=(), same=True, wave=False, cc=False):
    """The real constructor; lens: radial points of the three modes, nprof: of the structure file."""
    K = m.entry(MOD, 'QuadraticCouplingCoefficientRotating')
    S = Star()
    pos = dict(lo=Fraction(1, 10), hi=10)
    S.G, S.M, S.R = m.real('G', **pos), m.real('M', **pos), m.real('R', **pos)
    S.om = list(m.reals('omega', 3, lo=Fraction(1, 10), hi=3))
    S.lam = list(m.reals('lambda', 3, lo=Fraction(1, 10), hi=9))
    S.l = l
    pi4 = 2 * two_pi(m)
    n1 = lens[0]
    x1 = grid(m, n1)
    S.x1, S.n1 = x1, n1
    one = m.const(1) if m.sym else 1.
    rho = list(m.increasing('rho', n1, lo=Fraction(1, 10), hi=5))[::-1]
    P = list(m.increasing('P', n1, lo=Fraction(1, 10), hi=5))[::-1]
    mf = list(m.reals('q', n1, lo=Fraction(1, 10), hi=1))
    g1 = list(m.reals('Gamma', n1, lo=1, hi=2))
    V2, As = list(m.reals('V', n1, lo=Fraction(1, 10), hi=9)), list(m.reals('As', n1, lo=-5, hi=5))
    c1 = [x1[i] ** 3 / mf[i] if i else one for i in range(n1)]
    U = [pi4 * rho[i] * x1[i] ** 3 * S.R ** 3 / (S.M * mf[i]) if i else 3 * one for i in range(n1)]
    prof = dict(rho=rho, P=P, M_r=[S.M * v for v in mf], Gamma_1=g1, V_2=V2, As=As, c_1=c1, U=U)
    S.y = {}
    dicts = []
    for k in range(3):
        nk = lens[k]
        d = dict(n=nk, x=m.arr(grid(m, nk)), G=S.G, M_star=S.M, R_star=S.R, l=l[k], m=0)
        d['lambda'] = m.arr([S.lam[k]] * 2)
        num = (lambda n: [m.cplx(f'{n}_{k}_{i}', lo=-3, hi=3) for i in range(nk)]) if wave else lambda n: list(m.reals(f'{n}_{k}_', nk, lo=-3, hi=3))
        for y in ('y_1', 'y_2'):
            S.y[y, k] = num(y)
            d[y] = m.arr(S.y[y, k])
        for y in ('xi_r', 'xi_h', 'eul_phi', 'deul_phi', 'lag_L'):
            S.y[y, k] = num(y)
            d[y] = m.structured(re=[v.real for v in S.y[y, k]], im=[v.imag for v in S.y[y, k]]) if wave else m.arr(S.y[y, k])
        d['lag_L_dim'] = m.arr(S.y['lag_L', k])
        if poly:
            d['Gamma_1'] = m.arr(g1 if nk == n1 else [g1[0]] * nk)
        else:
            for q, v in prof.items():
                # the structure in the files of the other modes is theirs, on their own grid
                d[q] = m.arr(v if k == 0 else [S.M] * nk)
        dicts.append(d)
    xp = grid(m, nprof)
    N2 = list(m.reals('N2_', nprof, lo=-3, hi=3))
    ad = list(m.reals('ad_', nprof, lo=-3, hi=3))
    S.struct = {}
    if poly:
        Rp = S.R
        pr = lambda n, **k: list(m.reals(n + 'p_', nprof, **(k or dict(lo=Fraction(1, 10), hi=5))))
        S.struct = dict(r=[Rp * v for v in xp], mr=pr('mr'), rho=pr('rho'), p=pr('p'), brunt_n2=N2, c1=pr('c1'), v2=pr('v2'), u=pr('u'))
        S.struct['as'] = pr('as')
        S.struct['rho'] = list(m.increasing('rhop', nprof, lo=Fraction(1, 10), hi=5))[::-1]
        S.struct['u'] = [pi4 * S.struct['rho'][i] * xp[i] ** 3 * S.R ** 3 / (S.M * mf[0]) for i in range(nprof)]
        S.struct['c1'] = [xp[i] ** 3 / mf[0] if i else one for i in range(nprof)]
        for q in ('drho', 'drho2', 'drho3', 'dp', 'dp2', 'dp3', 'dgravpot', 'dgravpot2', 'dgravpot3'):
            S.struct[q] = pr(q, lo=-3, hi=3)
        S.p0, S.rho0 = m.real('p0', **pos), m.real('rho0', **pos)
        add = {q: m.arr(v) for q, v in S.struct.items()}
        add |= dict(n=nprof, n_r=1, n_poly=3., p0=S.p0, rho0=S.rho0, G=S.G, surfgrav=one, z=m.arr(xp), theta=m.arr(xp), dtheta=m.arr(xp), v=m.arr(xp), Gamma_1=m.arr([one] * nprof))
    else:
        S.struct = dict(brunt_N2=N2, gamma_1_adDer=ad)
        add = dict(radius=m.arr([3 * v for v in xp[::-1]]), brunt_N2=m.arr(N2[::-1]), gamma_1_adDer=m.arr(ad[::-1]), Teff=1e4, zone=7, compiler='gfortran', initial_z=.014)
    # the grid on which everything is expected
    big = max(range(3), key=lambda k: (lens[k], -k))
    x = grid(m, lens[big])
    full = {q: (v if lens[big] == n1 else interp(x, x1, v)) for q, v in prof.items()}
    st = {q: (v if nprof == len(x) else interp(x, xp, v)) for q, v in S.struct.items()}
    S.interp = len(x) != (nprof if poly else n1)
    S.x = x[1:-1]
    S.full, S.st = {q: v[1:-1] for q, v in full.items()}, {q: v[1:-1] for q, v in st.items()}
    S.Y = {(q, k): (v if lens[k] == len(x) else interp(x, grid(m, lens[k]), v))[1:-1] for (q, k), v in S.y.items()}
    S.log = []
    nd = differentiator(m, S.log)
    m.entry(SUP, 'SuperCouplingCoefficient')._get_profiles_MESA_GYRE.__globals__['NumericalDifferentiator'] = nd
    m.entry(CCR, 'CouplingCoefficientRotating')._compute_radial_gradients.__globals__['NumericalDifferentiator'] = nd
    g = K.__init__.__globals__
    made = []

    class Norm:
        def __init__(self, **k):
            made.append(k)
            self.normalizing_factors = [1., 1., 1.]

        def __call__(self):
            pass

    g['GYRENorm'] = Norm
    fh = Obj(dimless_corot_omegas=m.arr(S.om), spin_factors=m.arr([0.1, .2, .3]), surf_rot_angular_freq=S.G, corot_mode_omegas=m.arr(S.om))
    nothing = lambda self, *a, **k: None
    Q = type('Coupler', (K,), dict(_store_houghs=nothing, _normalize_houghs=nothing, _compute_b_a_s_mode_energies=nothing, _fill_hough_mode_debug_attributes=nothing))
    kw = {} if method == 'gradient' else dict(diff_terms_method=method)
    o = Q(*dicts, additional_profile_information=add, freq_handler=fh, l_list=list(l), m_list=[0, 0, 0], polytropic=poly, analytic_polytrope=analytic,
          use_symbolic_derivatives=symbolic, use_brunt_def=brunt, use_complex=cc, **kw)
    m.true('first derivatives with the requested method', all(v == (1, method) for v in S.log))
    S.pi4 = pi4
    return o, S


def structure(m, o, S, poly, analytic, symbolic, brunt):
    n = len(S.x)
    r = [v * S.R for v in S.x]
    m.eq('radii', list(o._x), S.x)
    if poly:
        rho, P, Mr, N2 = (S.st[q] for q in ('rho', 'p', 'mr', 'brunt_n2'))
        R, Pn, g1 = '_rho_profile', '_p_profile', None
    else:
        rho, P, Mr, N2 = S.full['rho'], S.full['P'], S.full['M_r'], S.st['brunt_N2']
        R, Pn = '_rho', '_P'
    g1 = list(o._Gamma_1)
    if not poly:
        m.eq('adiabatic exponent', g1, S.full['Gamma_1'])
    m.eq('density', list(getattr(o, R)), rho)
    m.eq('pressure', list(getattr(o, Pn)), P)
    if analytic:
        e = {q: S.st[q] for q in ('drho', 'drho2', 'drho3', 'dgravpot', 'dgravpot2', 'dgravpot3')} | {q.replace('p', 'P'): S.st[q] for q in ('dp', 'dp2', 'dp3')}
    else:
        g = [S.G * a / b ** 2 for a, b in zip(Mr, r)]
        if symbolic:
            dr = [rho[i] * (-rho[i] * g[i] / (g1[i] * P[i]) - N2[i] / g[i]) for i in range(n)] if brunt else der(m, r, rho)
            g2 = [S.pi4 * S.G * rho[i] - 2 * g[i] / r[i] for i in range(n)]
            g3 = [S.pi4 * S.G * dr[i] - 2 * g2[i] / r[i] + 2 * g[i] / r[i] ** 2 for i in range(n)]
        else:
            dr = der(m, r, rho)
            g2 = der(m, r, g)
            g3 = der(m, r, g2)
        dr2 = der(m, r, dr)
        dr3 = der(m, r, dr2)
        if symbolic:
            p1 = [-rho[i] * g[i] for i in range(n)]
            p2 = [-(dr[i] * g[i] + rho[i] * g2[i]) for i in range(n)]
            p3 = [-(dr2[i] * g[i] + 2 * dr[i] * g2[i] + rho[i] * g3[i]) for i in range(n)]
        else:
            p1 = der(m, r, P)
            p2 = der(m, r, p1)
            p3 = der(m, r, p2)
        e = dict(dgravpot=g, drho=dr, dgravpot2=g2, dgravpot3=g3, drho2=dr2, drho3=dr3, dP=p1, dP2=p2, dP3=p3)
    for q, v in e.items():
        m.eq(q, list(getattr(o, '_' + q)), v)
    if poly:
        nP, nrho = S.p0, S.rho0
    else:
        nP, nrho = P[0], rho[0]
        for a, b in zip(P[1:], rho[1:]):
            nP, nrho = m.maximum(nP, a), m.maximum(nrho, b)
    m.eq('scale of pressure', o._norm_P, nP)
    m.eq('scale of density', o._norm_rho, nrho)
    for q, v in list(e.items()) + [('P', P), ('rho', rho)]:
        if 'grav' not in q:
            m.eq(f'scaled {q}', list(getattr(o, f'_{q}_normed')), [a / (nP if 'P' in q else nrho) for a in v])
    c = {q: S.st[w] for q, w in (('c_1', 'c1'), ('V_2', 'v2'), ('As', 'as'), ('U', 'u'))} if poly else {q: S.full[q] for q in ('c_1', 'V_2', 'As', 'U')}
    for q, v in c.items():
        m.eq(f'structure coefficient {q}', list(getattr(o, '_' + q)), v)
    if not poly:
        m.eq('adiabatic derivative of Gamma_1', list(o._gamma_1_adDer_profile), S.st['gamma_1_adDer'])
    return c, g1


def radial(m, o, S, c, g1, symbolic, wave=False, cc=False):
    n = len(S.x)
    x = S.x
    root = m.const(Fraction(repr(math.sqrt(4 * math.pi)))) if m.sym else math.sqrt(4 * math.pi)
    V = [c['V_2'][i] * x[i] ** 2 / g1[i] for i in range(n)]
    for k in range(3):
        a = lambda q: list(getattr(o, f'_{q}_mode_{k + 1}'))
        z1, z2 = ([S.Y[y, k][i] * x[i] ** (S.l[k] - 2) * root for i in range(n)] for y in ('y_1', 'y_2'))
        cw = [c['c_1'][i] * S.om[k] ** 2 for i in range(n)]
        m.eq('z_1', a('z_1'), z1)
        m.eq('z_2', a('z_2'), z2)
        m.eq('x z_1', a('x_z_1'), [u * v for u, v in zip(x, z1)])
        h = [u / v for u, v in zip(z2, cw)]
        m.eq('horizontal displacement', a('z_2_over_c_1_omega'), h)
        m.eq('x times horizontal displacement', a('x_z_2_over_c_1_omega'), [u * v for u, v in zip(x, h)])
        if symbolic:
            d1 = [(V[i] - 2) * z1[i] + (S.lam[k] / cw[i] - V[i]) * z2[i] for i in range(n)]
            d2 = [(1 - c['As'][i] / cw[i]) * z1[i] + (c['As'][i] - 1) / cw[i] * z2[i] for i in range(n)]
        else:
            d1 = slope(m, x, [u * v for u, v in zip(x, z1)], wave, cc)
            d2 = slope(m, x, [u * v for u, v in zip(x, h)], wave, cc)
        m.eq('derivative of the radial displacement', a('rad_der_x_z_1'), d1)
        if not symbolic or not S.interp:
            # U and c_1 are not consistent with the density between the points of their own grid
            m.eq('derivative of the horizontal displacement', a('rad_der_x_z_2_c_1_omega'), d2)
        m.eq('divergence', a('rad_diverg'), [V[i] * (z1[i] - z2[i]) for i in range(n)])
        if symbolic:
            m.eq('continuity', a('rad_diverg'), [d1[i] + 2 * z1[i] - S.lam[k] * h[i] for i in range(n)])
        for q in ('xi_r', 'xi_h'):
            m.eq(f'function {q} at the same radii', a(q), S.Y[q, k])


def slope(m, x, y, wave, cc):
    """Derivative of a function: only that of its real part unless complex numbers are asked for."""
    if not wave:
        return der(m, x, y)
    re = der(m, x, [v.real for v in y])
    if not cc:
        return re
    return [m.complex(a, b) for a, b in zip(re, der(m, x, [v.imag for v in y]))]


def star(lens, nprof, poly=False, analytic=False, wave=False):
    def f(m):
        m.cancel_branches()
        m.fork_minmax()
        symbolic = True if analytic else m.pick('symbolic derivatives', [True, False])
        brunt = m.pick('definition of N^2', [True, False]) if symbolic and not analytic else True
        l = m.pick('degrees', [(2, 1, 3)])
        cc = m.pick('complex numbers', [False, True]) if wave else False
        o, S = coupler(m, lens, nprof, poly, analytic, symbolic, m.pick('method', ['gradient', 'hermite_spline']) if not symbolic else 'gradient', brunt, l, wave=wave, cc=cc)
        c, g1 = structure(m, o, S, poly, analytic, symbolic, brunt)
        radial(m, o, S, c, g1, symbolic, wave, cc)
    return f


SI = {'M_star': 3, 'R_star': 2, 'L_star': 7, 'M_r': 3, 'P': 1, 'rho': -3}
AS_LENGTH = ['xi_r', 'xi_h', 'xi_r_ref', 'xi_h_ref']


class Rec(dict):
    """A field of a GYRE file: real and imaginary parts."""


def files(m):
    """Loading of mode and structure files: units and dimensions."""
    L = m.entry(LOAD, 'ModelLoader')
    o = L.__new__(L)
    unit = m.pick('units', ['CGS', 'SI', 'cgs', 'si'])
    si = unit.lower() == 'si'
    o._unit_system, o._nr_modes = unit, 1
    pos = dict(lo=Fraction(1, 10), hi=10)
    n = 3
    M, R, Lu = m.real('M', **pos), m.real('R', **pos), m.real('L', **pos)
    prof = {q: list(m.reals(q, n, **pos)) for q in ('M_r', 'P', 'rho', 'T', 'V_2', 'c_1', 'As', 'U', 'Gamma_1', 'x', 'Omega_rot')}
    cplx = {q: (list(m.reals(q + 're', n, lo=-5, hi=5)), list(m.reals(q + 'im', n, lo=-5, hi=5)))
            for q in ('xi_r', 'xi_h', 'eul_phi', 'deul_phi', 'eul_P', 'eul_rho', 'eul_T', 'lag_P', 'lag_rho', 'lag_T', 'lag_L', 'y_1', 'y_2', 'lambda')}
    nums = {q: m.real(q, lo=-5, hi=5) for q in ('E', 'E_p', 'E_g', 'H', 'W', 'E_norm', 'Delta_p', 'Delta_g')}
    d = {q: m.arr(v) for q, v in prof.items()} | {q: Rec(re=m.arr(a), im=m.arr(b)) for q, (a, b) in cplx.items()} | nums
    d |= dict(M_star=M, R_star=R, L_star=Lu, n=n, l=2, m=1, n_pg=-20, n_g=20, n_p=0, freq_units='HZ', freq_frame='INERTIAL')
    mesa = {q: list(m.reals('mesa' + q, n, **pos)) for q in ('radius', 'brunt_N2', 'gamma_1_adDer', 'pressure', 'grav', 'logRho')}
    one = lambda v: Obj(data_file_reader=lambda **k: [dict(v)])
    o._gyre_detail_reader, o._mesa_profile_reader = one(d), one({q: m.arr(v) for q, v in mesa.items()} | dict(Teff=1e4))
    o._gyre_detail_helper = o._mesa_profile_helper = Obj(subselect=None)
    o._gyre_dir = o._mesa_dir = o._gyre_detail_substring = o._mesa_profile_substrings = None
    o.read_data_files(gyre_detail=True, mesa_profile=True, g_modes=[True])
    out = o.gyre_details[0]
    import astropy.constants as c
    G = float(c.G.si.value if si else c.G.cgs.value)
    Ge = m.const(Fraction(repr(G))) if m.sym else G
    f = {q: (Fraction(10) ** -k if m.sym else 10. ** -k) if si else 1 for q, k in SI.items()}
    M, R, Lu = M * f['M_star'], R * f['R_star'], Lu * f['L_star']
    m.eq('gravitational constant', out['G'], Ge)
    for q, v in (('M_star', M), ('R_star', R), ('L_star', Lu)):
        m.eq(q, out[q], v)
    prof = {q: [a * f.get(q, 1) for a in v] for q, v in prof.items()}
    for q, v in prof.items():
        m.eq(q, list(out[q]), v)
    w = m.sqrt(Ge * M / R ** 3)
    m.eq('rotation frequency', list(out['Omega_rot_dim']), [w * v for v in prof['Omega_rot']])
    for q, (a, b) in cplx.items():
        fac = {'xi_r': R, 'xi_h': R, 'eul_phi': Ge * M / R, 'deul_phi': Ge * M / R ** 2, 'lag_L': Lu}.get(q)
        fac = [fac] * n if fac is not None else prof[q[4:]] if q[4:] in ('P', 'rho', 'T') else None
        v = list(out[q + '_dim' if fac else q])
        fac = fac or [1] * n
        m.eq(f'{q}, real part', [x.real for x in v], [x * y for x, y in zip(a, fac)])
        m.eq(f'{q}, imaginary part', [x.imag for x in v], [x * y for x, y in zip(b, fac)])
    for q, fac in (('E', M * R ** 2), ('E_p', M * R ** 2), ('E_g', M * R ** 2), ('H', Ge * M ** 2 / R), ('W', Ge * M ** 2 / R), ('Delta_p', w), ('Delta_g', w)):
        m.eq(q, out[q + '_dim'], nums[q] * fac)
    m.eq('E_norm', out['E_norm'], nums['E_norm'])
    m.true('labels', [out[q] for q in ('n', 'l', 'm', 'n_pg', 'n_g', 'n_p', 'freq_units', 'freq_frame')] == [3, 2, 1, -20, 20, 0, 'HZ', 'INERTIAL'])
    p = o.mesa_profile[0]
    for q, v in mesa.items():
        k = {'gamma_1_adDer': 3, 'pressure': 1, 'grav': 2}.get(q, 0) if si else 0
        m.eq(f'structure file, {q}', list(p[q]), [a * (Fraction(10) ** -k if m.sym else 10. ** -k) for a in v])
    m.eq('structure file, Teff', p['Teff'], 10000)


def poly_files(m):
    """Loading of polytropes: the structure computation and the modes get the mass and radius of the star."""
    L = m.entry(LOAD, 'ModelLoader')
    o = L.__new__(L)
    o._unit_system, o._nr_modes = m.pick('units', ['CGS', 'SI']), 3
    n = 3
    M, R = m.real('M', lo=1, hi=9), m.real('R', lo=1, hi=9)
    seen = []

    class Pa:
        def __init__(self, model_info_dictionary_list, model_mass, model_radius):
            seen.append((model_info_dictionary_list[0]['G'], model_mass, model_radius, model_info_dictionary_list[0]['z']))
            self.property_dict = dict(rho0=M + R, p0=M - R)

    L.read_data_files.__globals__['PaSi'] = Pa
    z = m.arr(list(m.reals('z', n, lo=0, hi=1)))
    modes = []
    for k in range(3):
        modes.append({q: (list(m.reals(f'{q}{k}re', n, lo=-5, hi=5)), list(m.reals(f'{q}{k}im', n, lo=-5, hi=5))) for q in ('xi_r', 'xi_h', 'y_1', 'y_2', 'eul_phi', 'deul_phi')})
    calls = []

    def reader(**k):
        calls.append(k)
        i = k['mode_number'] - 1
        return [{q: Rec(re=m.arr(a), im=m.arr(b)) for q, (a, b) in modes[i].items()} | dict(n=n, l=i, m=-i, label=7, freq_units='HZ', freq_frame='INERTIAL', x=z, Gamma_1=z)]
    o._polytrope_model_reader = Obj(data_file_reader=lambda **k: [dict(z=z, n_poly=3.)])
    o._polytrope_oscillation_reader = Obj(data_file_reader=reader)
    o._polytrope_model_helper = o._polytrope_oscillation_helper = Obj(subselect='s')
    o._polytrope_model_dir = o._polytrope_oscillation_dir = o._polytrope_model_substrings = o._polytrope_oscillation_substrings = None
    gm = [True, False, True]
    o.read_data_files(polytrope_model=True, polytrope_oscillation=True, g_modes=gm, polytrope_mass=M, polytrope_radius=R, progress_bars=m.pick('bars', [False, True]))
    import astropy.constants as c
    G = c.G.si.value if o._unit_system == 'SI' else c.G.cgs.value
    m.true('one structure', len(seen) == 1 and seen[0][0] == G and o.polytrope_model[0]['G'] == G)
    m.eq('mass and radius of the structure', list(seen[0][1:3]), [M, R])
    m.eq('structure is merged', [o.polytrope_model[0]['rho0'], o.polytrope_model[0]['p0']], [M + R, M - R])
    m.true('three modes', [k.get('mode_number') for k in calls] == [1, 2, 3] and [k.get('g_mode') for k in calls] == gm and len(o.polytrope_oscillation_models) == 3)
    for i, d in enumerate(o.polytrope_oscillation_models):
        m.true('labels', [d[q] for q in ('l', 'm', 'n', 'label', 'freq_units', 'G')] == [i, -i, n, 7, 'HZ', G])
        m.eq('mass and radius', [d['M_star'], d['R_star']], [M, R])
        for q, (a, b) in modes[i].items():
            m.eq(q, [x.real for x in d[q]] + [x.imag for x in d[q]], a + b)


def cases(tier):
    st = quad.stubs
    cs = [Case('stellar model', star((5, 5, 5), 5), st, seconds=500, timeout_ms=30000, bounds='5 radial points, three modes'),
          Case('polytrope', star((5, 5, 5), 5, poly=True), st, seconds=500, timeout_ms=30000, bounds='5 radial points'),
          Case('analytic polytrope', star((5, 5, 5), 5, poly=True, analytic=True), st, seconds=500, timeout_ms=30000, bounds='5 radial points')]
    for a, b, e in (((5, 4, 5), 6, 'structure file and one mode on other grids'), ((5, 6, 4), 7, 'longest grid is that of the second mode'), ((6, 5, 4), 6, 'first grid is the longest')):
        for poly, an, w in ((False, False, 'stellar model'), (True, False, 'polytrope'), (True, True, 'analytic polytrope')):
            cs.append(Case(f'{w}, {e}', star(a, b, poly, an), st, seconds=500, timeout_ms=30000, bounds=f'grids of {a} points, structure of {b}'))
    cs += [Case('complex eigenfunctions', star((5, 5, 5), 5, wave=True), st, seconds=500, timeout_ms=30000, bounds='5 radial points'),
           Case('complex eigenfunctions, other grids', star((4, 6, 5), 5, wave=True), st, seconds=500, timeout_ms=30000, bounds='grids of 4 to 6 points')]
    cs += [Case('mode and structure files', files, st, bounds='3 radial points, 4 spellings of the unit system'), Case('files of polytropes', poly_files, st, bounds='3 radial points, 3 modes')]
    return cs
