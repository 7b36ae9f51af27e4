"""Quadratic coupling coefficients."""
import itertools
from fractions import Fraction

from . import quad
from .common import Case, Obj, two_pi

LEVEL = 'model_checking'
NOTE = ('The oracle is the third-order energy of an adiabatic displacement (Schenk et al. 2002) written with the gradient tensors of the three displacements; the code integrates'
        ' its expanded form term by term. Trusts the symbolic interpreter in vlib and the composite quadrature that C01 decides; rounding is outside the claims.')
ASSUMPTIONS = ['the radial and angular functions are real (the setting for complex eigenfunctions is outside the claim), and the modes are distinct (the self-coupling setting, which no program sets, is outside)',
               'the angular functions are those of the displacement (xi_r, xi_theta, xi_phi) = r (z1 Hr, z2 Ht, i z2 Hp); a conjugated mode carries -i']
MOD = 'aesolver.coupling_coefficients.quadratic_coupling_coefficient_rotating'
ANG = ['hr', 'ht', 'hp', 'theta_der_hr_theta', 'theta_der_ht_theta', 'theta_der_hp_theta', 'mhr', 'phi_phi', 'theta_phi']
RAD = ['z_1', 'z_2_over_c_1_omega', 'rad_der_x_z_1', 'rad_der_x_z_2_c_1_omega', 'rad_diverg']
DIM = ['_norm_P', '_norm_rho', '_R_star']


class Z:
    """A value that may carry a factor i."""

    def __init__(self, v, im=0):
        self.v, self.im = v, im     # im: 0 real, +1 i, -1 -i


def tr(idx, G):
    """Real trace of a product of tensors of Z."""
    tot = 0
    n = len(idx)
    for path in itertools.product(range(3), repeat=n):
        v, ims = 1, []
        for k, g in enumerate(idx):
            e = G[g][path[k]][path[(k + 1) % n]]
            v = v * e.v
            if e.im:
                ims.append(e.im)
        assert len(ims) in (0, 2)
        if ims:
            v = v * (-ims[0] * ims[1])
        tot = tot + v
    return tot


def tensors(A, R, i, j, s, conj):
    """Gradient tensors at radius i and colatitude j, and the divergences."""
    G, D = [], []
    for k in range(3):
        g = {n: A[n][k][j] for n in ANG}
        z1, z2, d1, d2, dv = [R[n][k][i] for n in RAD]
        c = -1 if conj[k] else 1
        G.append([[Z(d1 * g['hr']), Z(d2 * g['ht']), Z(d2 * g['hp'], c)],
                  [Z(z1 * g['theta_der_hr_theta'] - z2 * g['ht']), Z(z2 * g['theta_der_ht_theta'] + z1 * g['hr']), Z(z2 * g['theta_der_hp_theta'], c)],
                  [Z(z1 * g['mhr'] / s[j] - z2 * g['hp'], c), Z(z2 * g['theta_phi'] / s[j], c), Z(z2 * g['phi_phi'] + z1 * g['hr'])]])
        D.append(dv * g['hr'])
    return G, D


def k1(S, A, R, i, j, conj):
    G, D = tensors(A, R, i, j, S.s, conj)
    t = sum(tr((a, b), G) * D[c] for a, b, c in ((0, 1, 2), (1, 2, 0), (0, 2, 1)))
    return S.P[i] * (S.G1[i] - 1) * S.x[i] ** 2 * t / 2 * S.R ** 3


def k2(S, A, R, i, j, conj):
    G, D = tensors(A, R, i, j, S.s, conj)
    g = (S.G1[i] - 1) * (S.G1[i] - 1)
    if S.ad is not None:
        g = g + S.rho_dim[i] * S.ad[i]
    return S.P[i] * g * S.x[i] ** 2 * D[0] * D[1] * D[2] / 2 * S.R ** 3


def k3(S, A, R, i, j, conj):
    G, D = tensors(A, R, i, j, S.s, conj)
    return S.P[i] * S.x[i] ** 2 * (tr((0, 1, 2), G) + tr((0, 2, 1), G)) / 2 * S.R ** 3


def k4(S, A, R, i, j, conj):
    r = S.x[i] * S.R
    xi = [(R['z_1'][k][i] * A['hr'][k][j], R['z_2_over_c_1_omega'][k][i] * A['ht'][k][j], R['z_2_over_c_1_omega'][k][i] * A['hp'][k][j]) for k in range(3)]
    add = S.p2[i] / r - S.p1[i] / (r * r)
    t = S.p3[i] * xi[0][0] * xi[1][0] * xi[2][0]
    for a, b, c in ((0, 1, 2), (1, 0, 2), (2, 0, 1)):
        sg = -1 if conj[b] == conj[c] else 1
        t = t + add * xi[a][0] * (xi[b][1] * xi[c][1] + sg * xi[b][2] * xi[c][2])
    # displacements are r times these, the volume element is r^2 dr
    return -S.rho[i] * S.x[i] ** 2 * S.x[i] ** 3 * t / 2 * S.R ** 6


class Star:
    pass


def make(m, nr, na, free=None, poly=False, ad=True, conj=(True, False, False), m_list=None, nz=None):
    """The coupler with symbolic functions; nz: (radial points, angular points) at which they may differ from zero."""
    K = m.entry(MOD, 'QuadraticCouplingCoefficientRotating')
    o = object.__new__(K)
    S = Star()
    rp, ap = nz or (range(nr), range(na))
    zero = m.const(0) if m.sym else 0.

    def some(name, n, pts, **k):
        return [m.real(f'{name}{i}', **k) if i in pts else zero for i in range(n)]
    A = {n: [some(f'{n}_{k}_', na, ap) for k in range(3)] for n in ANG}
    R = {n: [some(f'{n}_{k}_', nr, rp) for k in range(3)] for n in RAD}
    for n in ANG:
        for k in range(3):
            setattr(o, f'_{n}_mode_{k + 1}', m.arr(A[n][k]))
    for n in RAD:
        for k in range(3):
            setattr(o, f'_{n}_mode_{k + 1}', m.arr(R[n][k]))
    sc = [(-4, 3, 5), (0, 1, 1), (3, 4, 5), (12, 5, 13)][:na]
    S.mu, S.s = [Fraction(a, c) for a, b, c in sc], [Fraction(b, c) for a, b, c in sc]
    S.x = [Fraction(k + 1, 3) for k in range(nr)]
    if not m.sym:
        S.mu, S.s, S.x = [[float(v) for v in q] for q in (S.mu, S.s, S.x)]
    o._mu_values = m.arr(S.mu)
    o._x = m.arr(S.x)
    pos = dict(lo=Fraction(1, 10), hi=10)
    S.R = m.real('R', **pos)
    nP, nrho = m.real('nP', **pos), m.real('nrho', **pos)
    S.P, S.rho = m.reals('P', nr, **pos), m.reals('rho', nr, **pos)          # with dimensions
    S.G1 = m.reals('Gam', nr, lo=1, hi=3)
    S.p1, S.p2, S.p3 = m.reals('pa', nr), m.reals('pb', nr), m.reals('pc', nr)
    S.rho_dim = S.rho
    S.ad = m.reals('ad', nr) if ad and not poly else None
    o._R_star, o._norm_P, o._norm_rho = S.R, nP, nrho
    o._P_normed, o._rho_normed = m.arr([a / nP for a in S.P]), m.arr([a / nrho for a in S.rho])
    o._Gamma_1 = m.arr(S.G1)
    if poly:
        o._rho_profile = m.arr(S.rho)
    else:
        o._rho = m.arr(S.rho)
    if S.ad is not None:
        o._gamma_1_adDer_profile = m.arr(S.ad)
    o._dgravpot, o._dgravpot2, o._dgravpot3 = m.arr(S.p1), m.arr(S.p2), m.arr(S.p3)
    o._use_polytropic, o._self_coupling, o._nr_modes, o._use_complex, o._store_debug = poly, False, 3, False, False
    o._conj_cc, o._m_list = conj, m_list
    o._omp_threads, o._use_parallel, o._numerical_integration_method = 2, False, 'trapz'
    o._use_cheby, o._cheby_order_mul, o._cheby_blow_up, o._cheby_blow_up_fac = False, 4, False, 1e3
    o._radint = o._compute_radial_integral_real
    o._coupling_coefficient = o._coupling_coefficient_integrated = None
    return o, S, A, R


def integral(m, kap, S, A, R, conj, upto=None):
    xs, mu = S.x[:upto], S.mu
    return two_pi(m) * quad.trapezoid([quad.trapezoid([kap(S, A, R, i, j, conj) for j in range(len(mu))], mu) for i in range(len(xs))], xs)


KAP = [k1, k2, k3, k4]
CONJ = [(True, False, False), (False, False, False), (False, True, True), (False, True, False), (True, True, False), (False, False, True)]


def kappa(n):
    """One contribution against the tensor form, at one radius and colatitude of a two by two grid."""
    def f(m):
        conj = m.pick('conj', CONJ[:3] if n == 3 else CONJ)
        nz = m.pick('where', [((0,), (1,)), ((1,), (0,))] if n == 3 else [((0,), (1,)), ((1,), (0,)), ((0, 1), (0,)), ((0,), (0, 1))])
        poly = m.pick('poly', [False, True]) if n != 3 else False
        o, S, A, R = make(m, 2, 2, conj=conj, nz=nz, poly=poly, ad=m.pick('ad', [True, False]) if n == 2 else True)
        got = getattr(o, f'_kappa_{n}_abc')(slice(None))
        m.eq(f'contribution {n}', got, integral(m, KAP[n - 1], S, A, R, conj))
    return f


def total(m):
    """The coefficient, its profile, its normalised forms."""
    o, S, A, R = make(m, 4, 2, conj=(True, False, False), nz=((0, 1, 3), (1,)))
    parts = {}

    def part(n):
        def g(indexer):
            i = indexer.stop if indexer.stop is not None else 4
            if (n, i) not in parts:
                parts[n, i] = m.real(f'k{n}_{i}')
            v = parts[n, i]
            return v if m.sym else m.np.float64(v)
        return g
    for n in range(1, 5):
        setattr(o, f'_kappa_{n}_abc', part(n))
    E = m.real('E', lo=Fraction(1, 10), hi=10)
    o._energy_mode_1 = E
    o._energy_mode_2, o._energy_mode_3 = m.real('E2', lo=1, hi=2), m.real('E3', lo=1, hi=2)
    if m.pick('before', [True, False]):
        for a in ('coupling_coefficient', 'normed_coupling_coefficient', 'eta_lee_coupling_coefficient', 'coupling_coefficient_profile',
                  'normed_coupling_coefficient_profile', 'normed_contributions_coupling_coefficient_profile'):
            m.true(f'{a} before the computation', getattr(o, a) is None)
    o.adiabatic_coupling_rot()
    p = [parts[n, 4] for n in range(1, 5)]
    k = p[0] + p[1] + p[2] + p[3]
    m.eq('coefficient', o.coupling_coefficient, k)
    m.eq('contributions', o.coupling_terms_quadratic, p)
    m.eq('normalised', o.normed_coupling_coefficient, k / E)
    m.eq('eta', o.eta_lee_coupling_coefficient, 2 * k / E)
    o.adiabatic_coupling_rot_profile(progress_bar=m.pick('bar', [False, True]))
    prof = [[0] + [parts[n, i] for i in (2, 3, 4)] for n in range(1, 5)]
    sums = [sum(q[i] for q in prof) for i in range(4)]
    m.eq('profile', o.coupling_coefficient_profile, sums)
    m.eq('normalised profile', o.normed_coupling_coefficient_profile, [v / E for v in sums])
    for n, (a, b) in enumerate(zip(o.normed_contributions_coupling_coefficient_profile, prof), 1):
        m.eq(f'normalised contribution {n}', a, [v / E for v in b])
    m.eq('end of the profile', o.coupling_coefficient_profile[3], k)
    m.eq('radii', o.x, S.x)


def partial(m):
    """A contribution of the inner zones only is the integral over those zones."""
    n = m.pick('n', [1, 2, 4])
    conj = (True, False, False)
    o, S, A, R = make(m, 3, 2, conj=conj, nz=((1, 2), (0,)))
    cut = m.pick('upto', [2, 3])
    m.eq('inner zones', getattr(o, f'_kappa_{n}_abc')(slice(None, cut)), integral(m, KAP[n - 1], S, A, R, conj, cut))


def rule(m):
    """Nothing is left if the azimuthal selection rule is violated."""
    conj = m.pick('conj', [(True, False, False), (False, True, True), (False, False, False)])
    ms = list(m.ints('m', 3, -20, 20))
    n = m.pick('n', [1, 2, 4, 3])
    o, S, A, R = make(m, 2, 2, conj=conj, nz=((0,), (1,)), m_list=ms)
    if n == 3:
        m.assume(sum(-a if c else a for a, c in zip(ms, conj)) != 0)
    got = getattr(o, f'_kappa_{n}_abc')(slice(None))
    if sum(-1 * a if c else a for a, c in zip(ms, conj)) == 0:
        m.eq('allowed', got, integral(m, KAP[n - 1], S, A, R, conj))
    else:
        m.eq('forbidden', got, 0)


def exchange(m):
    """The daughters may be exchanged."""
    n = m.pick('n', [1, 2, 4, 3])
    conj = m.pick('conj', [(True, False, False), (False, True, False)])
    out = []
    for sw in (False, True):
        o, S, A, R = make(m, 2, 2, conj=tuple(conj[i] for i in ((0, 2, 1) if sw else (0, 1, 2))), nz=((0,), (1,))) if not out else (o, S, A, R)
        if sw:
            for q in ANG + RAD:
                a, b = getattr(o, f'_{q}_mode_2'), getattr(o, f'_{q}_mode_3')
                setattr(o, f'_{q}_mode_2', b)
                setattr(o, f'_{q}_mode_3', a)
            o._conj_cc = (conj[0], conj[2], conj[1])
        out.append(getattr(o, f'_kappa_{n}_abc')(slice(None)))
    m.eq('exchanged daughters', out[1], out[0])


def cases(tier):
    st = quad.stubs
    b = 'two radii and two colatitudes, functions free at the stated points; any values and dimensions'
    return [Case(f'contribution {n}', kappa(n), st, max_paths=400, seconds=300, bounds=b, samples=6) for n in (1, 2, 3, 4)] + [
        Case('coefficient', total, st, bounds='four radii; any contributions'),
        Case('inner zones', partial, st, bounds='three radii', seconds=200),
        Case('selection rule', rule, st, bounds='azimuthal orders up to 20', seconds=300),
        Case('exchange', exchange, st, bounds=b, seconds=300)]
