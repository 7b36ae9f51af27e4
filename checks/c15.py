"""Structure of polytropes."""
from fractions import Fraction

from .common import Case, two_pi

LEVEL = 'model_checking'
NOTE = ('The Lane-Emden solution is arbitrary: any radii, functions and first derivatives; its second derivative is what the equation prescribes, and the profiles must satisfy the structure equations pointwise.'
        ' Trusts the symbolic interpreter in vlib; rounding is outside the claims.')
ASSUMPTIONS = ['the centre (z = 0), where the code divides by zero and whose samples are cut, is excluded', 'theta positive and decreasing with z']
MOD = 'aesolver.polytropic_computations.poly_struct_comps'


class Exact:
    """numpy with an exact value of pi, so that constants are not rounded one by one."""

    def __init__(self, np, pi):
        self._np, self.pi = np, pi

    def __getattr__(self, n):
        return getattr(self._np, n)


def build(m, n, npts):
    """Variables: the surface radius, auxiliary mass and theta are powers where roots of them are taken."""
    q, d = n.numerator, n.denominator
    kz = 1 if 3 % q == 0 else q
    one, hund = (Fraction(1), Fraction(1, 100)) if m.sym else (1., .01)
    z = list(m.increasing('z', npts - 1, lo=0, hi=20))
    b = m.real('b', lo=1, hi=3)
    z.append(b ** kz)
    m.assume(z[0] > hund)
    m.assume(z[-2] < z[-1])
    u = list(m.reals('u', npts, lo=Fraction(1, 10), hi=1))
    th = [v ** d for v in u]
    t = m.real('t', lo=Fraction(1, 2), hi=2)
    dth = [-1 * v for v in m.reals('slope', npts - 1, lo=Fraction(1, 100), hi=5)] + [-1 * t ** q / z[-1] ** 2]
    al = m.real('alpha', lo=Fraction(1, 10), hi=10)
    M = m.real('M', lo=Fraction(1, 10), hi=10)
    G = m.real('G', lo=Fraction(1, 10), hi=10)
    g1 = list(m.reals('Gamma_1', npts, lo=1, hi=2))
    pi4 = 2 * two_pi(m)
    rho0 = M / (pi4 * al ** 3 * t ** q)
    if m.sym:
        m.known_root(al, 2)
        if d > 1:
            for v in u:
                m.known_root(v, d)
        if q > 1:
            m.known_root(t, q)
            if kz > 1:
                m.known_root(b, q)
            root = b if 3 % q == 0 and q == 3 else b ** 3
            m.known_root(root / (pi4 ** Fraction(1, q) * t), q)
    return z, th, dth, al, M, G, g1, rho0, pi4


def profiles(nn, npts):
    def f(m):
        n = Fraction(nn)
        z, th, dth, al, M, G, g1, rho0, pi4 = build(m, n, npts)
        R = al * z[-1]
        arr = m.pick('index', ['number', 'array'])
        nv = float(n)
        if n.denominator == 1 and arr == 'number':
            nv = int(n)
        D = dict(n_poly=m.arr([nv]) if arr == 'array' else nv, z=m.arr(z), theta=m.arr(th), dtheta=m.arr(dth), Gamma_1=m.arr(g1), G=G)
        K = m.entry(MOD, 'PolytropicAdditionalStructureInformation')
        if m.sym:
            g = K.__init__.__globals__
            if not isinstance(g['np'], Exact):
                g['np'] = Exact(g['np'], two_pi(m) / 2)
        d = K([D], M, R).property_dict
        nv = n if m.sym else float(n)
        p0 = pi4 * G * rho0 ** 2 * al ** 2 / (nv + 1)
        m.eq('central density', d['rho0'], rho0)
        m.eq('central pressure', d['p0'], p0)
        m.eq('radius', d['r'][npts - 1], R)
        m.eq('mass', d['mr'][npts - 1], M)
        for i in range(npts):
            r = al * z[i]
            th1, h = dth[i] / al, th[i]
            rho, p = rho0 * h ** float(n), None
            p = p0 * h * (rho / rho0)
            mr = -pi4 * rho0 * al ** 3 * z[i] ** 2 * dth[i]
            g = G * mr / r ** 2
            m.eq('radii', d['r'][i], r)
            m.eq('density', d['rho'][i], rho)
            m.eq('pressure', d['p'][i], p)
            m.eq('mass inside', d['mr'][i], mr)
            m.eq('gravity', d['surfgrav'][i], g)
            m.eq('gravity as gradient of the potential', d['dgravpot'][i], g)
            # structure equations, with the second derivative of Lane and Emden
            drho = nv * rho * th1 / h
            m.eq('density gradient', d['drho'][i], drho)
            m.eq('hydrostatic equilibrium', d['dp'][i], -rho * g)
            g2 = pi4 * G * rho - 2 * g / r
            m.eq('Poisson', d['dgravpot2'][i], g2)
            m.eq('derivative of Poisson', d['dgravpot3'][i], pi4 * G * drho + 2 * g / r ** 2 - 2 * g2 / r)
            h2 = -(rho / rho0) / al ** 2 - 2 * th1 / r
            drho2 = nv * rho / h * (h2 + (nv - 1) * th1 ** 2 / h)
            m.eq('second derivative of the density', d['drho2'][i], drho2)
            h3 = -(drho / rho0) / al ** 2 + 2 * th1 / r ** 2 - 2 * h2 / r
            m.eq('third derivative of the density', d['drho3'][i], nv * rho / h * (h3 + 3 * (nv - 1) * th1 * h2 / h + (nv - 1) * (nv - 2) * th1 ** 3 / h ** 2))
            m.eq('second derivative of the pressure', d['dp2'][i], -drho * g - rho * g2)
            m.eq('third derivative of the pressure', d['dp3'][i], -drho2 * g - 2 * drho * g2 - rho * (pi4 * G * drho + 2 * g / r ** 2 - 2 * g2 / r))
            x = z[i] / z[-1]
            V = rho * g * r / p
            m.eq('V', d['v'][i], V)
            m.eq('V over x squared', d['v2'][i], V / x ** 2)
            m.eq('U', d['u'][i], pi4 * rho * r ** 3 / mr)
            m.eq('c1', d['c1'][i], x ** 3 * M / mr)
            As = -V / g1[i] - r * drho / rho
            m.eq('A*', d['as'][i], As)
            m.eq('Brunt-Vaisala', d['brunt_n2'][i], g * As / r)
        m.eq('profiles', sorted(d), sorted(['drho', 'drho2', 'drho3', 'dp', 'dp2', 'dp3', 'dgravpot', 'dgravpot2', 'dgravpot3', 'p', 'rho', 'r', 'v2', 'v', 'u', 'c1', 'as', 'mr',
                                            'surfgrav', 'brunt_n2', 'p0', 'rho0']))
    return f


def cases(tier):
    ns = ['1/2', '1', '3/2', '2', '5/2', '3', '4'] + (['5', '7/2'] if tier != 'quick' else [])
    k = 3 if tier == 'quick' else 5
    return [Case(f'index {n}', profiles(n, k), seconds=300, bounds=f'{k} radii, any Lane-Emden function, mass and radius') for n in ns]
