"""Hough functions and their derivative profiles."""
import types
from fractions import Fraction

from . import quad
from .common import Case, HarnessGap

LEVEL = 'model_checking'
NOTE = ('The spectral differentiation is replaced by arbitrary values of the radial function and its first two derivatives at each colatitude (C21 decides the differentiation), so that the'
        ' relations are decided for every function at once. Trusts the symbolic interpreter in vlib; rounding is outside the claims.')
ASSUMPTIONS = ['definitions prat and lee_saio_equivalent; for townsend only the derivatives of the three functions are compared',
               'points where 1 - nu^2 mu^2 vanishes are excluded', 'the azimuthal-derivative products are those of the definition the angular integrals use (lee_saio_equivalent) where the sign depends on it']
HAND = 'aesolver.angular_integration.rotating_tar_angular.hough_function_handler'
PTS = [(4, 3, 5), (5, 12, 13), (12, 5, 13), (7, 24, 25), (15, 8, 17), (20, 21, 29), (9, 40, 41), (77, 36, 85)]
CUR = {}


def stubs(mode):
    class ChebyTransform:
        def __init__(self, npts=200):
            CUR['npts'] = npts
            self.mu, self.s = CUR['mu'], CUR['s']
            self.npts = npts

        def _par(self, parity, pf):
            m = CUR['m']
            if parity not in (0, 1) or pf not in (0, 1) or bool(parity != CUR['par'][0]) or bool(pf != CUR['par'][1]):
                CUR['bad'].append((parity, pf))

        def solve_eig(self, coeff0, coeff1, coeff2, parity, pf):
            self._par(parity, pf)
            CUR['op'] = (coeff0, coeff1, coeff2)
            return CUR['eig']

        def _der(self, f, k):
            for a, b in zip(f, CUR['h']):
                if not (a is b or bool(a == b)):
                    raise HarnessGap('differentiation of something else than the radial function')
            return CUR['der'][k]

        def apply(self, f, coeff0, coeff1, coeff2, parity, pf):
            self._par(parity, pf)
            r = coeff0 * f + coeff1 * self._der(f, 0)
            return r if coeff2 is None else r + coeff2 * self._der(f, 1)

        def diff1(self, f, parity, pf):
            self._par(parity, pf)
            return self._der(f, 0)

        def diff2(self, f, parity, pf):
            self._par(parity, pf)
            return self._der(f, 1)
    c = types.ModuleType('cheby_transform')
    c.ChebyTransform = ChebyTransform
    return {'cheby_transform': c, **quad.stubs(mode)}


def points(m, n):
    off = m.pick('points', [0, 3, 5])
    p = sorted((PTS[(off + i) % len(PTS)] for i in range(n)), key=lambda t: -Fraction(t[0], t[2]))
    mu, s = [Fraction(a, c) for a, b, c in p], [Fraction(b, c) for a, b, c in p]
    if not m.sym:
        mu, s = [float(x) for x in mu], [float(x) for x in s]
    else:
        mu, s = [m.const(x) for x in mu], [m.const(x) for x in s]
    return mu, s


def setup(m, n, l, az, npts=8):
    mu, s = points(m, n)
    h = [1. if not m.sym else m.const(1)] + list(m.reals('h', n - 1, lo=-1, hi=1))
    m.assume(h[-1] > 0)
    d1, d2 = list(m.reals('d1', n, lo=-50, hi=50)), list(m.reals('d2', n, lo=-500, hi=500))
    CUR.clear()
    if m.sym:
        eig = m.arr([m.const(-2)]), m.arr(h, (n, 1))
    else:
        eig = m.np.array([-2.]), m.np.array(h).reshape(n, 1)
    CUR.update(m=m, mu=m.arr(mu), s=m.arr(s), h=h, der=(m.arr(d1), m.arr(d2)), bad=[], eig=eig, par=((l - az) % 2, az % 2))
    return mu, s, h, d1, d2


LM = [(1, 1), (2, 1), (2, -1), (3, -3), (2, 0), (1, 0), (3, 2), (4, -2), (2, 2)]


def same(m, name, got, want):
    m.eq(name + ': length', len(got), len(want))
    m.eq(name, list(got), want)


def profiles(definition):
    def f(m):
        l, az = m.pick('lm', LM)
        nu = m.real('nu', lo=-20, hi=20)
        n = 2
        mu, s, h, d1, d2 = setup(m, n, l, az)
        D = [1 - nu * nu * u * u for u in mu]
        for x in D:
            m.assume(m.Or(x > Fraction(1, 1000), x < -Fraction(1, 1000)) if m.sym else abs(x) > 1e-3)
        out, mur, th = m.entry(HAND, 'HoughFunctionHandler').get_relevant_hough_output(nu=nu, l=l, m=az, npts=8, lmbd=Fraction(2) if m.sym else 2., definition=definition)
        m.eq('parities handed to the transform', len(CUR['bad']), 0)
        # the functions and their derivatives on the northern hemisphere
        lee = definition != 'prat'
        town = definition == 'townsend'
        R = range(n)
        A = [-s[i] ** 2 * d1[i] - az * nu * mu[i] * h[i] for i in R]           # ht D s
        B = [az * h[i] + nu * mu[i] * s[i] ** 2 * d1[i] for i in R]            # hp D s
        dA = [2 * mu[i] * d1[i] - s[i] ** 2 * d2[i] - az * nu * (h[i] + mu[i] * d1[i]) for i in R]
        dB = [az * d1[i] + nu * s[i] ** 2 * d1[i] - 2 * nu * mu[i] ** 2 * d1[i] + nu * mu[i] * s[i] ** 2 * d2[i] for i in R]
        W = [D[i] if town else D[i] * s[i] for i in R]
        ds = [-mu[i] / s[i] for i in R]
        dD = [-2 * nu * nu * mu[i] for i in R]
        dW = [dD[i] if town else dD[i] * s[i] + D[i] * ds[i] for i in R]
        ht = [A[i] / W[i] for i in R]
        hp = [(-B[i] if lee else B[i]) / W[i] for i in R]
        htp = [(dA[i] - ht[i] * dW[i]) / W[i] for i in R]
        hpp = [((-dB[i] if lee else dB[i]) - hp[i] * dW[i]) / W[i] for i in R]
        e = 1 if abs(az) % 2 == l % 2 else -1       # radial function even about the equator?

        def whole(v, sym):
            return [sym * e * x for x in v] + list(v[::-1])
        same(m, 'mu', mur, [-x for x in mu] + mu[::-1])
        same(m, 'colatitudes', th, [m.fn('arccos', x) for x in [-x for x in mu] + mu[::-1]])
        same(m, 'hr', out['hr'], whole(h, 1))
        same(m, 'ht', out['ht'], whole(ht, -1))
        same(m, 'hp', out['hp'], whole(hp, 1))
        same(m, 'hr by mu', out['theta_der_hr'], whole(d1, -1))
        same(m, 'hr by mu twice', out['theta_der2_hr'], whole(d2, 1))
        same(m, 'ht by mu', out['theta_der_ht'], whole(htp, 1))
        same(m, 'hp by mu', out['theta_der_hp'], whole(hpp, -1))
        if town:
            return
        same(m, 'hr by theta', out['theta_der_hr_theta'], whole([-s[i] * d1[i] for i in R], -1))
        same(m, 'hr by theta twice', out['theta_der2_hr_theta'], whole([s[i] ** 2 * d2[i] - mu[i] * d1[i] for i in R], 1))
        same(m, 'ht by theta', out['theta_der_ht_theta'], whole([-s[i] * htp[i] for i in R], 1))
        same(m, 'hp by theta', out['theta_der_hp_theta'], whole([-s[i] * hpp[i] for i in R], -1))
        k = -az if lee else az      # azimuthal order in the sense of the function that goes with hp
        if lee:
            same(m, 'azimuthal derivative of hr', out['mhr'], whole([k * h[i] for i in R], 1))
        same(m, 'azimuthal covariant derivative of ht', out['theta_phi'], whole([k * ht[i] - mu[i] * hp[i] for i in R], -1))
        pp = [(mu[i] * ht[i] - k * hp[i]) / s[i] for i in R]
        same(m, 'azimuthal covariant derivative of hp', out['phi_phi'], whole(pp, 1))
        # the eigenvalue problem that is solved is the angular continuity equation
        c0, c1, c2 = CUR['op']
        for i in R:
            m.eq('tidal equation', c2[i] * d2[i] + c1[i] * d1[i] + c0[i] * h[i], -s[i] * htp[i] + pp[i])
    return f


def eigen(how):
    def f(m):
        l, az = m.pick('lm', [(1, 1), (2, -1)])
        n = 2
        mu, s = points(m, n)
        ne = 3
        kinds = m.pick('complex', [(0, 0, 0), (1, 0, 0), (0, 1, 0), (1, 0, 1)] if how == 'default' else [(0, 0, 0), (0, 1, 0)])
        ev = [m.real(f'e{i}', lo=-30, hi=10) for i in range(ne)]
        # columns; the sizes are arbitrary, the order of magnitude of the two entries too
        cols = [[m.real(f'v{i}{k}', lo=-5, hi=5) for k in range(n)] for i in range(ne)]
        if m.sym:
            from vlib.sym import SymComplex
            vals = m.arr([SymComplex(e, m.const(k)) for e, k in zip(ev, kinds)])
            vecs = m.arr([SymComplex(cols[i][k], m.const(0)) for k in range(n) for i in range(ne)], (n, ne))
        else:
            vals = m.np.array([complex(e, k) for e, k in zip(ev, kinds)])
            vecs = m.np.array([[complex(cols[i][k]) for i in range(ne)] for k in range(n)])
        for i in range(ne):
            m.assume(m.absv(cols[i][0]) > Fraction(1, 10) if m.sym else abs(cols[i][0]) > .1)
            m.assume(m.absv(cols[i][1]) > Fraction(1, 10) if m.sym else abs(cols[i][1]) > .1)
            m.assume(m.absv(ev[i]) > Fraction(1, 100) if m.sym else abs(ev[i]) > .01)
        CUR.clear()
        CUR.update(m=m, mu=m.arr(mu), s=m.arr(s), bad=[], eig=(vals, vecs), par=((l - az) % 2, az % 2))
        F = m.entry('hough_function.hough_function', 'HoughFunction')
        lam = None if how == 'default' else m.real('lambda', lo=0, hi=30)
        target = -l * (l + 1) if how == 'default' else -lam if how != 'as is' else lam
        lim = Fraction(1, 1000) if m.sym else 1e-3
        for i in range(ne):                       # no ties
            for j in range(i):
                gap = m.absv(m.absv(ev[i] - target) - m.absv(ev[j] - target))
                m.assume(gap > lim)
                m.assume(m.absv(ev[i] - ev[j]) > lim)
        H = F(nu=Fraction(1, 3) if m.sym else 1 / 3, l=l, m=az, npts=4, lmbd=[lam, 7] if how == 'list' else lam, lmbd_adjust=how != 'as is',
              definition='lee_saio_equivalent')
        H._colloc()
        ok = [i for i in range(ne) if not kinds[i] and ev[i] < 0]
        if not ok:
            m.done()
        H._get_eigenvalue_and_radial_hough()
        best = ok[0]
        for i in ok[1:]:
            if m.absv(ev[i] - target) < m.absv(ev[best] - target):
                best = i
        m.eq('eigenvalue closest to the request', H._eigenvalue, ev[best])
        v = cols[best]
        big = m.maximum(m.absv(v[0]), m.absv(v[1]))
        sg = 1 if v[1] > 0 else -1
        m.eq('radial function', list(H._hr), [sg * x / big for x in v])
        m.true('positive at the equator', H._hr[-1] > 0)
    return f


def cases(tier):
    cs = [Case(f'functions, {d}', profiles(d), stubs, max_paths=2000, seconds=300,
               bounds='every radial function with its derivatives at two of eight colatitudes of each hemisphere; spin parameter up to 20, nine (l, m)')
          for d in ('prat', 'lee_saio_equivalent', 'townsend')]
    cs += [Case(f'eigenvalue, {h}', eigen(h), stubs, max_paths=4000, seconds=250, bounds='three eigenpairs, real or not, two points') for h in ('default', 'request', 'as is')]
    return cs
