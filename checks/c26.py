"""Validity zones of the traditional approximation."""
from fractions import Fraction

from .common import Case, Obj

LEVEL = 'model_checking'
NOTE = ('Every pattern of valid and invalid zones up to the grid size is a path of the real method; the profiles and frequencies behind the pattern are symbolic.'
        ' Trusts the symbolic interpreter in vlib; rounding is outside the claims. Zones with a negative squared Brunt-Vaisala frequency count as invalid.')
ASSUMPTIONS = ['the object that holds the profile offers the Brunt-Vaisala profile, the rotation frequency, the co-rotating frequencies and the quality factors; no comparison is exactly on its boundary']
WHERE = {'solver': ('aesolver.solver.quadratic_solver', 'QuadraticAESolver'),
         'profile': ('aesolver.solver.quadratic_profile', None)}


def find(m, which):
    mod, name = WHERE[which]
    ns = m.entry(mod)
    for c in vars(ns).values():
        if isinstance(c, type) and 'get_masking_info_tar_validity' in vars(c):
            return c, ns
    m.gap(f'no class of {mod} has the zone method')


def setup(m, n, neg=False):
    b = m.reals('b', n, lo=0, hi=100)
    w = m.reals('w', 3, lo=-20, hi=20)
    om = m.real('om', lo=0, hi=20)
    c = m.real('c', lo=Fraction(1, 10), hi=10)
    q = m.reals('q', 3, lo=-100, hi=100)
    n2 = [x * x for x in b]
    bad = None
    if neg:
        bad = m.pick('convective', list(range(n)))
        n2[bad] = float('nan') if m.sym else -1. - n2[bad]     # the root of a negative number is not a number
    cp = Obj(_brunt_N2_profile=m.arr(n2),
             _freq_handler=Obj(_quality_factors=m.arr(q), quality_factors=m.arr(q), surf_rot_angular_freq_rps=om,
                               angular_conv_factor_from_rps=c, _corot_mode_omegas=m.arr(w), corot_mode_omegas=m.arr(w)))
    return b, w, om, c, q, bad, cp


def zones(which, n, neg=False):
    def f(m):
        K, ns = find(m, which)
        b, w, om, c, q, bad, cp = setup(m, n, neg)
        o = object.__new__(K)
        o._coupler = cp
        slow = m.And(*[abs(x) > 10 for x in q])
        if m.sym:
            tenth = Fraction(1, 10)
        else:
            tenth = .1
        tv = []
        for i in range(n):
            if i == bad:
                tv.append(False)
                continue
            x = tenth * b[i]
            tv.append(m.And(x > 2 * om, *[c * x > abs(y) for y in w]))
            if not m.sym:       # keep away from the boundary of a comparison
                m.assume(abs(x - 2 * om) > 1e-9)
                for y in w:
                    m.assume(abs(c * x - abs(y)) > 1e-9)
        try:
            r = o.get_masking_info_tar_validity()
        except ns.PhysicsError:
            m.true('a triad on the slow manifold with a valid zone is described', m.Or(m.Not(slow), m.Not(m.Or(*tv)), m.And(*tv)))
            m.true('a triad on the slow manifold that is valid everywhere is described', m.Or(m.Not(slow), m.Not(m.And(*tv))))
            return
        m.true('only triads on the slow manifold are described', slow)
        valid, idx, vm, nm, inv = r
        for i in range(n):
            m.true('a zone is valid exactly where the hierarchy holds', m.num(valid[i]) == m.num(tv[i]))
        m.true('fully invalid', m.num(inv) == m.num(m.Not(m.Or(*tv))))
        cv, cn = [0] * n, [0] * n
        for s in vm:
            if s is not None and not (isinstance(s, slice) and s == slice(None) and bool(inv)):
                for i in range(n)[s]:
                    cv[i] += 1
        for s in nm:
            if s is not None:
                for i in range(n)[s]:
                    cn[i] += 1
        for i in range(n):
            m.true('a valid zone is in one validity mask', cv[i] == m.num(tv[i]))
            m.true('an invalid zone is in one non-validity mask', cn[i] == m.num(m.Not(tv[i])))
        # the limits of the non-validity zones are those of the masks
        m.true('one pair of limits for each non-validity mask', len(idx) == len(nm))
        for (lo, hi), s in zip(idx, nm):
            k = range(n)[s]
            m.true('an invalid zone has a radius', len(k) > 0)
            if len(k) == 0:
                continue
            m.true('lower limit', lo == k[0])
            m.true('upper limit', hi == min(k[-1] + 1, n - 1))
    return f


def stubs(mode):
    return {}


def cases(tier):
    T = dict(quick=150, thorough=600)[tier]
    N = dict(quick=[2, 3, 4], thorough=[2, 3, 4, 5, 6])[tier]
    r = []
    for which in ('solver', 'profile'):
        for n in N:
            r.append(Case(f'{which}, {n} zones', zones(which, n), seconds=T, max_paths=3000, bounds=f'{n} radial zones; Brunt-Vaisala frequency in [0, 100], |mode frequency| <= 20, rotation in [0, 20]'))
        r.append(Case(f'{which}, convective zone', zones(which, 3, True), seconds=T, max_paths=3000, bounds='3 radial zones, one of them convective'))
    return r
