"""Selection rules of the quadratic coupling."""
from .common import Case, Obj

LEVEL = 'model_checking'
ASSUMPTIONS = ['a triad is conjugated by the given pattern; a missing pattern or a bare truth value stands for conjugating the first mode only']
GEN = 'aesolver.pre_checks.generic.generic_quadratic_checks'
THR = 'aesolver.pre_checks.specific.three_mode_checks'
M = 60


def modes(m, n, bound=M):
    ls = m.ints('l', n, 0, bound)
    ms = m.ints('m', n, -bound, bound)
    for a, b in zip(ls, ms):
        m.assume(m.And(b <= a, -1 * b <= a))
    return list(ls), list(ms)


def admitted(m, l, mm, conj):
    s = sum([-1 * x if c else x for x, c in zip(mm, conj)][1:], -1 * mm[0] if conj[0] else mm[0])
    k = [a - m.absv(b) for a, b in zip(l, mm)]
    return m.And(s == 0, (k[0] + k[1] + k[2]) % 2 == 0), k


PATTERNS = [None, [(True, False, False)], [(False, False, False)], [(True, True, False)], [(False, True, True)], [(False, False, True)], [(True, True, True)],
            [True], [(False, True, False)], [(True, False, True)]]


def one(m):
    l, mm = modes(m, 3)
    C = m.entry(GEN, 'PreCheckQuadratic')
    conj = m.pick('conj', PATTERNS)
    tri = m.pick('triads', [None, [(1, 2, 3)], [(1, 3, 2)], [(2, 1, 3)], [(3, 2, 1)]])
    allf = m.pick('all', [True, False])
    o = C([{'l': a, 'm': b} for a, b in zip(l, mm)], triads=tri, conjugation=conj, all_fulfilled=allf)
    t = tri[0] if tri else (1, 2, 3)
    pl, pm = [l[i - 1] for i in t], [mm[i - 1] for i in t]
    pat = (True, False, False) if conj is None or isinstance(conj[0], bool) else conj[0]
    want, k = admitted(m, pl, pm, pat)
    r = o.generic_check()
    m.true('one verdict per triad', allf or len(r) == 1)
    m.true('verdict', m.num(r if allf else r[0]) == m.num(want))
    m.eq('degrees', o.l_list[0], pl)
    m.eq('azimuthal orders', o.m_list[0], pm)
    m.eq('meridional orders', o.k_list[0], k)


def several(m):
    l, mm = modes(m, 6, 30)
    C = m.entry(GEN, 'PreCheckQuadratic')
    tri = [(1, 2, 3), (4, 5, 6), (2, 6, 1)]
    conj = m.pick('conj', [None, [(True, False, False), (False, True, True), (False, False, True)]])
    allf = m.pick('all', [True, False])
    ad = [{'l': a, 'm': b} for a, b in zip(l, mm)]
    r = C(ad, triads=tri, conjugation=conj, all_fulfilled=allf).generic_check()
    want = []
    for i, t in enumerate(tri):
        pat = conj[i] if conj else (True, False, False)
        want.append(admitted(m, [l[j - 1] for j in t], [mm[j - 1] for j in t], pat)[0])
    if allf:
        m.true('all triads', m.num(r) == m.num(m.And(*want)))
    else:
        m.true('number of verdicts', len(r) == 3)
        for i in range(3):
            m.true(f'triad {i + 1}', m.num(r[i]) == m.num(want[i]))


def swap(m):
    """The order of the daughters does not matter."""
    l, mm = modes(m, 3)
    C = m.entry(GEN, 'PreCheckQuadratic')
    ad = [{'l': a, 'm': b} for a, b in zip(l, mm)]
    c = m.pick('conj', [None, [(True, False, False)], [(False, True, True)]])
    r1 = C(ad, conjugation=c).generic_check()
    r2 = C([ad[0], ad[2], ad[1]], conjugation=c).generic_check()
    r3 = C(ad, triads=[(1, 3, 2)], conjugation=c).generic_check()
    m.true('exchanged input', m.num(r1) == m.num(r2))
    m.true('exchanged triad', m.num(r1) == m.num(r3))


def full(m):
    """Pre-check of a triad: selection rules and linear stability together."""
    l, mm = modes(m, 3, 12)
    g1 = m.real('g1', lo=-3, hi=3, ne=0)
    g2, g3 = m.real('g2', lo=-3, hi=3, ne=0), m.real('g3', lo=-3, hi=3, ne=0)
    q = m.real('q', lo=-10, hi=10)
    C, = [m.entry(THR, 'PreCheckThreeModesQuadratic')]
    harm = m.pick('harmonic', [False, True])
    if harm:
        g3 = g2
    ad = [{'l': a, 'm': b} for a, b in zip(l, mm)]
    o = C(ad, Obj(driving_rates=m.arr([g1, g2, g3]), q_factor=q), two_mode_harmonic=harm)
    want, _ = admitted(m, l, mm, (True, False, False))
    g = m.arr([g1, g2, g3])
    P = m.entry('aesolver.stability_checker')
    par, direct = m.And(g1 > 0, g2 < 0, g3 < 0), m.And(g1 < 0, g2 > 0, g3 > 0)
    if par:
        lin = P.check_dziembowski_parametric(g, q) if harm else m.And(P.gss(g), P.check_van_beeck_conditions(g, q))      # decided by C12
    else:
        lin = m.And(direct, P.check_dziembowski_direct(g)) if harm else False
    got = o.check()
    m.true('only parametric triads and direct harmonics are admitted', m.Or(m.Not(got), par, m.And(harm, direct)))
    m.true('verdict', m.num(got) == m.num(m.And(want, lin)))


def harmonic(m):
    """A triad is a two-mode resonance exactly when its daughters are the same mode."""
    S = m.entry('aesolver.solver.quadratic_solver', 'QuadraticAESolver')
    n, l, mm = m.ints('n', 3, -100, 100), m.ints('l', 3, 0, 10), m.ints('m', 3, -10, 10)
    r = S.check_two_mode_sum_resonance([{'n_pg': n[i], 'l': l[i], 'm': mm[i]} for i in range(3)])
    m.true('verdict', m.num(r) == m.num(m.And(n[1] == n[2], l[1] == l[2], mm[1] == mm[2])))


def cases(tier):
    T = dict(quick=120, thorough=600)[tier]
    b = f'|m| <= l <= {M}'
    return [Case('one triad', one, seconds=T, bounds=b + ', all listed conjugation patterns and mode orders', samples=40, max_paths=4000),
            Case('several triads', several, seconds=T, bounds='six modes, three triads, |m| <= l <= 30', max_paths=2000),
            Case('daughters exchanged', swap, seconds=T, bounds=b),
            Case('full pre-check', full, seconds=T, bounds='|m| <= l <= 12', max_paths=2000),
            Case('two-mode resonance', harmonic, seconds=T, bounds='three modes')]
