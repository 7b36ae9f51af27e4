"""C02: the disc integrals are the limb-darkened quadratures over the visible disc."""
from fractions import Fraction

from .c01 import fl, simpson, trapz
from .common import Case
from .cpp import guarded, scheduled, stubs

TECHNIQUE = 'symbolic execution of the C++ sources (threads included) with a recording number type, claims decided by z3'
LEVEL = 'bounded'
NOTE = 'real arithmetic; grids of up to 5 points (quick), 6 (thorough) in any order, 9 equally spaced ones; threads interleaved at one place'
ASSUMPTIONS = ['floating-point rounding is not modelled', 'the visible part of the grid is equally spaced, as the solver makes it',
               'the C++ sources are executed with a recording number type, each array in its own heap block under the address sanitizer']
BUDGET = {'quick': 300, 'thorough': 3000}


def spec(m, mu, ang, d1, d2, method):
    """mu etc.: the visible points."""
    ld = [1 + m.const(Fraction(3, 2)) * x for x in mu]
    f1 = [x * a * l for x, a, l in zip(mu, ang, ld)]
    f2 = [(2 * x * a + (x * x - 1) * b) * l * x for x, a, b, l in zip(mu, d1, d2, ld)]
    r = []
    for f in (f1, f2):
        if len(mu) < 2:
            r.append(m.const(0))
        elif method == 'simpson' and len(mu) % 2 == 1:
            r.append(simpson(mu[1] - mu[0], f))
        else:
            r.append(trapz(mu, f))
    return r


def compare(m, mu, method, para, threads, sched=0, ldname='eddington', most=None):
    di = m.entry('disc_integrator', 'di')
    n = len(mu)
    ang, d1, d2 = [[m.real(f'{k}{i}') for i in range(n)] for k in ('a', 'd', 'e')]
    A = [fl(m, v) for v in (mu, ang, d1, d2)]

    def go():
        return guarded(m, 'disc integrals', lambda: di.get_integrals(*A, ldname, method, threads, para))
    got = scheduled(m, go, sched) if sched else go()
    vis = [i for i in range(n) if bool(mu[i] >= 0) and bool(mu[i] <= 1)]
    if len(vis) > 2:        # equally spaced
        h = mu[vis[1]] - mu[vis[0]]
        for a, b in zip(vis[1:], vis[2:]):
            m.assume(m.absv(mu[b] - mu[a] - h) <= (0 if m.sym else 1e-9))
    pick = lambda v: [v[i] for i in vis]
    w1, w2 = spec(m, pick(mu), pick(ang), pick(d1), pick(d2), method)
    m.eq('first disc integral', got[0], w1, scale=1)
    m.eq('second disc integral', got[1], w2, scale=1)
    for k, (a, b) in enumerate(zip(A, (mu, ang, d1, d2))):
        m.eq(f'argument {k} is not changed', a, fl(m, b))


def anyorder(m, n, method, para, threads):
    """Up to two visible points anywhere among invisible ones (any grid)."""
    mu = [m.real(f'mu{i}') for i in range(n)]
    compare(m, mu, method, para, threads)


def grid(m, n, method, para, threads, sched=0):
    """An equally spaced grid that reaches beyond the visible disc on both sides."""
    lo = m.real('lo', lo=-3, hi=1)
    h = m.real('h', lo=Fraction(1, 8), hi=1)
    if m.pick('reversed', (False, True)):
        mu = [lo + (n - 1 - i) * h for i in range(n)]
    else:
        mu = [lo + i * h for i in range(n)]
    compare(m, mu, method, para, threads, sched)


def cases(tier):
    q = tier == 'quick'
    r = []
    for method in ('trapz', 'simpson'):
        for para, threads in ((False, 1), (True, 3)):
            nm = f'{method} {"parallel" if para else "serial"}'
            for n in range(0, 4 if q else 5):
                r.append(Case(f'{nm} {n} points anywhere', lambda m, n=n, method=method, para=para, threads=threads: anyorder(m, n, method, para, threads), stubs,
                              max_paths=200, bounds=f'{n} grid points, any values and order (visible ones equally spaced)', samples=8))
            for n in ((5, 9) if q else (5, 8, 9, 12)):
                r.append(Case(f'{nm} grid of {n}', lambda m, n=n, method=method, para=para, threads=threads: grid(m, n, method, para, threads), stubs,
                              max_paths=300, samples=6, bounds=f'{n} equally spaced points that reach beyond the disc, ascending or descending'))
        r.append(Case(f'{method} interleaved', lambda m, method=method: interleaved(m, 3, method, 2, 1 if q else 2), stubs, max_paths=500 if q else 4000, samples=2,
                      seconds=200 if q else 1200, bounds='3 points, 2 threads, every place of a preemption'))
    return r


def interleaved(m, n, method, threads, most):
    mu = [m.const(0), m.const(Fraction(1, 2)), m.const(1)]
    compare(m, mu, method, True, threads, most)
