"""C01: the integrals are the composite trapezoid and Simpson sums."""
from fractions import Fraction

from .common import Case
from .cpp import guarded, scheduled, stubs

TECHNIQUE = 'symbolic execution of the C++ sources (threads included) with a recording number type, claims decided by z3'
LEVEL = 'bounded'
NOTE = 'real arithmetic; 0 to 7 samples (quick), to 11 (thorough); threads interleaved at up to one (thorough: two) places'
ASSUMPTIONS = ['floating-point rounding is not modelled', 'the C++ sources are executed with a recording number type, each array in its own heap block under the address sanitizer',
               'equally spaced integration is only asked for on equally spaced grids']
BUDGET = {'quick': 300, 'thorough': 3000}


def trapz(x, f):
    s = 0
    for i in range(1, len(f)):
        s = s + (x[i] - x[i - 1]) * (f[i] + f[i - 1]) / 2
    return s


def simpson(h, f):
    s = f[0] + f[-1]
    for i in range(1, len(f) - 1):
        s = s + (4 if i % 2 else 2) * f[i]
    return h * s / 3


def integrals(m, n, es, method, para, threads, sched):
    cni = m.entry('num_integrator', 'cni')
    f = [m.real(f'f{i}') for i in range(n)]
    if es:
        x0, h = m.real('x0'), m.real('h', ne=0)
        x = [x0 + i * h for i in range(n)]
    else:
        x = [m.real(f'x{i}') for i in range(n)]
    F, X = fl(m, f), fl(m, x)

    def go():
        return guarded(m, 'integrate', lambda: cni.integrate(method, es, F, X, threads, para))
    got = scheduled(m, go, sched) if sched else go()
    if method == 'simpson' and es and n % 2 == 1 and n >= 3:
        want = simpson(h, f)
    else:
        want = trapz(x, f) if n > 1 else 0
    m.eq('integral', got, m.const(0) + want, scale=1)
    m.eq('integrand is not changed', F, fl(m, f))
    m.eq('grid is not changed', X, fl(m, x))


def fl(m, v):
    return m.arr(list(v)) if m.sym else m.np.array([float(a) for a in v], dtype=float)


def exact(m, n, method, es):
    """Polynomials that the rules integrate exactly."""
    cni = m.entry('num_integrator', 'cni')
    deg = 3 if method == 'simpson' and n % 2 == 1 and es else 1
    c = [m.real(f'c{k}') for k in range(deg + 1)]
    if es:
        a, h = m.real('a'), m.real('h', ne=0)
        x = [a + i * h for i in range(n)]
    else:
        x = list(m.increasing('x', n))
    f = [sum((ck * xi ** k for k, ck in enumerate(c)), m.const(0)) for xi in x]
    got = guarded(m, 'integrate', lambda: cni.integrate(method, es, fl(m, f), fl(m, x), 1, False))
    P = lambda t: sum((ck * t ** (k + 1) / (k + 1) for k, ck in enumerate(c)), m.const(0))
    m.eq(f'integral of a polynomial of degree {deg}', got, P(x[-1]) - P(x[0]), scale=1)


def slices(m, step, method):
    """A part of a larger array is integrated like a copy of it, or refused."""
    cni = m.entry('num_integrator', 'cni')
    f = fl(m, [m.real(f'f{i}') for i in range(6)])
    x = fl(m, [m.real(f'x{i}') for i in range(6)])
    s = slice(1, 4) if step == 1 else slice(0, 6, step)
    try:
        got = guarded(m, 'integrate', lambda: cni.integrate(method, False, f[s], x[s], 1, False))
    except ValueError:
        m.true('only arrays with gaps are refused', step != 1)
        return
    m.eq('integral of a slice', got, trapz(list(x[s]), list(f[s])), scale=1)


def cases(tier):
    top = 7 if tier == 'quick' else 11
    r = []
    for method in ('trapz', 'simpson', 'other'):
        for es in (True, False):
            for para, threads in ((False, 1), (True, 3)):
                def run(m, method=method, es=es, para=para, threads=threads):
                    n = m.pick('n', range(0, top + 1))
                    integrals(m, n, es, method, para, threads, 0)
                r.append(Case(f'{method} {"equal" if es else "free"} {"parallel" if para else "serial"}', run, stubs, max_paths=40,
                              bounds=f'0 to {top} samples, all values; parallel: {threads} threads'))
            if method != 'other':
                r.append(Case(f'{method} {"equal" if es else "free"} exactness', lambda m, method=method, es=es: exact(m, m.pick('n', range(2, top + 1)), method, es),
                              stubs, max_paths=40, bounds=f'2 to {top} samples, all polynomials of the degree the rule integrates exactly'))
    for method in ('trapz', 'simpson'):
        for es in (True, False):
            r.append(Case(f'{method} {"equal" if es else "free"} interleaved', lambda m, method=method, es=es: integrals(m, 5, es, method, True, 2, 1 if tier == 'quick' else 2), stubs,
                          max_paths=300 if tier == 'quick' else 3000, seconds=150 if tier == 'quick' else 900,
                          samples=4, bounds='5 samples, 2 threads, every place of a preemption'))
        for step in (1, 2):
            r.append(Case(f'{method} slice step {step}', lambda m, method=method, step=step: slices(m, step, method), stubs, bounds='slices of arrays of 6 samples'))
    return r
