"""C03: limb darkening follows the Eddington law at every point."""
from fractions import Fraction

from .c01 import fl
from .common import Case
from .cpp import guarded, scheduled, stubs

TECHNIQUE = 'symbolic execution of the C++ sources (threads included) with a recording number type, claims decided by z3'
LEVEL = 'bounded'
NOTE = 'real arithmetic; 0 to 6 points (quick), 12 (thorough); slices of larger arrays; threads interleaved at up to one (thorough: two) places'
ASSUMPTIONS = ['floating-point rounding is not modelled', 'the C++ sources are executed with a recording number type, each array in its own heap block under the address sanitizer']
BUDGET = {'quick': 300, 'thorough': 3000}


def law(m, n, name, para, threads, sched=0):
    ldf = m.entry('ld_funcs', 'ldf')
    mu = [m.real(f'mu{i}') for i in range(n)]
    old = [m.real(f'old{i}') for i in range(n)]
    X = fl(m, mu)

    def go():
        R = fl(m, old)
        guarded(m, 'compute', lambda: ldf.compute(X, R, name, threads, para))
        return R
    R = scheduled(m, go, sched) if sched else go()
    m.eq('limb darkening', R, [1 + m.const(Fraction(3, 2)) * x for x in mu], scale=1)
    m.eq('points are not changed', X, fl(m, mu))


def slices(m, sx, sr, para):
    """Points and results that are parts of larger arrays."""
    ldf = m.entry('ld_funcs', 'ldf')
    mu = [m.real(f'mu{i}') for i in range(9)]
    old = [m.real(f'old{i}') for i in range(9)]
    X, R = fl(m, mu), fl(m, old)
    a, b = X[sx], R[sr]
    n = min(len(a), len(b))
    a, b = a[:n], b[:n]
    ix, ir = list(range(9))[sx][:n], list(range(9))[sr][:n]
    try:
        guarded(m, 'compute', lambda: ldf.compute(a, b, 'eddington', 2, para))
    except ValueError:
        m.true('only arrays with gaps are refused', (sx.step or 1) != 1 or (sr.step or 1) != 1)
        return
    want = list(old)
    for i, j in zip(ix, ir):
        want[j] = 1 + m.const(Fraction(3, 2)) * mu[i]
    m.eq('limb darkening in a larger array', R, want, scale=1)
    m.eq('points are not changed', X, fl(m, mu))


def cases(tier):
    q = tier == 'quick'
    top = 6 if q else 12
    r = []
    for name in ('eddington', 'other'):
        for para, threads in ((False, 1), (True, 2), (True, 4)):
            r.append(Case(f'{name} {"parallel" if para else "serial"} {threads}', lambda m, name=name, para=para, threads=threads: law(m, m.pick('n', range(top + 1)), name, para, threads),
                          stubs, bounds=f'0 to {top} points, all values, {threads} threads'))
    for k, (sx, sr) in enumerate(((slice(2, 6), slice(0, 9)), (slice(0, 9, 2), slice(0, 9)), (slice(0, 9), slice(1, 9, 3)), (slice(1, 9, 2), slice(0, 9, 2)), (slice(8, None, -1), slice(0, 9)))):
        for para in (False, True):
            r.append(Case(f'slices {k} {"parallel" if para else "serial"}', lambda m, sx=sx, sr=sr, para=para: slices(m, sx, sr, para), stubs, bounds='parts of arrays of 9 points'))
    r.append(Case('interleaved', lambda m: law(m, 4, 'eddington', True, 2, 1 if q else 2), stubs, max_paths=400 if q else 6000, seconds=150 if q else 1200, samples=3,
                  bounds='4 points, 2 threads, every place of a preemption'))
    return r
