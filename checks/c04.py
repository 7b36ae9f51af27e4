"""C04: Fornberg's finite differences are exact on polynomials; requests they cannot serve never leave the arrays."""
from fractions import Fraction
from math import factorial

from vlib import fort
from .common import Case

LEVEL = 'bounded'
NOTE = ('the Fortran sources are parsed and interpreted on solver variables: all real grids of up to 6 points (accuracy up to 4, thorough 8 points and accuracy 6), all polynomials; '
        'fixed rational grids up to accuracy 20 and derivative order 7; array indices for all integers, without a bound')
ASSUMPTIONS = ['floating-point rounding is not modelled', 'the subset of Fortran used by the sources is interpreted by vlib/fort.py; counterexamples run on the compiled sources']
BUDGET = {'quick': 300, 'thorough': 3000}
TECHNIQUE = 'symbolic execution of the Fortran sources with z3; index analysis over symbolic integers'


def call(m, label, *a):
    """The derivative, or None when the routine stopped."""
    try:
        return fort.derivative(m, *a)
    except (fort.OutOfBounds, fort.Unread) as e:
        m.true(f'{label}: only elements of the arrays that have a value are used', False)
        if not m.sym:
            m.failed[-1] = (m.failed[-1][0], str(e), 'no such access')
        m.done()
    except fort.FortranStop:
        m.true(f'{label}: the request is served', False)
        m.done()


def poly(c, x, k=0):
    """k-th derivative of the polynomial with coefficients c."""
    r = 0
    for q in range(k, len(c)):
        r = r + c[q] * Fraction(factorial(q), factorial(q - k)) * x ** (q - k) if q > k else r + c[q] * factorial(q)
    return r


def fpoly(c, x, k=0):
    return float(sum(c[q] * factorial(q) / factorial(q - k) * x ** (q - k) for q in range(k, len(c))))


def exact(ia, orders, extra):
    def f(m):
        io = m.pick('order', orders)
        n = ia + 1 + m.pick('extra', extra)
        down = m.pick('descending', [False, True])
        x = [m.real('x', lo=-4, hi=4)]
        for i in range(n - 1):
            g = m.real(f'g{i}', lo=Fraction(1, 4), hi=2)
            x.append(x[-1] - g if down else x[-1] + g)
        # polynomials are linear in their coefficients; the first point is as good an origin as any
        c = [m.real(f'c{k}', lo=-3, hi=3) for k in range(ia + 1)]
        P = poly if m.sym else fpoly
        t = [v - x[0] for v in x]
        du = call(m, 'derivative', io, ia, x, [P(c, v) for v in t])
        m.eq('derivative', list(du), [P(c, v, io) for v in t])
    return f


def fixed(ias):
    """Rational grids, any polynomial."""
    def f(m):
        ia = m.pick('accuracy', ias)
        io = m.pick('order', range(0, 8))
        n = ia + 1 + m.pick('extra', [0, 2])
        step = m.pick('grid', ['uniform', 'stretched'])
        x = [Fraction(0)]
        for i in range(n - 1):
            x.append(x[-1] + (1 if step == 'uniform' else Fraction(4 + (i * i) % 7, 6)))
        x = [v * 2 / x[-1] - 1 for v in x]
        c = [m.real(f'c{k}', lo=-3, hi=3) for k in range(ia + 1)]
        P = poly if m.sym else fpoly
        du = call(m, 'derivative', io, ia, x, [P(c, v if m.sym else float(v)) for v in x])
        m.eq('derivative', list(du), [P(c, v if m.sym else float(v), io) for v in x])
    return f


def data(m):
    """Arbitrary data: the interpolating polynomial of the stencil is differentiated."""
    ia = m.pick('accuracy', [1, 2, 3])
    n = ia + 1
    x = [Fraction(0), Fraction(1), Fraction(3), Fraction(4)][:n]
    u = [m.real(f'u{i}', lo=-5, hi=5) for i in range(n)]
    io = m.pick('order', [0, 1, 2, 3])
    du = call(m, 'derivative', io, ia, x, u)
    # Newton's divided differences
    co, dd = [], list(u)
    for k in range(n):
        co.append(dd[0])
        dd = [(dd[i + 1] - dd[i]) / (x[i + k + 1] - x[i] if m.sym else float(x[i + k + 1] - x[i])) for i in range(len(dd) - 1)]
    p, base = [0] * n, [Fraction(1)]
    for k in range(n):
        for q, b in enumerate(base):
            p[q] = p[q] + co[k] * (b if m.sym else float(b))
        base = [(base[q - 1] if q else 0) - x[k] * (base[q] if q < len(base) else 0) for q in range(len(base) + 1)]
    P = poly if m.sym else fpoly
    m.eq('derivative', list(du), [P(p, v if m.sym else float(v), io) for v in x])


def memory(m):
    """For all integers: no access outside the arrays."""
    k = m.pick('access', range(3))
    io, ia, n = m.integer('iorder', -20, 60), m.integer('iaccuracy', -20, 60), m.integer('n', 0, 80)
    if not m.sym:
        try:
            fort.run_real(int(io), int(ia), [0.5 * i for i in range(int(n))], [1.0 * i for i in range(int(n))])
        except fort.OutOfBounds as e:
            m.true('no access outside the arrays', False)
            m.failed[-1] = (m.failed[-1][0], str(e), 'no such access')
        except fort.FortranStop:
            pass
        return
    import z3
    B = fort.Bounds(fort.program())
    a, b, c = z3.Ints('iorder iaccuracy n')
    B.start('fornberg_grid_derivative', {'iorder': a, 'iaccuracy': b, 'n': c}, {'grid': c, 'u': c, 'du': c}, [c >= 0])
    if B.open:
        m.gap(f'index analysis: {B.open[:3]}')
    if k >= len(B.hits):
        if k:
            m.skip()
        m.true('no access outside the arrays', B.checked > 0)
        return
    h = B.hits[k * (len(B.hits) - 1) // 2]
    s = z3.Solver()
    s.set('timeout', 8000)
    s.add(*h.model[1])
    for lim in ((-3, 25, 40), (-20, 60, 80)):
        s.push()
        s.add(a >= lim[0], b >= lim[0], a <= lim[1], b <= lim[1], c <= lim[2])
        if s.check() == z3.sat:
            mo = s.model()
            v = [mo.eval(x, True).as_long() for x in (a, b, c)]
            m.assume(m.And(io == v[0], ia == v[1], n == v[2]))
            break
        s.pop()
    m.true('no access outside the arrays', False)


def cases(tier):
    th = tier == 'thorough'
    k = dict(seconds=900 if th else 200, timeout_ms=20000)
    out = [Case('array indices', memory, bounds='all integers', **k)]
    for ia in range(1, 7 if th else 5):
        for io in range(0, min(ia + 2, 7)):
            ex = ([0, 1, 2, ia] if ia < 4 else [0, 1]) if th else ([0, 1, 2] if ia < 3 else [0, 1] if ia < 4 else [0])
            out.append(Case(f'any grid, accuracy {ia}, order {io}', exact(ia, [io], ex), bounds=f'{ia + 1} to {ia + 1 + max(ex)} points', **k))
    for ias in ([1, 2, 3, 4, 5, 6], [7, 8, 9, 10], [11, 12, 13], [14, 15, 16], [17, 18], [19, 20]):
        out.append(Case(f'rational grids, accuracy {ias[0]} to {ias[-1]}', fixed(ias), bounds='two grids per size, orders 0 to 7', max_paths=1000, samples=0, **k))
    out.append(Case('any data', data, bounds='up to 4 points', **k))
    return out
