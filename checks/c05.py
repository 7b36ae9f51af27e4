"""C05: profiles of derivatives from the numerical differentiator."""
import contextlib
import io
from fractions import Fraction
from math import factorial

from vlib import fort
from . import quad
from .c04 import fpoly, poly
from .common import Case

LEVEL = 'bounded'
NOTE = 'real arithmetic; all grids of up to 6 points (thorough: 8), all data; interpolation factors 1 to 4'
ASSUMPTIONS = ['floating-point rounding is not modelled', 'numba stencils as their documentation defines them; the Fortran routine interpreted from its sources (C04); linear interpolation of scipy']
BUDGET = {'quick': 300, 'thorough': 3000}

MOD = 'num_deriv.num_deriv'


def stubs(m):
    def make(mode):
        import types
        fnd = types.SimpleNamespace()

        def fornberg_grid_derivative(iorder, iaccuracy, grid, u, du):
            import numpy as np
            if len(grid.shape) != 1 or len(u.shape) != 1 or u.shape[0] != grid.shape[0] or du.shape[0] != grid.shape[0]:
                raise ValueError('fornberg_grid_derivative: shapes')
            if mode != 'sym':
                if du.dtype != np.float64 or not du.flags['F_CONTIGUOUS']:
                    raise ValueError('failed to initialize intent(inout) array')
                r = fort.run_real(iorder, iaccuracy, grid, u)
            else:
                r = fort.interpret(iorder, iaccuracy, [grid[i] for i in range(grid.shape[0])], [u[i] for i in range(u.shape[0])])
            for i, v in enumerate(r):
                du[i] = v
        fnd.fornberg_grid_derivative = fornberg_grid_derivative
        mod = types.ModuleType('myfnd')
        mod.fnd = fnd
        d = {'myfnd': mod, 'scipy.interpolate': quad.interpolator(mode)}
        if mode != 'sym':
            d['numba'] = None
        return d
    return make(m)


def grid(m, n, uniform=False, down=False):
    x = [m.real('x', lo=-4, hi=4)]
    h = m.real('h', lo=Fraction(1, 4), hi=2)
    for i in range(n - 1):
        g = h if uniform or i == 0 else m.real(f'g{i}', lo=Fraction(1, 4), hi=2)
        x.append(x[-1] - g if down else x[-1] + g)
    return x


def diff(m, order, method, x, y, interp=None, **k):
    D = m.entry(MOD, 'NumericalDifferentiator')
    a = {} if interp is None else {'perform_interpolation': True, 'interpolation_factor': interp}
    if interp == 10:
        del a['interpolation_factor']
    d = D(order, **({} if method is None else {'differentiation_method': method}), **a)
    with contextlib.redirect_stdout(io.StringIO()):
        r, info = d.differentiate(x, y, **k)
    m.true('one entry per order', len(r) == order + 1)
    n = x.shape[0]
    for q, v in enumerate(r):
        if v is not None:
            m.true(f'derivative {q}: one value per point', tuple(v.shape) == (n,))
    return r


# method, arguments, uniform grids only, highest degree inside, highest degree at the (first, last) end, points at the ends
SCHEMES = [(None, {}, False, 2, 2, 1), ('gradient', {'edge_order': 2}, False, 2, 2, 1), ('gradient', {'edge_order': 1}, False, 2, 1, 1),
           ('stencil_functions', {}, True, 2, None, 1), ('stencil_functions', {}, False, 1, None, 1),
           ('stencil_functions', {'my_order': 2}, True, 4, None, 2),
           ('stencil_functions', {'my_order': 1, 'my_differencing_type': 'forward'}, False, 1, None, 1),
           ('stencil_functions', {'my_order': 1, 'my_differencing_type': 'backward'}, False, 1, None, 1)]


def exact(k, ns):
    method, kw, uniform, deg, edge, w = SCHEMES[k]

    def f(m):
        n = m.pick('n', ns)
        x = grid(m, n, uniform, m.pick('descending', [False, True]))
        inside = [m.real(f'c{q}', lo=-3, hi=3) for q in range(deg + 1)]
        P = poly if m.sym else fpoly
        t = [v - x[0] for v in x]
        y = [P(inside, v) for v in t]
        X, Y = m.arr(x), m.arr(y)
        order = m.pick('order', [1, 2])
        r = diff(m, order, method, X, Y, **kw)
        m.eq('the profile itself', r[0], y)
        i0 = 0 if kw.get('my_differencing_type') == 'forward' else w
        i1 = n if kw.get('my_differencing_type') == 'backward' else n - w
        for i in range(n):
            if i0 <= i < i1:
                m.eq(f'derivative at point {i}', r[1][i], P(inside, t[i], 1))
            elif edge is not None and edge >= deg:
                m.eq(f'derivative at end {i}', r[1][i], P(inside, t[i], 1))
            elif edge is not None:
                # lower order at the ends: the secant
                a, b = (0, 1) if i == 0 else (n - 2, n - 1)
                m.eq(f'derivative at end {i}', r[1][i], (y[b] - y[a]) / (x[b] - x[a]))
        m.true('higher orders are absent', all(v is None for v in r[2:]))
        m.eq('grid is not changed', X, x)
        m.eq('profile is not changed', Y, y)
    return f


def fornberg(io, ns, order):
    def f(m):
        n = m.pick('n', ns)
        kw = m.pick('arguments', [{}, {'interpolation_order': io}] if io == 4 else [{'interpolation_order': io}])
        x = grid(m, n)
        c = [m.real(f'c{q}', lo=-3, hi=3) for q in range(io + 1)]
        P = poly if m.sym else fpoly
        t = [v - x[0] for v in x]
        X, Y = m.arr(x), m.arr([P(c, v) for v in t])
        r = diff(m, order, 'fornberg', X, Y, **kw)
        for q in range(order + 1):
            m.eq(f'derivative {q}', r[q], [P(c, v, q) for v in t])
        m.eq('grid is not changed', X, x)
        m.eq('profile is not changed', Y, [P(c, v) for v in t])
    return f


def linear(m):
    """The derivative of a sum of profiles is the sum of the derivatives."""
    method, kw, n = m.pick('scheme', [(s[0], s[1], 5) for s in SCHEMES] + [('fornberg', {'interpolation_order': 2}, 4)])
    x = m.arr(grid(m, n, True))
    a, b = m.real('a', lo=-3, hi=3), m.real('b', lo=-3, hi=3)
    y = [m.real(f'y{i}', lo=-5, hi=5) for i in range(n)]
    z = [m.real(f'z{i}', lo=-5, hi=5) for i in range(n)]
    Y, Z, S = (diff(m, 1, method, x, m.arr(v), **kw)[1] for v in (y, z, [a * p + b * q for p, q in zip(y, z)]))
    m.eq('linear', S, [a * p + b * q for p, q in zip(Y, Z)])


def interpolated(k, n, factors):
    """Interpolation between the points: profiles stay on the points, derivatives of straight lines stay exact."""
    method, kw = ([(s[0], s[1]) for s in SCHEMES if not s[2]] + [('fornberg', {'interpolation_order': 2})])[k]

    def f(m):
        fac = m.pick('factor', factors)
        x = grid(m, n)
        y = [m.real(f'y{i}', lo=-5, hi=5) for i in range(n)]
        X = m.arr(x)
        r = diff(m, 1, method, X, m.arr(y), interp=fac, **kw)
        m.eq('the profile itself', r[0], y)
        # inside, the derivative lies in the cone of the two slopes
        s = [(y[i + 1] - y[i]) / (x[i + 1] - x[i]) for i in range(n - 1)]
        c = [m.real('c0', lo=-3, hi=3), m.real('c1', lo=-3, hi=3)]
        r2 = diff(m, 1, method, X, m.arr([c[0] + c[1] * v for v in x]), interp=fac, **kw)
        for i in range(n):
            if 1 <= i < n - 1 or method in ('gradient', None, 'fornberg'):
                m.eq(f'derivative of a line at point {i}', r2[1][i], c[1])
        if fac >= 2 and method in ('gradient', None):
            for i in range(1, n - 1):
                g, h = x[i] - x[i - 1], x[i + 1] - x[i]
                m.eq(f'derivative at point {i}', r[1][i], (s[i - 1] * h + s[i] * g) / (g + h))
            if fac >= 4 or kw.get('edge_order') == 1:
                m.eq('derivative at the first point', r[1][0], s[0])
                m.eq('derivative at the last point', r[1][n - 1], s[n - 2])
    return f


def refused(m):
    """Schemes that do not exist end the program."""
    D = m.entry(MOD, 'NumericalDifferentiator')
    what = m.pick('what', ['method', 'factor', ('forward', 2), ('backward', 2), ('center', 3), 'original'])
    x = m.arr(grid(m, 5, True))
    y = m.reals('y', 5, lo=-3, hi=3)
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            if what == 'method':
                D(1, 'spline')
            elif what == 'factor':
                D(1, 'gradient', True, 2.5)
            elif what == 'original':
                D(1, 'fornberg').differentiate(x, y, original_formulation=True)
            else:
                D(1, 'stencil_functions').differentiate(x, y, my_order=what[1], my_differencing_type=what[0])
        m.true('refused', False)
    except SystemExit:
        m.true('refused', True)


def cases(tier):
    th = tier == 'thorough'
    k = dict(seconds=900 if th else 150, timeout_ms=20000)
    out = []
    for q, s in enumerate(SCHEMES):
        ns = [5, 6, 8] if th else [5, 6]
        if s[0] in (None, 'gradient'):
            ns = [3, 4, 7] if th else [3, 4]
        nm = f'{s[0] or "default"} {" ".join(f"{a}={b}" for a, b in s[1].items())}{" uniform" if s[2] else ""}'
        out.append(Case(nm, exact(q, ns), stubs, bounds=f'{ns} points', **k))
    for io_, ns, order in [(1, [2, 3], 1), (2, [3, 4], 2), (3, [4], 2), (4, [5], 1)] + ([(2, [5], 2), (3, [5], 3), (4, [6], 2), (5, [6], 2)] if th else []):
        out.append(Case(f'fornberg {io_}, {ns} points, order {order}', fornberg(io_, ns, order), stubs, bounds=f'{ns} points', **k))
    out.append(Case('linear', linear, stubs, bounds='5 points', **k))
    for q in range(6 + 1):
        if q < len([s for s in SCHEMES if not s[2]]) + 1:
            out.append(Case(f'interpolated {q}', interpolated(q, 4 if th else 3, [2, 4, 8] if th else [2, 4]), stubs, bounds='3 points (thorough: 4)', **k))
    out.append(Case('refused', refused, stubs, bounds='six requests', **k))
    return out
