"""Executes AESolver's real module sources, straight from the working tree.

World('sym'): numpy/math/numba/numexpr/... replaced by symbolic counterparts.
World('conc'): the same sources with the real libraries (replays, validation)."""
import ast
import builtins
import collections.abc
import math
import os
import sys
import types
from fractions import Fraction

import numpy as np

from . import sym, npshim, symset, symstr
from .sym import SV, SymArray, SymBool, SymComplex, Unsupported, has_sym, is_num

REPO = os.environ.get('AES_REPO', '/repo')
ROOTS = ['aesolver', 'gyre-tools', 'hough-func-tools', 'num-tools', 'py-combinations', 'util-tools',
         'pytest-util-tools', 'cpp-numintegrator', 'cpp-ld-funcs', 'cpp-disc-integrator', 'histogram_maker',
         'fornberg-num-deriv', 'VB_et_al_2024_additional_plot_compute_scripts']
# packages whose __init__ drags in the whole program: submodules only
BARE = {'aesolver', 'aesolver.solver', 'aerunners'}


class HarnessGap(Exception):
    """The harness cannot drive this version of the code (inconclusive, never an alarm)."""


# ----------------------------------------------------------------- symbolic builtins
def _types(T):
    if isinstance(T, tuple):
        for t in T:
            yield from _types(t)
    elif isinstance(T, types.UnionType):
        for t in T.__args__:
            yield from _types(t)
    else:
        yield T


def sx_isinstance(x, T):
    if isinstance(x, (SV, SymBool, SymComplex)):
        import numbers
        for t in _types(T):
            if t is object:
                return True
            if not isinstance(t, type):
                continue
            if isinstance(x, SV):
                if issubclass(t, (float, np.floating)) and not x.is_int:
                    return True
                if t in (np.number, np.generic, numbers.Number, numbers.Real):
                    return True
                if issubclass(t, (int, np.integer)) and not issubclass(t, bool) and x.is_int:
                    return True
                if t is SV:
                    return True
            elif isinstance(x, SymBool):
                if issubclass(t, (bool, np.bool_)) or t in (SymBool, int):
                    return True
            elif issubclass(t, (complex, np.complexfloating)) or t is SymComplex:
                return True
        return False
    if isinstance(x, symset.SymSet):
        return any(t in (object, set, symset.SymSet) or t in (collections.abc.Set, collections.abc.Collection, collections.abc.Iterable) for t in _types(T))
    if isinstance(x, symset.SymRange):
        return any(t in (object, range) or t in (collections.abc.Sequence, collections.abc.Collection, collections.abc.Iterable) for t in _types(T))
    return isinstance(x, T)


def _item(x):
    if isinstance(x, np.ndarray) and x.dtype == object and x.size == 1:
        return x.reshape(-1)[0]
    return x


def sx_float(x=0.0):
    x = _item(x)
    if isinstance(x, SymBool):
        x = x.num()
    if isinstance(x, SV):
        return x.real_()
    return float(x)


def sx_int(x=0, *a):
    x = _item(x)
    if isinstance(x, SymBool):
        return x.num()
    if isinstance(x, SV):
        return sym.trunc_(x)
    if isinstance(x, symstr.SymStr) and not a:
        return symstr.to_int(x)
    return int(x, *a)


def sx_bool(x=False):
    return bool(x)


def sx_complex(re=0, im=0):
    if has_sym([re, im]):
        if isinstance(re, SymComplex):
            return re
        return SymComplex(re, im)
    return complex(re, im)


def sx_round(x, n=None):
    x = _item(x)
    if isinstance(x, SV):
        if n:
            s = 10 ** n
            return sym.rint_(x * s) / s
        r = sym.rint_(x)
        return sym.trunc_(r) if n is None else r
    return round(x) if n is None else round(x, n)


def _mm(f, g):
    def h(*args, key=None, default=None, **kw):
        xs = list(args[0]) if len(args) == 1 else list(args)
        if key is not None or not any(isinstance(x, (SV, SymBool)) for x in xs):
            if key is not None:
                kw['key'] = key
            if not xs and default is not None:
                return default
            return f(xs, **kw)
        r = xs[0]
        for x in xs[1:]:
            r = g(r, x)
        return r
    return h


sx_max, sx_min = _mm(max, sym.max_), _mm(min, sym.min_)


def sx_type(*a):
    if len(a) == 1:
        x = a[0]
        if isinstance(x, SV):
            return int if x.is_int else float
        if isinstance(x, SymBool):
            return bool
        if isinstance(x, SymComplex):
            return complex
        if isinstance(x, SymArray):
            return np.ndarray
        if isinstance(x, symstr.SymStr):
            return str
    return type(*a)


def sx_np(f, *a, **k):
    """np.float64(x) and friends."""
    if a and has_sym(a[0]) and isinstance(f, type) and issubclass(f, np.generic):
        kd = np.dtype(f).kind
        if isinstance(a[0], np.ndarray) or isinstance(a[0], (list, tuple)):
            return npshim._mk(a[0]).astype(f)
        return sx_float(a[0]) if kd == 'f' else sx_int(a[0]) if kd in 'iu' else sx_complex(a[0]) if kd == 'c' else a[0]
    return f(*a, **k)


def sx_dtype(x):
    """x.dtype: symbolic arrays have the type that their elements stand for."""
    if isinstance(x, SymArray) and np.ndarray.__getattribute__(x, 'dtype') == object and has_sym(x):
        t = {'c': np.complex128, 'f': np.float64, 'i': np.int64, 'b': np.bool_}.get(npshim._kd_of(x, None))
        if t is not None:
            return np.dtype(t, metadata={'symbolic': True})
    return x.dtype


SX = {'float': sx_float, 'int': sx_int, 'isinstance': sx_isinstance, 'round': sx_round, 'max': sx_max,
      'min': sx_min, 'complex': sx_complex, 'type': sx_type, 'set': symset.sx_set, 'range': symset.sx_range}
NPT = {'float64', 'float32', 'int64', 'int32', 'complex128', 'bool_', 'intp'}


class Xf(ast.NodeTransformer):
    def __init__(self, stored):
        self.stored = stored

    def visit_Attribute(self, n):
        self.generic_visit(n)
        if n.attr == 'dtype' and isinstance(n.ctx, ast.Load):
            return ast.copy_location(ast.Call(ast.copy_location(ast.Name('_sx_dtype', ast.Load()), n), [n.value], []), n)
        return n

    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Name) and n.func.id in SX and n.func.id not in self.stored:
            n.func = ast.copy_location(ast.Name('_sx_' + n.func.id, ast.Load()), n.func)
        elif isinstance(n.func, ast.Name) and n.func.id == 'map' and n.args and isinstance(n.args[0], ast.Name) and n.args[0].id in SX:
            n.args[0] = ast.copy_location(ast.Name('_sx_' + n.args[0].id, ast.Load()), n.args[0])
        elif isinstance(n.func, ast.Attribute) and n.func.attr in NPT:
            n.args = [n.func] + n.args
            n.func = ast.copy_location(ast.Name('_sx_np', ast.Load()), n)
        return n


def transform(src, fname):
    tree = ast.parse(src, fname)
    stored = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            stored.add(n.id)
        elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            stored.add(n.name)
        elif isinstance(n, ast.arg):
            stored.add(n.arg)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                stored.add(a.asname or a.name)
    tree = Xf(stored).visit(tree)
    ast.fix_missing_locations(tree)
    return tree


# ----------------------------------------------------------------- stub modules
class Dummy:
    """Swallows everything (plotting, logging front ends): its behaviour is outside every claim."""

    def __init__(self, name='dummy'):
        object.__setattr__(self, '_n', name)

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return Dummy(f'{self._n}.{n}')

    def __call__(self, *a, **k):
        if len(a) == 1 and callable(a[0]) and not k:
            return a[0]
        return Dummy(self._n + '()')

    def __setattr__(self, n, v): pass
    def __getitem__(self, k): return Dummy(self._n + '[]')
    def __setitem__(self, k, v): pass
    def __iter__(self): return iter(())
    def __enter__(self): return self
    def __exit__(self, *a): return False
    def __mro_entries__(self, bases): return (object,)
    def __or__(self, o): return self
    __ror__ = __or__


class Missing:
    """A compiled component the harness did not provide: importing it is fine, using it is not."""

    def __init__(self, name):
        self.__dict__['_n'] = name

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return Missing(f'{self._n}.{n}')

    def __call__(self, *a, **k):
        raise HarnessGap(f'{self._n} was called')


def missing_module(name):
    m = types.ModuleType(name)
    m.__getattr__ = lambda n: (_ for _ in ()).throw(AttributeError(n)) if n.startswith('__') else Missing(f'{name}.{n}')
    return m


def dummy_module(name):
    m = types.ModuleType(name)
    m.__path__ = []
    m.__getattr__ = lambda n: (_ for _ in ()).throw(AttributeError(n)) if n.startswith('__') else Dummy(f'{name}.{n}')
    return m


def math_shim():
    m = types.ModuleType('math')
    for k in dir(math):
        if not k.startswith('__'):
            f = getattr(math, k)
            if callable(f):
                def g(*a, _f=f, _k=k, **kw):
                    if has_sym(a):
                        raise Unsupported(f'math.{_k} on symbolic values')
                    return _f(*a, **kw)
                setattr(m, k, g)
            else:
                setattr(m, k, f)

    def w(name, fs):
        f0 = getattr(math, name)

        def g(*a, **k):
            a = [_item(x) for x in a]
            return fs(*a, **k) if has_sym(a) else f0(*a, **k)
        setattr(m, name, g)
    w('sqrt', lambda x: sym.nroot(x, 2))
    w('floor', sym.floor_)
    w('ceil', lambda x: -sym.floor_(-SV.lift(x)))
    w('trunc', sym.trunc_)
    w('fabs', abs)
    w('sin', sym.sin_)
    w('cos', sym.cos_)
    w('exp', sym.exp_)
    w('atan', sym.arctan_)
    w('log10', sym.log10_)
    w('log', sym.log_)
    w('pow', lambda a, b: a ** b)
    w('isnan', lambda x: False)
    w('isinf', lambda x: False)
    w('isfinite', lambda x: True)
    w('isclose', lambda a, b, rel_tol=1e-9, abs_tol=0.0: abs(a - b) <= sym.max_(rel_tol * sym.max_(abs(a), abs(b)), abs_tol))
    w('prod', lambda xs: _prod(xs))
    w('fsum', lambda xs: sum(xs))
    w('copysign', lambda a, b: sym.ite(SV.lift(b) >= 0, abs(a), -abs(a)))

    def isqrt(x):
        x = _item(x)
        if not has_sym([x]):
            return math.isqrt(x)
        import z3
        r = z3.Int(sym.ctx().newname('isqrt'))
        sym.ctx().assume(z3.And(r >= 0, r * r <= x.z, (r + 1) * (r + 1) > x.z))
        return SV(r)
    m.isqrt = isqrt
    return m


def _prod(xs):
    r = 1
    for x in xs:
        r = r * x
    return r


class StencilFn:
    """numba.stencil with its documented default: entries whose neighbourhood leaves the
    array are 0."""

    def __init__(self, f):
        self.f = f
        tree = f.__sx_tree__ if hasattr(f, '__sx_tree__') else None
        self.src = tree

    def __call__(self, a, *args, **kw):
        if kw:
            raise Unsupported('stencil arguments')
        rec = []

        class Probe:
            """Records the relative indices (of every array, as numba does)."""

            def __init__(s, seed):
                s.seed = seed

            def __getitem__(s, k):
                k = k if isinstance(k, tuple) else (k,)
                rec.append(tuple(int(x) for x in k))
                return SV(s.seed + sum(Fraction(int(x) * 101 ** (q + 1)) + int(x) ** 2 for q, x in enumerate(k)))
        arrays = [isinstance(v, np.ndarray) for v in (a, *args)]
        self.f(*[Probe(Fraction(7 + 13 * q, 3)) if is_a else v for q, (v, is_a) in enumerate(zip((a, *args), arrays))])
        nd = a.ndim
        lo = [min([0] + [r[d] for r in rec]) for d in range(nd)]
        hi = [max([0] + [r[d] for r in rec]) for d in range(nd)]
        for v in args:
            if isinstance(v, np.ndarray) and (v.ndim != nd or any(p < q for p, q in zip(v.shape, a.shape))):
                raise ValueError('Secondary stencil array does not have the shape of the first stencil input array.')
        out = npshim.zeros(a.shape)

        class View:
            def __init__(s, i, base):
                s.i, s.base = i, base

            def __getitem__(s, k):
                k = k if isinstance(k, tuple) else (k,)
                return s.base[tuple(x + int(y) for x, y in zip(s.i, k))]
        for i in np.ndindex(a.shape):
            if all(i[d] + lo[d] >= 0 and i[d] + hi[d] < a.shape[d] for d in range(nd)):
                out[i] = self.f(*[View(i, np.asarray(v)) if is_a else v for v, is_a in zip((a, *args), arrays)])
        return out


def numba_shim(real_stencil=False):
    m = types.ModuleType('numba')

    def deco(*a, **k):
        if len(a) == 1 and callable(a[0]) and not k:
            return a[0]
        return lambda f: f
    m.njit = m.jit = deco
    m.prange = range
    m.vectorize = deco
    m.guvectorize = deco
    if not real_stencil:
        def stencil(*a, **k):
            if len(a) == 1 and callable(a[0]) and not k:
                return StencilFn(a[0])
            if k and set(k) - {'cval'}:
                raise Unsupported('stencil options')
            return lambda f: StencilFn(f)
        m.stencil = stencil
    else:
        import numba
        m.stencil = numba.stencil
    m.__getattr__ = lambda n: (_ for _ in ()).throw(AttributeError(n)) if n.startswith('__') else Dummy(n)
    return m


def numexpr_shim():
    m = types.ModuleType('numexpr')

    def evaluate(expr, local_dict=None, global_dict=None, out=None, **kw):
        fr_ = sys._getframe(1)
        env = dict(fr_.f_globals if global_dict is None else global_dict)
        env.update(fr_.f_locals if local_dict is None else local_dict)
        S = npshim.SHIM
        fn = {'where': S.where, 'sqrt': S.sqrt, 'abs': S.absolute, 'sum': lambda a, axis=None: S.sum(a, axis=axis),
              'prod': lambda a, axis=None: S.prod(a, axis=axis), 'log10': S.log10, 'log': S.log, 'exp': S.exp,
              'floor': S.floor, 'ceil': S.ceil, 'sin': S.sin, 'cos': S.cos, 'conj': S.conj,
              'max': lambda a, axis=None: S.max(a, axis=axis), 'min': lambda a, axis=None: S.min(a, axis=axis),
              'arctan': S.arctan, 'tan': S.tan, 'real': lambda z: z.real, 'imag': lambda z: z.imag}
        env.update({k: v for k, v in fn.items()})
        tree = ast.parse(expr.strip(), mode='eval')
        env['__sx_cmpchain'] = None
        r = eval(compile(tree, '<numexpr>', 'eval'), {'__builtins__': {}}, _Lift(env))
        if out is not None:
            out[...] = r
            return out
        if not isinstance(r, np.ndarray):
            z = np.empty((), dtype=object)
            z[()] = r
            return z.view(SymArray)
        return r
    m.evaluate = evaluate
    m.set_num_threads = lambda n: n
    m.detect_number_of_cores = lambda: 4
    return m


class _Lift(dict):
    def __getitem__(self, k):
        v = dict.__getitem__(self, k)
        if isinstance(v, (list, tuple)):
            return npshim._mk(v)
        return v


def statistics_shim():
    import statistics
    m = types.ModuleType('statistics')
    for k in dir(statistics):
        if not k.startswith('__'):
            setattr(m, k, getattr(statistics, k))

    def mean(xs):
        xs = list(xs)
        return sum(xs[1:], SV.lift(xs[0])) / len(xs) if has_sym(xs) else statistics.mean(xs)

    def median(xs):
        if has_sym(list(xs)):
            raise Unsupported('median of symbolic values')
        return statistics.median(xs)
    m.mean, m.fmean, m.median = mean, mean, median
    return m


def blas_shim():
    m = types.ModuleType('scipy.linalg.blas')
    M = npshim._mk

    def _sl(x, n, off, inc):
        x = M(x).reshape(-1)
        if n is None:
            n = (len(x) - off + inc - 1) // inc
        return x[off:off + (n - 1) * inc + 1:inc] if n > 0 else x[:0]

    def ddot(x, y, n=None, offx=0, incx=1, offy=0, incy=1):
        a, b = _sl(x, n, offx, incx), _sl(y, n, offy, incy)
        if len(a) != len(b):
            k = min(len(a), len(b))
            a, b = a[:k], b[:k]
        return npshim.dot(a, b)

    def dasum(x, n=None, offx=0, incx=1):
        r = SV(Fraction(0))
        for v in _sl(x, n, offx, incx):
            r = r + abs(v)
        return r

    def daxpy(x, y, n=None, a=1.0, offx=0, incx=1, offy=0, incy=1):
        if isinstance(a, np.ndarray):
            if a.size != 1:
                raise ValueError('daxpy: scalar a expected')
            a = a.reshape(-1)[0]
        x, y = M(x).reshape(-1), y
        if n is None:
            n = (len(x) - offx + incx - 1) // incx
        if isinstance(y, SymArray):
            r = y       # the caller's y is overwritten, as for float64 y in BLAS
        else:
            r = M(y).astype(float).view(SymArray) if isinstance(y, np.ndarray) and y.dtype == object else npshim._mk([SV.lift(v) for v in y])
        for i in range(n):
            r[offy + i * incy] = r[offy + i * incy] + a * x[offx + i * incx]
        return r

    def dscal(a, x, n=None, offx=0, incx=1):
        if isinstance(a, np.ndarray):
            if a.size != 1:
                raise ValueError('dscal: scalar a expected')
            a = a.reshape(-1)[0]
        r = x if isinstance(x, SymArray) else npshim._mk([SV.lift(v) for v in x])
        if n is None:
            n = (len(r) - offx + incx - 1) // incx
        for i in range(n):
            r[offx + i * incx] = r[offx + i * incx] * a
        return r
    m.ddot, m.dasum, m.daxpy, m.dscal = ddot, dasum, daxpy, dscal
    return m


# multiple dispatch on annotations
class MM:
    REG = None


def multimethod_shim():
    import inspect
    import typing
    m = types.ModuleType('multimethod')

    def match(v, t):
        if t is inspect.Parameter.empty or t is typing.Any or t is object:
            return 1
        if t is None or t is type(None):
            return 3 if v is None else 0
        o = typing.get_origin(t)
        if o is typing.Union or isinstance(t, types.UnionType):
            return max(match(v, x) for x in typing.get_args(t))
        if o is typing.Literal:
            return 3 if v in typing.get_args(t) else 0
        if o is not None:
            if not sx_isinstance(v, o):
                return 0
            a = typing.get_args(t)
            if o in (list, set, frozenset) and a:
                return 3 if (not len(v) or match(next(iter(v)), a[0])) else 0
            if o is tuple and a:
                if len(a) == 2 and a[1] is Ellipsis:
                    return 3 if (not v or match(v[0], a[0])) else 0
                return 3 if len(v) == len(a) and all(match(x, y) for x, y in zip(v, a)) else 0
            if o is dict and a and v:
                k0 = next(iter(v))
                return 3 if match(k0, a[0]) and match(v[k0], a[1]) else 0
            return 2
        if isinstance(t, type):
            if isinstance(v, (SV, SymBool, SymComplex)):
                return 3 if sx_isinstance(v, t) else 0
            if type(v) is t:
                return 4
            return 3 if isinstance(v, t) else 0
        return 1

    class DispatchError(TypeError):
        pass

    class multimethod:
        def __new__(cls, func):
            ns = sys._getframe(1).f_locals
            old = ns.get(func.__name__)
            if isinstance(old, multimethod):
                old.funcs.append(func)
                return old
            self = object.__new__(cls)
            self.funcs = [func]
            self.types = {}
            self.__name__ = func.__name__
            self.__doc__ = func.__doc__
            return self

        def __init__(self, func):
            pass

        def register(self, *args):
            if len(args) == 1 and hasattr(args[0], '__annotations__'):
                self.funcs.append(args[0])
                return self if args[0].__name__ == self.__name__ else args[0]

            def deco(func):
                # the given types are aligned with the positional arguments,
                # the instance included, as in the library
                f2 = types.FunctionType(func.__code__, func.__globals__, func.__name__, func.__defaults__, func.__closure__)
                self.types[id(f2)] = args
                self.funcs.append(f2)
                return func
            return deco

        def _hints(self, f):
            if id(f) in self.types:
                return dict(zip(inspect.signature(f).parameters, self.types[id(f)]))
            try:
                return typing.get_type_hints(f)
            except Exception:
                return {}

        def __call__(self, *args, **kw):
            best, bs = None, None
            for f in self.funcs:
                h = self._hints(f)
                ps = [p for p in inspect.signature(f).parameters.values()]
                pos = [p for p in ps if p.kind in (p.POSITIONAL_ONLY, p.POSITIONAL_OR_KEYWORD)]
                if len(args) > len(pos) and not any(p.kind == p.VAR_POSITIONAL for p in ps):
                    continue
                if any(p.default is p.empty and p.name not in kw for p in pos[len(args):]):
                    continue
                sc = [match(a, h.get(p.name, inspect.Parameter.empty)) for a, p in zip(args, pos)]
                if any(s == 0 for s in sc):
                    continue
                if bs is None or sc > bs:
                    best, bs = f, sc
            if best is None:
                raise DispatchError(f'{self.__name__}: no matching overload')
            return best(*args, **kw)

        def __get__(self, obj, owner=None):
            if obj is None:
                return self
            return types.MethodType(self, obj)
    m.multimethod = multimethod
    m.multidispatch = multimethod
    m.DispatchError = DispatchError
    return m


# ----------------------------------------------------------------- the world
_COUNT = [0]
_CODE = {}      # compiled modules of this process
_FOUND = {}


class World:
    def __init__(self, mode, stubs=None, overlay=None):
        self.mode = mode
        _COUNT[0] += 1
        self.tag = f'{mode}{_COUNT[0]}$'
        self.mods = {}
        self.functions = set()
        self.stubs = {}
        import collections
        if mode == 'sym':
            self.stubs.update({'numpy': npshim.SHIM, 'math': math_shim(), 'numba': numba_shim(),
                               'numexpr': numexpr_shim(), 'scipy.linalg.blas': blas_shim(),
                               'multimethod': multimethod_shim(), 'statistics': statistics_shim()})
        else:
            self.stubs.update({'numpy': npshim.poisoned_numpy(), 'numba': numba_shim(True)})
        for d in ('matplotlib', 'simple_poller', 'tqdm', 'pandas'):
            self.stubs[d] = dummy_module(d)
        self.stubs['tqdm'].tqdm = _tqdm
        for d in ('myfnd', 'num_integrator', 'disc_integrator', 'ld_funcs'):
            self.stubs[d] = missing_module(d)
        if stubs:
            self.stubs.update(stubs)
            for k in [k for k, v in self.stubs.items() if v is None]:
                del self.stubs[k]       # the real package
        self.builtins = dict(vars(builtins))
        self.builtins['__import__'] = self._import
        for k, f in SX.items():
            self.builtins['_sx_' + k] = f
        self.builtins['_sx_np'] = sx_np
        self.builtins['_sx_dtype'] = sx_dtype

    # ---- locating
    def find(self, name):
        if name not in _FOUND:
            _FOUND[name] = self._find(name)
        return _FOUND[name]

    def _find(self, name):
        parts = name.split('.')
        for r in ROOTS:
            base = os.path.join(REPO, r, *parts)
            if os.path.isdir(base) and os.path.exists(os.path.join(base, '__init__.py')):
                return os.path.join(base, '__init__.py'), True
            for ext in ('.py', '.pyx'):
                if os.path.exists(base + ext):
                    return base + ext, False
            if os.path.isdir(base) and any(f.endswith('.py') for f in os.listdir(base)):
                return None, True       # namespace package
        return None

    def is_ours(self, top):
        return self.find(top) is not None

    def load(self, name):
        """Execute the module (and its parents) and return it."""
        if name in self.stubs:
            return self.stubs[name]
        if name in self.mods:
            return self.mods[name]
        if '.' in name:
            parent = self.load(name.rpartition('.')[0])
        loc = self.find(name)
        if loc is None:
            raise ModuleNotFoundError(f'No module named {name!r}', name=name)
        path, pkg = loc
        m = types.ModuleType(self.tag + name)
        m.__file__ = path
        m.__package__ = name if pkg else name.rpartition('.')[0]
        if pkg:
            m.__path__ = [os.path.dirname(path)] if path else []
        m.__builtins__ = self.builtins
        m.__dict__['__builtins__'] = self.builtins
        self.mods[name] = m
        sys.modules[self.tag + name] = m
        if path is not None and not (pkg and name in BARE):
            if path.endswith('.pyx'):
                from . import pyx
                src = (path, self.mode) not in _CODE and pyx.translate(path)
                m.__dict__.update(pyx.runtime(self.mode, self))
            else:
                src = None
            try:
                code = _CODE.get((path, self.mode))
                if code is None:
                    if not src:
                        with open(path) as fh:
                            src = fh.read()
                    code = compile(transform(src, path) if self.mode == 'sym' else src, path, 'exec')
                    _CODE[path, self.mode] = code
                exec(code, m.__dict__)
            except BaseException:
                self.mods.pop(name, None)
                sys.modules.pop(self.tag + name, None)
                raise
        if '.' in name:
            setattr(parent, name.rpartition('.')[2], m)
        return m

    def script(self, name, before=None, settings=None):
        """Run a script as the main program; 'before' sees its namespace before the main block, constants assigned in that block are replaced by 'settings'."""
        path, _ = self.find(name)
        with open(path) as fh:
            tree = ast.parse(fh.read(), path)
        main = [n for n in tree.body if isinstance(n, ast.If) and '__name__' in ast.unparse(n.test)]
        if len(main) != 1:
            raise HarnessGap(f'no main block in {path}')
        for n in ast.walk(main[0]):
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and n.targets[0].id in (settings or {}):
                n.value = ast.copy_location(ast.Constant(settings[n.targets[0].id]), n.value)
        rest = ast.unparse([n for n in tree.body if n is not main[0]])
        m = types.ModuleType('__main__')
        m.__file__, m.__package__ = path, ''
        m.__dict__['__builtins__'] = self.builtins
        src = [rest, ast.unparse(main[0])]
        run = [compile(transform(x, path) if self.mode == 'sym' else x, path, 'exec') for x in src]
        exec(run[0], m.__dict__)
        if before:
            before(m.__dict__)
        exec(run[1], m.__dict__)
        return m

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pk = (globals or {}).get('__package__', '')
            for _ in range(level - 1):
                pk = pk.rpartition('.')[0]
            full = f'{pk}.{name}' if name else pk
        else:
            full = name
        top = full.partition('.')[0]
        if full in self.stubs:
            if fromlist:
                return self.stubs[full]
            return self.stubs[top] if top in self.stubs else _nest(self.stubs, full)
        if top in self.stubs and top != 'numpy' and top not in ('numba', 'math'):
            st = self.stubs[top]
            if isinstance(st, types.ModuleType) and hasattr(st, '__getattr__'):
                return dummy_module(full) if fromlist else st
            return st
        if top == 'numpy':
            if fromlist:
                if full == 'numpy.typing':
                    import numpy.typing as npt
                    return npt
                if full == 'numpy.linalg':
                    return self.stubs['numpy'].linalg
                o = self.stubs['numpy']
                for p in full.split('.')[1:]:
                    o = getattr(o, p)
                return o
            return self.stubs['numpy']
        if self.is_ours(top):
            m = self.load(full)
            if fromlist:
                for f in fromlist:
                    if f != '*' and not hasattr(m, f) and hasattr(m, '__path__'):
                        sub = f'{full}.{f}'
                        if full in BARE and self._reexport(full, m, f):
                            continue
                        if sub in self.stubs:
                            setattr(m, f, self.stubs[sub])
                        elif self.find(sub) is not None:
                            self.load(sub)
                return m
            return self.mods[top]
        return builtins.__import__(name, globals, locals, fromlist, level)

    def _reexport(self, full, m, name):
        """A name that the (not executed) initialisation of a package imports."""
        if not getattr(m, '__file__', None):
            return False
        with open(m.__file__) as fh:
            tree = ast.parse(fh.read())
        for n in tree.body:
            if isinstance(n, ast.ImportFrom) and n.level:
                for a in n.names:
                    if (a.asname or a.name) == name:
                        src = self._import(n.module or '', m.__dict__, None, (a.name,), n.level)
                        setattr(m, name, getattr(src, a.name))
                        return True
        return False

    def entry(self, modname, *names):
        """The public entry points a harness needs; a missing one is no alarm."""
        try:
            m = self.load(modname)
        except (ModuleNotFoundError, FileNotFoundError) as e:
            raise HarnessGap(f'{modname}: {e}')
        r = []
        for n in names:
            o = m
            for p in n.split('.'):
                if not hasattr(o, p):
                    raise HarnessGap(f'{modname}.{n} is missing')
                o = getattr(o, p)
            r.append(o)
        return r[0] if len(r) == 1 else r if r else m


def _nest(stubs, full):
    top = full.split('.')[0]
    m = types.ModuleType(top)
    cur = m
    ps = full.split('.')
    for i, p in enumerate(ps[1:], 2):
        nm = '.'.join(ps[:i])
        nxt = stubs.get(nm) or types.ModuleType(nm)
        setattr(cur, p, nxt)
        cur = nxt
    return m


class _Tqdm:
    def __init__(self, it=None, *a, **k):
        self.it = it if it is not None else ()

    def __iter__(self):
        return iter(self.it)

    def __enter__(self): return self
    def __exit__(self, *a): return False
    def update(self, *a): pass
    def close(self): pass
    def set_description(self, *a, **k): pass


def _tqdm(it=None, *a, **k):
    return _Tqdm(it, *a, **k)
