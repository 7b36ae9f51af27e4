"""numpy as seen by the executed sources in symbolic mode.

Functions that only meet concrete data are numpy's own; creation functions return
object arrays that can hold symbolic entries, and np.empty returns fresh unconstrained
symbols (uninitialised memory may hold anything)."""
import math
import types
from fractions import Fraction

import numpy as np
import numpy.typing

from . import sym
from .sym import (SV, SymArray, SymBool, SymComplex, UF, Unsupported, arr, elementwise, has_sym, ite,
                  isnan_, out_, toobj, isinf_, fr)

FUNCS = {}


def reg(f):
    FUNCS[f.__name__.rstrip('_')] = f
    return f


def _shape(s):
    if isinstance(s, (int, np.integer)):
        return (int(s),)
    if isinstance(s, SV):
        return (s.__index__(),)
    return tuple(int(x.__index__()) for x in s)


def _kind(dtype):
    if dtype is None:
        return 'f'
    try:
        return np.dtype(dtype).kind
    except TypeError:
        return 'f'


def _zero(kind):
    return {'f': SV(Fraction(0)), 'i': SV(0), 'u': SV(0), 'c': SymComplex(0, 0), 'b': False, 'O': 0}[kind]


def _one(kind):
    return {'f': SV(Fraction(1)), 'i': SV(1), 'u': SV(1), 'c': SymComplex(1, 0), 'b': True, 'O': 1}[kind]


def _fill(shape, v):
    a = np.empty(_shape(shape), dtype=object)
    a.fill(v)
    return a.view(SymArray)


class void:
    """Element of a structured array."""

    def __init__(self, fields):
        self.fields = fields

    def __getitem__(self, k):
        return self.fields[k]


class Structured:
    """Structured array: fields by name, elements by position."""

    def __init__(self, fields):
        self.fields = fields
        self.shape = np.shape(next(iter(fields.values())))

    def __len__(self):
        return self.shape[0]

    def __getitem__(self, k):
        if isinstance(k, str):
            return self.fields[k]
        if isinstance(k, (int, np.integer)):
            return void({n: a[k] for n, a in self.fields.items()})
        return Structured({n: a[k] for n, a in self.fields.items()})


FUNCS['void'] = void


@reg
def zeros(shape, dtype=None, order='C', **k):
    kd = _kind(dtype)
    if kd in 'SUV' or (dtype is not None and kd == 'O' and not isinstance(dtype, np.dtype)):
        return np.zeros(_shape(shape), dtype=dtype)
    if kd == 'O':                       # the type of an array with symbolic entries
        kd = 'f'
    return _fill(shape, _zero(kd))


@reg
def ones(shape, dtype=None, order='C', **k):
    kd = _kind(dtype)
    return _fill(shape, _one(kd))


@reg
def empty(shape, dtype=None, order='C', **k):
    kd = _kind(dtype)
    if kd in 'SUVO' and dtype is not None:
        return np.empty(_shape(shape), dtype=dtype)
    a = np.empty(_shape(shape), dtype=object)
    import z3
    c = sym.ctx()
    for i in np.ndindex(a.shape):
        if kd == 'b':
            a[i] = SymBool(z3.Bool(c.newname('uninit')))
        elif kd in 'iu':
            a[i] = SV(z3.Int(c.newname('uninit')))
        elif kd == 'c':
            a[i] = SymComplex(SV(z3.Real(c.newname('uninit'))), SV(z3.Real(c.newname('uninit'))))
        else:
            a[i] = SV(z3.Real(c.newname('uninit')))
    return a.view(SymArray)


def _kd_of(a, dtype):
    if dtype is not None:
        return _kind(dtype)
    a = np.asarray(a)
    if a.dtype != object:
        return a.dtype.kind
    flat = a.reshape(-1)
    if len(flat):
        ks = {('c' if isinstance(x, (SymComplex, complex)) else 'b' if isinstance(x, (SymBool, bool, np.bool_)) else
               'i' if isinstance(x, (int, np.integer)) or isinstance(x, SV) and x.is_int else 'f') for x in flat}
        for k in 'cfib':
            if k in ks:
                return k
    return 'f'


@reg
def zeros_like(a, dtype=None, **k):
    return zeros(np.shape(a), {'f': float, 'c': complex, 'i': int, 'u': int, 'b': bool}.get(_kd_of(a, dtype), float))


@reg
def ones_like(a, dtype=None, **k):
    return ones(np.shape(a), {'f': float, 'c': complex, 'i': int, 'u': int, 'b': bool}.get(_kd_of(a, dtype), float))


@reg
def empty_like(a, dtype=None, **k):
    return empty(np.shape(a), {'f': float, 'c': complex, 'i': int, 'u': int, 'b': bool}.get(_kd_of(a, dtype), float))


@reg
def full(shape, fill_value, dtype=None, **k):
    return _fill(shape, fill_value)


@reg
def full_like(a, fill_value, dtype=None, **k):
    return _fill(np.shape(a), fill_value)


def _mk(x, dtype=None):
    if isinstance(x, np.ndarray) and not isinstance(x, np.generic):
        if x.dtype == object:
            r = np.array(x, dtype=object).view(SymArray)
            return r.astype(dtype) if dtype is not None else r
        return np.array(x) if dtype is None else np.array(x, dtype=dtype)
    if hasattr(x, '__iter__') and not isinstance(x, (list, tuple, str, bytes, dict, set, SV)):
        x = list(x)
    if isinstance(x, SV):
        r = np.empty((), dtype=object)
        r[()] = x
        return r.view(SymArray)
    if not has_sym(x):
        return np.array(x) if dtype is None else np.array(x, dtype=dtype)

    def conv(y):
        if isinstance(y, np.ndarray):
            return conv(y.tolist())
        if isinstance(y, (list, tuple)):
            return [conv(z) for z in y]
        return y
    r = np.array(conv(x), dtype=object).view(SymArray)
    if dtype is not None and _kind(dtype) != 'O':
        r = r.astype(dtype)
    return r


@reg
def array(x, dtype=None, copy=True, **k):
    if isinstance(dtype, np.dtype) and dtype.metadata and not has_sym(x):       # the type of an array with symbolic entries
        r = np.array(np.array(x, dtype=dtype), dtype=object).view(SymArray)
    else:
        r = _mk(x, dtype)
    nd = k.get('ndmin', 0)
    while r.ndim < nd:
        r = r[None]
    return r


@reg
def asarray(x, dtype=None, **k):
    if isinstance(x, SymArray) and dtype is None:
        return x
    if isinstance(x, np.ndarray) and dtype is None:
        return x
    return _mk(x, dtype)


FUNCS['asanyarray'] = FUNCS['ascontiguousarray'] = FUNCS['asfortranarray'] = asarray


@reg
def copy(x, **k):
    return _mk(x)


@reg
def fromiter(it, dtype=None, count=-1):
    return _mk(list(it), dtype)


@reg
def arange(*a, dtype=None, **k):
    if has_sym(a):
        a = [x.__index__() if isinstance(x, SV) and x.is_int else x for x in a]
        if has_sym(a):
            raise Unsupported('arange with symbolic reals')
    return np.arange(*a, dtype=dtype)


@reg
def linspace(start, stop, num=50, endpoint=True, retstep=False, dtype=None, axis=0, **k):
    if not has_sym([start, stop, num]):
        return np.linspace(start, stop, num, endpoint=endpoint, retstep=retstep, dtype=dtype)
    n = num.__index__()
    d = n - 1 if endpoint else n
    step = (stop - start) / d
    r = arr([start + step * i for i in range(n)])
    if endpoint and n > 1:
        r[n - 1] = stop
    return (r, step) if retstep else r


@reg
def logspace(start, stop, num=50, endpoint=True, base=10.0, dtype=None, axis=0):
    if not has_sym([start, stop, num]):
        return np.logspace(start, stop, num, endpoint=endpoint, base=base, dtype=dtype)
    n = num.__index__() - 1
    if base != 10 or not endpoint or n < 1:
        raise sym.Unsupported('logspace')
    a, b = [SV.lift(x) for x in (start, stop)]
    for x in (a, b):
        if x.z.decl().name() != 'log10':
            raise sym.Unsupported('logspace between values that are not logarithms')
    a, b = SV(a.z.arg(0)), SV(b.z.arg(0))
    # 10**log10(x) is x
    return arr([a] + [sym.root_of(a ** (n - i) * b ** i, n) for i in builtins_range(1, n)] + [b])


@reg
def where(c, *ab):
    if not ab:
        if isinstance(c, SymArray):
            return c.nonzero()
        return np.where(c)
    if not has_sym([c, *ab]):
        return np.where(c, *ab)
    return elementwise(ite, c, *ab)


@reg
def nonzero(c):
    return c.nonzero() if isinstance(c, np.ndarray) else np.nonzero(c)


@reg
def flatnonzero(c):
    return nonzero(c.reshape(-1))[0]


@reg
def count_nonzero(c, axis=None):
    if not has_sym(c):
        return np.count_nonzero(c, axis=axis)
    return sum_(elementwise(lambda x: x != 0 if not isinstance(x, SymBool) else x, _mk(c)), axis=axis)


@reg
def sum_(a, axis=None, dtype=None, **k):
    if not has_sym(a):
        return np.sum(a, axis=axis, dtype=dtype, **k)
    k = {x: y for x, y in k.items() if x in ('out', 'keepdims')}
    return np.asarray(_mk(a)).view(SymArray).sum(axis=axis, **k)


@reg
def nansum(a, axis=None, **k):
    if not has_sym(a):
        return np.nansum(a, axis=axis)
    return sum_(elementwise(lambda x: SV(Fraction(0)) if isnan_(x) else x, _mk(a)), axis=axis)


@reg
def mean(a, axis=None, **k):
    return _mk(a).mean(axis=axis)


@reg
def median(a, **k):
    raise Unsupported('median of symbolic values') if has_sym(a) else None


@reg
def prod(a, axis=None, dtype=None, **k):
    if not has_sym(a):
        return np.prod(a, axis=axis, dtype=dtype, **k)
    return _mk(a).prod(axis=axis, dtype=dtype)


@reg
def all_(a, axis=None, **k):
    if not has_sym(a):
        return np.all(a, axis=axis, **k)
    return _mk(a).all(axis=axis)


@reg
def any_(a, axis=None, **k):
    if not has_sym(a):
        return np.any(a, axis=axis, **k)
    return _mk(a).any(axis=axis)


@reg
def max_(a, axis=None, **k):
    return _mk(a).max(axis=axis) if has_sym(a) else np.max(a, axis=axis, **k)


@reg
def min_(a, axis=None, **k):
    return _mk(a).min(axis=axis) if has_sym(a) else np.min(a, axis=axis, **k)


FUNCS['amax'], FUNCS['amin'] = max_, min_


def _nn(a):
    return arr([x for x in np.asarray(_mk(a)).reshape(-1) if not isnan_(x)])


def _nnaxis(a, axis, f):
    if axis is None:
        return f(_nn(a))
    x = np.moveaxis(np.asarray(_mk(a)), axis, -1)
    out = np.empty(x.shape[:-1], dtype=object)
    for i in np.ndindex(*x.shape[:-1]):
        y = _nn(x[i])
        out[i] = f(y) if len(y) else float('nan')
    return out.view(SymArray)


@reg
def nanmax(a, axis=None, **k):
    return _nnaxis(a, axis, lambda x: x.max()) if has_sym(a) else np.nanmax(a, axis=axis, **k)


@reg
def nanmin(a, axis=None, **k):
    return _nnaxis(a, axis, lambda x: x.min()) if has_sym(a) else np.nanmin(a, axis=axis, **k)


@reg
def argmax(a, axis=None, **k):
    return _mk(a).argmax(axis=axis) if has_sym(a) else np.argmax(a, axis=axis, **k)


@reg
def argmin(a, axis=None, **k):
    return _mk(a).argmin(axis=axis) if has_sym(a) else np.argmin(a, axis=axis, **k)


def _nanarg(a, f):
    a = np.asarray(_mk(a)).reshape(-1)
    idx = [i for i in range(len(a)) if not isnan_(a[i])]
    if not idx:
        raise ValueError('All-NaN slice encountered')
    return idx[f(arr([a[i] for i in idx]))]


@reg
def nanargmax(a, axis=None, **k):
    return _nanarg(a, lambda x: x.argmax()) if has_sym(a) else np.nanargmax(a, axis=axis, **k)


@reg
def nanargmin(a, axis=None, **k):
    return _nanarg(a, lambda x: x.argmin()) if has_sym(a) else np.nanargmin(a, axis=axis, **k)


@reg
def argsort(a, axis=-1, **k):
    return _mk(a).argsort() if has_sym(a) else np.argsort(a, axis=axis, **k)


@reg
def argpartition(a, kth, axis=-1, **k):
    if not has_sym(a):
        return np.argpartition(a, kth, axis=axis, **k)
    a = _mk(a)
    if not -len(a) <= kth < len(a):
        raise ValueError(f'kth(={kth}) out of bounds ({len(a)})')
    return a.argsort()


@reg
def sort(a, axis=-1, **k):
    if not has_sym(a):
        return np.sort(a, axis=axis, **k)
    a = _mk(a)
    if a.ndim == 1:
        return a[a.argsort()]
    if axis in (-1, a.ndim - 1):
        r = a.copy()
        for i in np.ndindex(a.shape[:-1]):
            r[i] = a[i][a[i].argsort()]
        return r
    raise Unsupported('sort axis')


@reg
def unique(a, return_index=False, return_inverse=False, return_counts=False, axis=None, **k):
    if not has_sym(a):
        return np.unique(a, return_index=return_index, return_inverse=return_inverse, return_counts=return_counts, axis=axis)
    if axis is not None or return_inverse:
        raise Unsupported('unique options')
    a = _mk(a).reshape(-1)
    o = a.argsort()
    res, idx, cnt = [], [], []
    for i in o:
        if res and bool(res[-1] == a[i]):
            idx[-1] = min(idx[-1], int(i))
            cnt[-1] += 1
            continue
        res.append(a[i])
        idx.append(int(i))
        cnt.append(1)
    r = (arr(res),)
    if return_index:
        r += (np.array(idx),)
    if return_counts:
        r += (np.array(cnt),)
    return r if len(r) > 1 else r[0]


@reg
def isin(a, b, invert=False, **k):
    if not has_sym([a, b]):
        return np.isin(a, b, invert=invert, **k)
    b = list(np.asarray(_mk(b)).reshape(-1))

    def f(x):
        r = False
        for y in b:
            r = sym._or(r, x == y)
        return sym._not(r) if invert else r
    return elementwise(f, _mk(a))


FUNCS['in1d'] = isin


@reg
def isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    if not has_sym([a, b]):
        return np.isclose(a, b, rtol=rtol, atol=atol, equal_nan=equal_nan)
    return elementwise(lambda x, y: sym._isclose(SV.lift(x), SV.lift(y), rtol, atol), _m(a), _m(b))


def _m(a):
    return _mk(a) if isinstance(a, (list, tuple, np.ndarray)) else a


@reg
def allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    r = isclose(a, b, rtol, atol, equal_nan)
    return all_(r) if isinstance(r, np.ndarray) else r


@reg
def array_equal(a, b, **k):
    a, b = _mk(a), _mk(b)
    if a.shape != b.shape:
        return False
    return all_(a == b)


@reg
def nan_to_num(x, copy=True, nan=0.0, posinf=None, neginf=None):
    if not has_sym(x):
        return np.nan_to_num(x, copy=copy, nan=nan, posinf=posinf, neginf=neginf)
    f = lambda v: SV(fr(nan)) if isnan_(v) else v
    if isinstance(x, np.ndarray):
        r = elementwise(f, x)
        if not copy:
            x[...] = r
            return x
        return r
    return f(x)


@reg
def concatenate(seq, axis=0, **k):
    seq = list(seq)
    if not has_sym(seq):
        return np.concatenate(seq, axis=axis)
    return np.concatenate([toobj(s) for s in seq], axis=axis).view(SymArray)


def _stk(name):
    def f(seq, *a, **k):
        if isinstance(seq, np.ndarray):
            seq = list(seq)
        seq = list(seq)
        if not has_sym(seq):
            return getattr(np, name)(seq, *a, **k)
        return getattr(np, name)([toobj(s) for s in seq], *a, **k).view(SymArray)
    FUNCS[name] = f


for _n in ('vstack', 'hstack', 'column_stack', 'dstack', 'stack'):
    _stk(_n)


@reg
def append(a, v, axis=None):
    if not has_sym([a, v]):
        return np.append(a, v, axis=axis)
    a, v = toobj(a), toobj(v)
    if axis is None:
        return np.concatenate([a.reshape(-1), v.reshape(-1)]).view(SymArray)
    return np.concatenate([a, v], axis=axis).view(SymArray)


def _struct(name):
    """Structural functions: move entries around without looking at them."""
    def f(*args, **kw):
        if not has_sym(args):
            return getattr(np, name)(*args, **kw)
        ar = [np.asarray(_mk(a)) if has_sym(a) else a for a in args]
        r = getattr(np, name)(*ar, **kw)
        if isinstance(r, (list, tuple)):
            return type(r)(out_(x) for x in r)
        return out_(r)
    FUNCS[name] = f


for _n in ('reshape', 'ravel', 'transpose', 'flip', 'roll', 'repeat', 'tile', 'squeeze', 'expand_dims',
           'swapaxes', 'moveaxis', 'atleast_1d', 'atleast_2d', 'diag', 'take', 'delete', 'insert',
           'broadcast_to', 'broadcast_arrays', 'split', 'array_split', 'diagonal', 'trace', 'rot90',
           'fliplr', 'flipud', 'compress', 'tril', 'triu', 'meshgrid', 'tril_indices_from', 'ndim', 'shape', 'size'):
    _struct(_n)


@reg
def dot(a, b, **k):
    if not has_sym([a, b]):
        return np.dot(a, b)
    if not isinstance(a, np.ndarray) and not isinstance(a, (list, tuple)) or not isinstance(b, (np.ndarray, list, tuple)):
        return a * b
    a, b = _mk(a), _mk(b)
    if a.ndim == 1 and b.ndim == 1:
        if len(a) != len(b):
            raise ValueError('shapes not aligned')
        return (a * b).sum()
    return out_(np.dot(toobj(a), toobj(b)))


FUNCS['matmul'] = FUNCS['inner'] = FUNCS['vdot'] = dot


@reg
def outer(a, b, **k):
    return elementwise(lambda x, y: x * y, toobj(a).reshape(-1)[:, None], toobj(b).reshape(-1)[None, :])


@reg
def cross(a, b, **k):
    raise Unsupported('cross')


@reg
def diff(a, n=1, axis=-1, **k):
    if not has_sym(a):
        return np.diff(a, n=n, axis=axis)
    a = _mk(a)
    for _ in range(n):
        a = a[1:] - a[:-1]
    return a


@reg
def cumsum(a, axis=None, **k):
    return _mk(a).cumsum(axis=axis)


@reg
def interp(x, xp, fp, *a, **k):
    if isinstance(fp, Structured):
        raise TypeError('Cannot cast array data to float64')
    if not has_sym([x, xp, fp]):
        return np.interp(x, xp, fp, *a, **k)
    xp, fp = list(_mk(xp)), list(_mk(fp))

    def f(v):
        if bool(v <= xp[0]):
            return fp[0]
        for i in range(1, len(xp)):
            if bool(v <= xp[i]):
                return fp[i - 1] + (fp[i] - fp[i - 1]) * (v - xp[i - 1]) / (xp[i] - xp[i - 1])
        return fp[-1]
    if isinstance(x, (list, tuple, np.ndarray)):
        return elementwise(f, _mk(x))
    return f(x)


@reg
def gradient(f, *varargs, axis=None, edge_order=1):
    if not has_sym([f, *varargs]):
        return np.gradient(f, *varargs, axis=axis, edge_order=edge_order)
    f = _mk(f)
    if f.ndim != 1 or len(varargs) > 1:
        raise Unsupported('gradient nd')
    n = len(f)
    x = varargs[0] if varargs else 1
    if not isinstance(x, np.ndarray):
        x = arr([x * i for i in range(n)])
    out = np.empty(n, dtype=object).view(SymArray)
    for i in range(1, n - 1):
        h1, h2 = x[i] - x[i - 1], x[i + 1] - x[i]
        out[i] = -(h2 / (h1 * (h1 + h2))) * f[i - 1] + ((h2 - h1) / (h1 * h2)) * f[i] + (h1 / (h2 * (h1 + h2))) * f[i + 1]
    if edge_order == 1:
        out[0] = (f[1] - f[0]) / (x[1] - x[0])
        out[-1] = (f[-1] - f[-2]) / (x[-1] - x[-2])
    else:
        h1, h2 = x[1] - x[0], x[2] - x[1]
        out[0] = -(2 * h1 + h2) / (h1 * (h1 + h2)) * f[0] + (h1 + h2) / (h1 * h2) * f[1] - h1 / (h2 * (h1 + h2)) * f[2]
        h1, h2 = x[-2] - x[-3], x[-1] - x[-2]
        out[-1] = h2 / (h1 * (h1 + h2)) * f[-3] - (h2 + h1) / (h1 * h2) * f[-2] + (2 * h2 + h1) / (h2 * (h1 + h2)) * f[-1]
    return out


@reg
def trapz(y, x=None, dx=1.0, axis=-1):
    if not has_sym([y, x, dx]):
        return np.trapz(y, x, dx, axis)
    y = _mk(y)
    d = _mk(x)[1:] - _mk(x)[:-1] if x is not None else dx
    return ((y[1:] + y[:-1]) * d).sum() / 2


FUNCS['trapezoid'] = trapz


@reg
def clip(a, lo, hi, **k):
    return elementwise(lambda x: sym.min_(sym.max_(x, lo), hi), _mk(a)) if isinstance(a, np.ndarray) else sym.min_(sym.max_(a, lo), hi)


@reg
def round_(a, decimals=0, **k):
    if not has_sym(a):
        return np.round(a, decimals)
    s = 10 ** decimals
    f = lambda x: sym.rint_(SV.lift(x) * s) / s
    return elementwise(f, a) if isinstance(a, np.ndarray) else f(a)


FUNCS['around'] = round_


@reg
def real(x):
    return x.real


@reg
def imag(x):
    return x.imag


@reg
def iscomplex(x):
    if not has_sym(x):
        return np.iscomplex(x)
    f = lambda v: (v.im != 0) if isinstance(v, SymComplex) else False
    return elementwise(f, x) if isinstance(x, np.ndarray) else f(x)


@reg
def iscomplexobj(x):
    if isinstance(x, SymComplex):
        return True
    if isinstance(x, SymArray):
        return any(isinstance(v, (complex, SymComplex)) for v in np.asarray(x).reshape(-1))
    return np.iscomplexobj(x)


@reg
def isrealobj(x):
    return not iscomplexobj(x)


@reg
def angle(z, **k):
    if not has_sym(z):
        return np.angle(z, **k)

    def f(x):
        if isinstance(x, SymComplex):
            return sym.uf('arctan2', x.im, x.re)
        x = SV.lift(x)
        c = x >= 0
        if isinstance(c, SymBool):
            if sym.ctx().check(sym.z3.Not(c.t)) == sym.z3.unsat:
                return SV(Fraction(0))
        return ite(c, SV(Fraction(0)), SV(fr(math.pi)))
    return elementwise(f, z) if isinstance(z, np.ndarray) else f(z)


@reg
def polyval(p, x):
    r = 0
    for c in p:
        r = r * x + c
    return r


@reg
def tril_indices(*a, **k):
    return np.tril_indices(*a, **k)


@reg
def savetxt(*a, **k):
    return None


@reg
def einsum(sub, *ops, **k):
    if not has_sym(ops):
        return np.einsum(sub, *ops, **k)
    sub = sub.replace(' ', '')
    ins, _, o = sub.partition('->')
    ins = ins.split(',')
    if '->' not in sub:
        allc = ''.join(ins)
        o = ''.join(sorted(c for c in set(allc) if allc.count(c) == 1))
    ops = [toobj(x) for x in ops]
    dims = {}
    for s, a in zip(ins, ops):
        for ch, n in zip(s, a.shape):
            dims[ch] = n
    free = [c for c in dims if c not in o]
    out = np.empty([dims[c] for c in o], dtype=object)
    for i in np.ndindex(*[dims[c] for c in o]):
        env = dict(zip(o, i))
        acc = SV(Fraction(0))
        for j in np.ndindex(*[dims[c] for c in free]):
            env.update(zip(free, j))
            t = 1
            for s, a in zip(ins, ops):
                t = t * a[tuple(env[c] for c in s)]
            acc = acc + t
        out[i] = acc
    return out_(out) if o else out[()]


@reg
def searchsorted(a, v, side='left', **k):
    if not has_sym([a, v]):
        return np.searchsorted(a, v, side=side, **k)
    a = list(_mk(a))

    def f(x):
        n = 0
        for y in a:
            if bool(y < x if side == 'left' else y <= x):
                n += 1
            else:
                break
        return n
    return arr([SV(f(x)) for x in v]) if isinstance(v, np.ndarray) else f(v)


@reg
def vectorize(f, *a, **k):
    def g(*args):
        return elementwise(f, *[_m(x) for x in args])
    return g


@reg
def errstate(**k):
    return np.errstate(**k)


class _Linalg(types.ModuleType):
    def __init__(self):
        super().__init__('numpy.linalg')

    def norm(self, x, *a, **k):
        if not has_sym(x):
            return np.linalg.norm(x, *a, **k)
        x = _mk(x)
        return sym.nroot((x * x).sum(), 2)

    def det(self, a):
        if not has_sym(a):
            return np.linalg.det(a)
        a = toobj(a)
        return _det([list(r) for r in a])

    def eigvals(self, a):
        if not has_sym(a):
            return np.linalg.eigvals(a)
        return EIGVALS(a)

    def inv(self, a):
        raise Unsupported('linalg.inv')

    def __getattr__(self, name):
        if isinstance(getattr(np.linalg, name), type):
            return getattr(np.linalg, name)
        return _wrapfun(name, getattr(np.linalg, name))


EIG_HOOK = []


def EIGVALS(a):
    if EIG_HOOK:
        return EIG_HOOK[-1](a)
    raise Unsupported('eigenvalues of a symbolic matrix')


def _det(m):
    n = len(m)
    if n == 1:
        return m[0][0]
    r = SV(Fraction(0))
    for j in range(n):
        t = m[0][j] * _det([row[:j] + row[j + 1:] for row in m[1:]])
        r = r + t if j % 2 == 0 else r - t
    return r


class UfuncShim:
    def __init__(self, name, u):
        self.name, self.u = name, u
        self.__name__ = name
        self.nin = u.nin

    def __call__(self, *args, out=None, where=True, **kw):
        if len(args) > self.u.nin:
            out = args[self.u.nin]
            args = args[:self.u.nin]
        if not has_sym(args) and not has_sym(out):
            kw2 = dict(kw)
            if out is not None:
                kw2['out'] = out
            if where is not True:
                kw2['where'] = where
            return self.u(*args, **kw2)
        args = [_m(a) if isinstance(a, (list, tuple)) else a for a in args]
        f = UF.get(self.name)
        if f is None:
            raise Unsupported(f'ufunc {self.name} on symbolic values')
        if any(isinstance(a, np.ndarray) for a in args) or isinstance(where, np.ndarray):
            if where is True:
                r = elementwise(f, *args)
            else:
                o = out[0] if isinstance(out, tuple) else out
                if o is None:
                    o = empty(np.broadcast(*[np.asarray(_mk(x)) for x in args], np.asarray(_mk(where))).shape)

                def masked(w, b, *xs):
                    if not isinstance(w, SymBool):
                        return f(*xs) if w else b
                    try:
                        return ite(w, f(*xs), b)
                    except ZeroDivisionError:
                        return f(*xs) if bool(w) else b
                r = elementwise(masked, where, o, *args)
        else:
            r = f(*args)
        if out is not None:
            if isinstance(out, tuple):
                out = out[0]
            out[...] = r
            return out
        return r

    def reduce(self, a, axis=0, **kw):
        if not has_sym(a):
            return self.u.reduce(a, axis=axis, **kw)
        kw.pop('dtype', None)
        return self.u.reduce(_mk(a), axis=axis, **kw)

    def accumulate(self, a, axis=0, **kw):
        if not has_sym(a):
            return self.u.accumulate(a, axis=axis, **kw)
        return self.u.accumulate(_mk(a), axis=axis)

    def outer(self, a, b, **kw):
        if not has_sym([a, b]):
            return self.u.outer(a, b)
        return self.u.outer(_mk(a), _mk(b))

    def at(self, a, idx, b=None):
        if not has_sym([a, idx, b]):
            return self.u.at(a, idx, b) if b is not None else self.u.at(a, idx)
        f = UF[self.name]
        idx = _mk(idx) if not isinstance(idx, tuple) else idx
        if isinstance(idx, tuple):
            raise Unsupported('ufunc.at tuple')
        b = np.broadcast_to(toobj(b), np.shape(idx))
        for i, v in zip([x.__index__() for x in np.asarray(idx).reshape(-1)], b.reshape(-1)):
            a[i] = f(a[i], v)

    def __getattr__(self, n):
        return getattr(self.u, n)


def _wrapfun(name, f):
    def g(*args, **kw):
        if has_sym(list(args)) or has_sym(list(kw.values())):
            raise Unsupported(f'numpy.{name} on symbolic values')
        return f(*args, **kw)
    g.__name__ = name
    return g


_SAFE = {'dtype', 'finfo', 'iinfo', 'issubdtype', 'seterr', 'geterr', 'ndindex', 'ndenumerate', 'nditer',
         'load', 'genfromtxt', 'loadtxt', 'result_type', 'testing', 'printoptions', 'set_printoptions', 'r_', 'c_', 's_',
         'newaxis', 'typing', 'random', 'ix_'}


@reg
def ndenumerate(a):
    a = _mk(a) if not isinstance(a, np.ndarray) else a
    for i in np.ndindex(a.shape):
        yield i, a[i]


class NpShim(types.ModuleType):
    def __init__(self):
        super().__init__('numpy')
        self.linalg = _Linalg()
        self.__path__ = []

    def __getattr__(self, name):
        f = FUNCS.get(name)
        if f is None:
            f = getattr(np, name)
            if isinstance(f, np.ufunc):
                f = UfuncShim(f.__name__, f)
            elif isinstance(f, type) and issubclass(f, np.generic):
                pass
            elif callable(f) and not isinstance(f, type) and name not in _SAFE:
                f = _wrapfun(name, f)
        setattr(self, name, f)
        return f


def scalar_type(name, kind):
    pass


SHIM = NpShim()


def poisoned_numpy(fillv=float('nan')):
    """numpy for concrete replays: uninitialised arrays hold NaN (they may hold anything)."""
    m = types.ModuleType('numpy')

    def empty(shape, dtype=float, *a, **k):
        r = np.empty(shape, dtype, *a, **k)
        if r.dtype.kind in 'fc':
            r.fill(fillv)
        elif r.dtype.kind in 'iu':
            r.fill(77777 if r.dtype.itemsize > 2 else 77)
        return r

    def empty_like(a, dtype=None, *r, **k):
        r = np.empty_like(a, dtype, *r, **k)
        if r.dtype.kind in 'fc':
            r.fill(fillv)
        elif r.dtype.kind in 'iu':
            r.fill(77777 if r.dtype.itemsize > 2 else 77)
        return r

    class M(types.ModuleType):
        def __getattr__(self, name):
            return getattr(np, name)
    m = M('numpy')
    m.empty, m.empty_like = empty, empty_like
    m.__path__ = []
    return m


FUNCS['product'] = prod
FUNCS['absolute_'] = None
del FUNCS['absolute_']


@reg
def argwhere(a):
    a = _mk(a) if not isinstance(a, np.ndarray) else a
    return np.transpose(a.nonzero())


@reg
def diag_indices(*a, **k):
    return np.diag_indices(*a, **k)


@reg
def ptp(a, axis=None, **k):
    return max_(a, axis=axis) - min_(a, axis=axis)


@reg
def histogram(a, bins=10, range=None, density=None, weights=None):
    if not has_sym([a, bins, range, weights]):
        return np.histogram(a, bins=bins, range=range, density=density, weights=weights)
    a = list(np.asarray(_mk(a)).reshape(-1))
    if isinstance(bins, np.ndarray) or isinstance(bins, (list, tuple)):
        edges = list(_mk(bins))
    else:
        if has_sym([bins]):
            bins = bins.__index__()
        if range is None:
            lo, hi = arr(a).min(), arr(a).max()
        else:
            lo, hi = range
        lo, hi = SV.lift(lo), SV.lift(hi)
        if bool(lo == hi):
            lo, hi = lo - Fraction(1, 2), hi + Fraction(1, 2)
        edges = list(linspace(lo, hi, SV(bins + 1)))
    n = len(edges) - 1
    w = list(np.asarray(_mk(weights)).reshape(-1)) if weights is not None else [SV(1)] * len(a)
    cnt = [SV(0)] * n
    for x, ww in zip(a, w):
        for i in builtins_range(n):
            c = sym._and(x >= edges[i], x < edges[i + 1] if i < n - 1 else x <= edges[i + 1])
            cnt[i] = cnt[i] + ((ww if bool(c) else SV(0)) if sym.ctx().int_split is not None else ite(c, ww, SV(0)))
    r = arr(cnt)
    e = arr(edges)
    if density:
        r = r / (e[1:] - e[:-1]) / r.sum()
    return r, e


builtins_range = range


@reg
def bincount(x, weights=None, minlength=0):
    if not has_sym([x, weights]):
        return np.bincount(x, weights, minlength)
    x = [SV.lift(v) for v in np.asarray(_mk(x)).reshape(-1)]
    m = minlength
    # output length: largest value + 1, concretised
    for v in x:
        if bool(v < 0):
            raise ValueError("'list' argument must have no negative elements")
        k = v.__index__()
        m = max(m, k + 1)
    w = list(_mk(weights)) if weights is not None else [SV(1)] * len(x)
    out = [SV(0)] * m
    for v, ww in zip(x, w):
        k = v.__index__()
        out[k] = out[k] + ww
    return arr(out)
