"""Drives a harness over all paths, lets z3 decide its claims, replays counterexamples.

A harness is a function f(m).  With SymM the inputs it asks for are solver variables and
every claim is decided for all their values (within the path); with ConcM the same
harness runs the real code on concrete numbers."""
import math
import os
import random
import re
import sys
import time
import traceback
from fractions import Fraction

import numpy as np
import z3

from . import loader, npshim, poly, sym
from .loader import HarnessGap, World
from .sym import (Budget, Ctx, PathDead, STATS, SV, SymArray, SymBool, SymComplex, Unsupported, arr, fr)

POLY_S = [20]
REL = Fraction(1, 10 ** 10)       # constants of the sources are read to 10 significant digits


class Reject(Exception):
    """A concrete run left the assumed input region."""


class Done(Exception):
    """The harness ends here; the claims made so far count."""


class Claim:
    __slots__ = ('label', 'kind', 'got', 'want', 'cond', 'scale')

    def __init__(self, label, kind, got=None, want=None, cond=None, scale=None):
        self.label, self.kind, self.got, self.want, self.cond, self.scale = label, kind, got, want, cond, scale


def flat(x):
    if isinstance(x, np.ndarray):
        return [y for y in np.asarray(x).reshape(-1)], x.shape
    if isinstance(x, (list, tuple)):
        out = []
        for y in x:
            out += flat(y)[0]
        return out, (len(out),)
    return [x], ()


def shape_of(x):
    return tuple(np.shape(x)) if isinstance(x, np.ndarray) else (len(x),) if isinstance(x, (list, tuple)) else ()


class Base:
    def skip(self, why=''):
        raise PathDead()

    def done(self):
        raise Done()

    def entry(self, mod, *names):
        return self.world.entry(mod, *names)

    def gap(self, why):
        raise HarnessGap(why)

    def split_ints(self, lo, hi):
        """Integers that result from rounding are split into their values between lo and hi."""
        if self.sym:
            self.ctx.int_split = (lo, hi)

    def fork_minmax(self):
        """Extrema are found by case distinction."""
        if self.sym:
            self.ctx.fork_minmax = True

    def known_root(self, r, n):
        """r is not negative: the n-th root of anything equal to r ** n is r."""
        if self.sym:
            sym.known_root(r, n)

    def cancel_branches(self):
        """Comparisons are brought to a polynomial before they are decided."""
        if self.sym:
            self.ctx.norm_branch = True

    def reals(self, name, n, **k):
        return self.arr([self.real(f'{name}{i}', **k) for i in range(n)])

    def ints(self, name, n, lo, hi):
        return self.arr([self.integer(f'{name}{i}', lo, hi) for i in range(n)])

    def increasing(self, name, n, lo=None, hi=None, gap=Fraction(1, 100)):
        x = [self.real(f'{name}{i}', lo=lo, hi=hi) for i in range(n)]
        for a, b in zip(x, x[1:]):
            self.assume(b - a >= (gap if self.sym else float(gap)))
        return self.arr(x)

    def no_raise(self, label, f):
        """f() must return; an exception raised inside AESolver violates the claim."""
        return f()


class SymM(Base):
    sym = True

    def __init__(self, world, ctx):
        self.world, self.ctx = world, ctx
        self.np = npshim.SHIM
        self.vars = ctx.inputs

    # inputs
    def _var(self, name, mk, dom):
        if name not in self.vars:
            v = mk(name)
            self.vars[name] = (v, dom)
            return v, True
        return self.vars[name][0], False

    def real(self, name, lo=None, hi=None, gt=None, lt=None, ne=None):
        v, new = self._var(name, z3.Real, ('real', lo, hi, gt, lt, ne))
        if new:
            for b, f in ((lo, lambda x: v >= x), (hi, lambda x: v <= x), (gt, lambda x: v > x), (lt, lambda x: v < x), (ne, lambda x: v != x)):
                if b is not None:
                    self.ctx.assume(f(sym.zr(fr(b))))
        return SV(v)

    def integer(self, name, lo=None, hi=None):
        v, new = self._var(name, z3.Int, ('int', lo, hi))
        if new:
            if lo is not None:
                self.ctx.assume(v >= lo)
            if hi is not None:
                self.ctx.assume(v <= hi)
        return SV(v)

    def boolean(self, name):
        v, new = self._var(name, z3.Bool, ('bool',))
        return SymBool(v)

    def pick(self, name, options):
        options = list(options)
        if len(options) == 1:
            return options[0]
        i = self.integer('pick_' + name, 0, len(options) - 1)
        for k in range(len(options) - 1):
            if bool(i == k):
                return options[k]
        return options[-1]

    def cplx(self, name, **k):
        return SymComplex(self.real(name + '_re', **k), self.real(name + '_im', **k))

    def complex(self, a, b):
        return SymComplex(a, b)

    def const(self, x):
        return SV(Fraction(x))

    def arr(self, seq, shape=None):
        return arr(list(seq), shape)

    def structured(self, **fields):
        from .npshim import Structured
        return Structured({k: arr(list(v)) for k, v in fields.items()})

    def assume(self, c):
        if isinstance(c, np.ndarray):
            for x in np.asarray(c).reshape(-1):
                self.ctx.assume(x)
        else:
            self.ctx.assume(c)

    # claims
    def eq(self, label, got, want, scale=None):
        self.ctx.claims.append(Claim(label, 'eq', got, want, scale=scale))

    def true(self, label, cond):
        self.ctx.claims.append(Claim(label, 'true', cond=cond))

    # logic helpers usable in both modes
    def And(self, *xs): return _fold(sym._and, xs, True)
    def Or(self, *xs): return _fold(sym._or, xs, False)
    def Not(self, x): return sym._not(x)
    def ite(self, c, a, b): return sym.ite(c, a, b)
    def sqrt(self, x): return sym.nroot(x, 2)
    def absv(self, x): return abs(x)
    def maximum(self, a, b): return sym.max_(a, b)
    def minimum(self, a, b): return sym.min_(a, b)
    def fn(self, name, *a): return sym.UF[name](*a)
    def isnan(self, x): return sym.isnan_(x)
    def num(self, b): return b.num() if isinstance(b, SymBool) else SV(int(b)) if isinstance(b, (bool, np.bool_)) else b


def _fold(f, xs, unit):
    r = unit
    for x in xs:
        if isinstance(x, np.ndarray) or isinstance(x, (list, tuple)):
            x = _fold(f, flat(x)[0], unit)
        r = f(r, x)
    return r


class ConcM(Base):
    sym = False

    def __init__(self, world, asg):
        self.world, self.asg = world, asg
        self.np = np
        self.failed = []
        self.used = {}
        self.nclaims = 0

    def real(self, name, lo=None, hi=None, gt=None, lt=None, ne=None):
        v = float(self.asg[name]) if name in self.asg else _default_real(lo, hi, gt, lt, ne, name)
        if (lo is not None and v < float(lo)) or (hi is not None and v > float(hi)) or (gt is not None and v <= float(gt)) or (lt is not None and v >= float(lt)) or (ne is not None and v == float(ne)):
            raise Reject(name)
        self.used[name] = v
        return np.float64(v)

    def integer(self, name, lo=None, hi=None):
        v = int(self.asg[name]) if name in self.asg else (lo if lo is not None else 0 if hi is None else hi)
        if (lo is not None and v < lo) or (hi is not None and v > hi):
            raise Reject(name)
        self.used[name] = v
        return v

    def boolean(self, name):
        v = bool(self.asg.get(name, False))
        self.used[name] = v
        return v

    def pick(self, name, options):
        options = list(options)
        if len(options) == 1:
            return options[0]
        return options[self.integer('pick_' + name, 0, len(options) - 1)]

    def cplx(self, name, **k):
        return complex(self.real(name + '_re', **k), self.real(name + '_im', **k))

    def complex(self, a, b):
        return complex(a, b)

    def const(self, x):
        return float(Fraction(x))

    def arr(self, seq, shape=None):
        a = np.array(list(seq))
        return a.reshape(shape) if shape is not None else a

    def structured(self, **fields):
        n = len(next(iter(fields.values())))
        a = np.zeros(n, dtype=[(k, float) for k in fields])
        for k, v in fields.items():
            a[k] = list(v)
        return a

    def assume(self, c):
        if not bool(np.all(c)):
            raise Reject('assumption')

    def eq(self, label, got, want, scale=None):
        self.nclaims += 1
        g, gs = flat(got)
        w, ws = flat(want)
        if len(g) != len(w):
            self.failed.append((label, f'shape {gs}', f'shape {ws}'))
            return
        sc = abs(float(scale)) if scale is not None else 0.0
        mag = max([abs(complex(y)) for y in w if isinstance(y, (int, float, complex, np.number)) and not sym.isnan_(y)] or [0.0])
        for i, (a, b) in enumerate(zip(g, w)):
            if isinstance(b, (str, bytes)) or b is None or isinstance(a, (str, bytes)) or a is None:
                if a != b:
                    self.failed.append((f'{label}[{i}]', a, b))
                    return
                continue
            a, b = complex(a), complex(b)
            na, nb = math.isnan(a.real) or math.isnan(a.imag), math.isnan(b.real) or math.isnan(b.imag)
            if na and nb:
                continue
            if na or nb or not abs(a - b) <= 1e-6 * max(abs(b), abs(a), 1e-3 * mag, sc) + 1e-12 * max(1.0, sc):
                if a == b:
                    continue
                self.failed.append((f'{label}[{i}]' if gs else label, g[i], w[i]))
                return

    def true(self, label, cond):
        self.nclaims += 1
        if not bool(cond):
            self.failed.append((label, 'false', 'true'))

    def And(self, *xs): return bool(all(np.all(x) for x in xs))
    def Or(self, *xs): return bool(any(np.any(x) for x in xs))
    def Not(self, x): return not bool(x)
    def ite(self, c, a, b): return a if c else b
    def sqrt(self, x): return math.sqrt(x) if x >= 0 else float('nan')
    def absv(self, x): return abs(x)
    def maximum(self, a, b): return max(a, b)
    def minimum(self, a, b): return min(a, b)
    def fn(self, name, *a): return getattr(np, name)(*a)
    def isnan(self, x): return bool(np.isnan(x))
    def num(self, b): return int(b) if isinstance(b, (bool, np.bool_)) else b


def _default_real(lo, hi, gt, lt, ne, name):
    a = float(lo if lo is not None else gt if gt is not None else -1.0)
    b = float(hi if hi is not None else lt if lt is not None else a + 2.0)
    r = random.Random(name).random()
    return a + (b - a) * (0.2 + 0.6 * r)


# ------------------------------------------------------------------ deciding claims
def _reduced(t, cache):
    n, d = poly.ratnorm(t, cache)
    return n, d


def prove_eq(ctx, got, want, cache, hyp_terms=()):
    """z3 shows got == want under the path condition: 'proved' / 'sat?' with the residual."""
    if isinstance(got, SymComplex) or isinstance(want, SymComplex) or isinstance(got, complex) or isinstance(want, complex):
        a, b = SymComplex.lift(got), SymComplex.lift(want)
        if a is None or b is None:
            return 'refuted', None
        r1 = prove_eq(ctx, a.re, b.re, cache)
        if r1[0] != 'proved':
            return r1
        return prove_eq(ctx, a.im, b.im, cache)
    na, nb = sym.isnan_(got), sym.isnan_(want)
    if na or nb:
        return ('proved', None) if na and nb else ('refuted', None)
    if isinstance(got, (str, bytes)) or isinstance(want, (str, bytes)) or got is None or want is None:
        return ('proved', None) if got == want else ('refuted', None)
    if isinstance(got, (bool, np.bool_, SymBool)) and isinstance(want, (bool, np.bool_, SymBool)):
        a, b = SymBool.lift(got), SymBool.lift(want)
        return prove_true(ctx, a == b)
    a, b = SV.lift(got), SV.lift(want)
    if a is None or b is None:
        return 'refuted', None
    if a.q is not None and b.q is not None:
        ok = abs(a.q - b.q) <= REL * max(abs(a.q), abs(b.q))
        return ('proved', None) if ok else ('refuted', None)
    ta, tb = a.rz, b.rz
    diff = None
    if len(ta.sexpr()) + len(tb.sexpr()) < 4000000:
        poly.DEADLINE[0] = time.time() + POLY_S[0]
        try:
            an, ad = poly.ratnorm(ta, cache)
            bn, bd = poly.ratnorm(tb, cache)
            if ad == bd:
                A, B = an, bn
            else:
                A, B = poly._pmul(an, bd), poly._pmul(bn, ad)
            D = poly.cmp_round(A, B, REL)
            if D:
                # reduce the roots on the difference as well as on each side
                A2, B2 = poly.reduce_pair(A, B, cache)
                D = poly.cmp_round(A2, B2, REL)
            diff = poly.to_z3(D)
            STATS.obligations += 1
            s = z3.Solver()
            s.set('timeout', ctx.timeout_ms)
            s.add(diff != 0)
            STATS.q()
            t = STATS.t0()
            r = s.check()
            STATS.t1(t)
            if r == z3.unsat:
                return 'proved', None
            if len(D) > 400:
                diff = None
        except poly.TooBig:
            diff = None
    # with the path condition
    for form in ([diff != 0] if diff is not None else []) + [ta != tb]:
        r = ctx_check(ctx, form, ctx.timeout_ms)
        if r == z3.unsat:
            return 'proved', None
    return 'open', (ta, tb)


def ctx_check(ctx, form, timeout):
    s = ctx.solver
    s.push()
    s.set('timeout', timeout)
    s.add(form)
    STATS.q()
    t = STATS.t0()
    try:
        r = s.check()
    finally:
        STATS.t1(t)
        s.pop()
        s.set('timeout', ctx.timeout_ms)
    return r


def prove_true(ctx, c):
    if isinstance(c, (bool, np.bool_)):
        return ('proved' if c else 'refuted'), None
    if isinstance(c, SymBool):
        c = c.t
    c = z3.simplify(c)
    if z3.is_true(c):
        return 'proved', None
    STATS.obligations += 1
    r = ctx_check(ctx, z3.Not(c), min(ctx.timeout_ms, 2500))
    if r == z3.unsat:
        return 'proved', None
    if r == z3.unknown:
        # sign conditions in normal form
        try:
            poly.DEADLINE[0] = time.time() + POLY_S[0]
            canon = poly.Canon(REL)
            n = canon(c)
            pcs = []
            for x in list(ctx.pc) + list(ctx.side):
                try:
                    pcs.append(canon(x))
                except poly.TooBig:
                    pass
            for hyp in ([], pcs):
                s = z3.Solver()
                s.set('timeout', ctx.timeout_ms)
                s.add(*hyp)
                s.add(z3.Not(n))
                STATS.q()
                t = STATS.t0()
                r2 = s.check()
                STATS.t1(t)
                if r2 == z3.unsat:
                    return 'proved', None
                if r2 == z3.sat and hyp:
                    break
        except poly.TooBig:
            pass
        r = ctx_check(ctx, z3.Not(c), ctx.timeout_ms)
        if r == z3.unsat:
            return 'proved', None
    return 'open', c


def claim_terms(cl):
    """Elementary obligations of a claim: (label, kind, a, b)."""
    if cl.kind == 'true':
        c = cl.cond
        if isinstance(c, np.ndarray):
            return [(f'{cl.label}[{i}]', 'true', x, None) for i, x in enumerate(np.asarray(c).reshape(-1))]
        return [(cl.label, 'true', c, None)]
    g, gs = flat(cl.got)
    w, ws = flat(cl.want)
    if len(g) != len(w):
        return [(f'{cl.label}: {len(g)} values instead of {len(w)}', 'true', False, None)]
    return [(f'{cl.label}[{i}]' if gs or ws else cl.label, 'eq', a, b) for i, (a, b) in enumerate(zip(g, w))]


# ------------------------------------------------------------------ models
def nice(rng, dom):
    k = dom[0]
    if k == 'bool':
        return rng.random() < 0.5
    if k == 'int':
        lo, hi = dom[1], dom[2]
        lo = -6 if lo is None else lo
        hi = lo + 12 if hi is None else hi
        return rng.randint(lo, min(hi, lo + 40) if rng.random() < .7 else hi)
    _, lo, hi, gt, lt, ne = dom
    a = lo if lo is not None else gt
    b = hi if hi is not None else lt
    if a is None and b is None:
        a, b = Fraction(-3), Fraction(3)
    elif a is None:
        b = fr(b)
        a = b - 6
    elif b is None:
        a = fr(a)
        b = a + 4
    a, b = fr(a), fr(b)
    d = rng.choice([8, 16, 64, 1024])
    if b - a > 1000 and a > 0 and rng.random() < .5:
        return Fraction(math.exp(rng.uniform(math.log(a), math.log(b)))).limit_denominator(1000) or a
    v = a + (b - a) * Fraction(rng.randint(1, d - 1), d)
    return v


def zval(v, x):
    if z3.is_bool(v):
        return z3.BoolVal(bool(x))
    if z3.is_int(v):
        return z3.IntVal(int(x))
    return sym.zr(fr(x))


def from_model(m, v):
    r = m.eval(v, model_completion=True)
    if z3.is_bool(v):
        return z3.is_true(r)
    if z3.is_int_value(r):
        return r.as_long()
    if z3.is_rational_value(r):
        return Fraction(r.numerator_as_long(), r.denominator_as_long())
    if z3.is_algebraic_value(r):
        r = r.approx(30)
        return Fraction(r.numerator_as_long(), r.denominator_as_long())
    return 0


def models(ctx, extra, rng, n, deadline, per=1500):
    """Yield assignments of the inputs satisfying the path condition and extra, varied."""
    names = list(ctx.inputs)
    cons = list(ctx.pc) + list(ctx.side) + list(extra)
    fracs = [1.0, 1.0, 1.0, 0.8, 0.6, 0.9, 0.3, 0.5, 0.0, 0.7]
    if not names:
        yield {}
        return
    for i in range(n):
        if time.time() > deadline:
            return
        f = fracs[i % len(fracs)]
        sub = [x for x in names if rng.random() < f] if f < 1 else names
        asg = {x: nice(rng, ctx.inputs[x][1]) for x in sub}
        pairs = [(ctx.inputs[x][0], zval(ctx.inputs[x][0], asg[x])) for x in sub]
        s = z3.Solver()
        s.set('timeout', per)
        dead = False
        for c in cons:
            c = z3.simplify(z3.substitute(c, *pairs)) if pairs else c
            if z3.is_false(c):
                dead = True
                break
            if not z3.is_true(c):
                s.add(c)
        if dead:
            continue
        STATS.q()
        t = STATS.t0()
        r = s.check()
        STATS.t1(t)
        if r != z3.sat:
            continue
        m = s.model()
        out = dict(asg)
        for x in names:
            if x not in out:
                out[x] = from_model(m, ctx.inputs[x][0])
        yield out


# ------------------------------------------------------------------ replays
def repo_frame(tb):
    for f in traceback.extract_tb(tb):
        if f.filename.startswith(loader.REPO + os.sep):
            return f
    return None


def last_repo_frame(tb):
    r = None
    for f in traceback.extract_tb(tb):
        if f.filename.startswith(loader.REPO + os.sep):
            r = f
    return r


_CW = {}


def conc_world(case):
    key = id(case)
    if key not in _CW:
        _CW[key] = World('conc', stubs=case.stubs('conc') if case.stubs else None)
    return _CW[key]


def replay(case, asg, stop=None):
    """Run the harness on the real code.  (status, detail): 'ok', 'fail', 'gap', 'reject'."""
    w = conc_world(case)
    m = ConcM(w, asg)
    old = np.seterr(all='ignore')
    import warnings
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            case.fn(m)
    except Done:
        pass
    except (Reject, PathDead):
        return 'reject', None, m
    except HarnessGap as e:
        return 'gap', str(e), m
    except BaseException as e:      # noqa
        if isinstance(e, (KeyboardInterrupt, MemoryError)):
            raise
        fr_ = last_repo_frame(e.__traceback__)
        fl = [x.filename for x in traceback.extract_tb(e.__traceback__)]
        if fr_ is None:
            if m.failed:        # the claims that follow a broken one may have nothing to look at
                return 'fail', m.failed, m
            return 'gap', f'harness: {type(e).__name__}: {e}', m
        if isinstance(e, case.ok_exc):
            return 'ok', None, m
        if isinstance(e, ImportError):       # a stand-in for a library lacks a part
            return 'gap', f'{type(e).__name__}: {e}', m
        # raised by AESolver code (or by a library it called)
        m.failed.append((f'raises {type(e).__name__}', f'{e} ({os.path.relpath(fr_.filename, loader.REPO)}:{fr_.lineno} in {fr_.name})', 'a result'))
        return 'fail', m.failed, m
    finally:
        np.seterr(**old)
    if m.failed:
        return 'fail', m.failed, m
    return 'ok', None, m


# ------------------------------------------------------------------ the exploration
class Case:
    def __init__(self, name, fn, stubs=None, max_paths=400, seconds=120, timeout_ms=8000, ok_exc=(),
                 bounds='', conc_only=False, samples=24):
        self.name, self.fn, self.stubs = name, fn, stubs
        self.max_paths, self.seconds, self.timeout_ms = max_paths, seconds, timeout_ms
        self.ok_exc, self.bounds = ok_exc, bounds
        self.samples = samples
        self.known = frozenset()      # labels of known findings


FUNS = set()


def monitor_on():
    mon = sys.monitoring
    try:
        mon.use_tool_id(3, 'aesverif')
    except ValueError:
        return

    def start(code, off):
        if code.co_filename.startswith(loader.REPO + os.sep):
            FUNS.add(os.path.relpath(code.co_filename, loader.REPO) + ':' + code.co_qualname)
        return mon.DISABLE
    mon.register_callback(3, mon.events.PY_START, start)
    mon.set_events(3, mon.events.PY_START)


def run_case(case, seed=1):
    sys.setrecursionlimit(200000)
    monitor_on()
    t0 = time.time()
    deadline = t0 + case.seconds
    rng = random.Random(f'{seed}/{case.name}')
    res = {'case': case.name, 'paths': 0, 'proved': 0, 'open': [], 'violations': [], 'notes': [], 'gaps': [],
           'replays': 0, 'branches': 0, 'bounds': case.bounds, 'dead': 0, 'unsupported': 0, 'sample': None}
    STATS.queries, STATS.solver_s, STATS.obligations = 0, 0.0, 0
    stack = [[]]
    seen_viol = set()
    fallback = []
    import warnings
    warnings.simplefilter('ignore')
    import logging
    logging.disable(logging.CRITICAL)
    complete = True

    def add_violation(label, asg, detail):
        if label in seen_viol:
            return
        seen_viol.add(label)
        res['violations'].append({'label': label, 'input': {k: (float(v) if isinstance(v, Fraction) else v) for k, v in asg.items()},
                                  'exact': {k: str(v) for k, v in asg.items()}, 'detail': str(detail)})

    def best(det, what):
        what = re.sub(r'\[\d+\]$', '', what)
        for d in det:
            if re.sub(r'\[\d+\]$', '', d[0]) == what:
                return d
        for d in det:
            if d[0] not in case.known:
                return d
        return det[0]

    def try_models(ctx, extra, n, what, dl):
        """Replay solver models; True when a failing one was found."""
        hit = False
        for asg in models(ctx, extra, rng, n, dl):
            st, det, m = replay(case, asg)
            res['replays'] += 1
            if st == 'fail':
                b = best(det, what)
                add_violation(b[0], asg, b)
                return b[0] not in case.known or what.split('[')[0] == b[0]
            if st == 'gap':
                res['gaps'].append(det)
                return False
        return hit

    world = None
    while stack:
        if time.time() > deadline or res['paths'] >= case.max_paths:
            complete = False
            res['notes'].append(f'exploration stopped with {len(stack)} unexplored prefixes')
            break
        prefix = stack.pop()
        poly.reset()
        ctx = Ctx(prefix, timeout_ms=case.timeout_ms)
        sym.set_ctx(ctx)
        if world is None or True:
            try:
                world = World('sym', stubs=case.stubs('sym') if case.stubs else None)
            except HarnessGap as e:
                res['gaps'].append(str(e))
                break
        m = SymM(world, ctx)
        err = None
        try:
            with np.errstate(all='ignore'):
                case.fn(m)
        except Done:
            pass
        except PathDead:
            stack.extend(ctx.pending)
            res['dead'] += 1
            continue
        except (Unsupported, Budget) as e:
            err = ('unsupported', f'{type(e).__name__}: {e}', e)
        except HarnessGap as e:
            res['gaps'].append(str(e))
            stack.extend(ctx.pending)
            continue
        except RecursionError as e:
            err = ('unsupported', 'recursion', e)
        except BaseException as e:      # noqa
            if isinstance(e, (KeyboardInterrupt, MemoryError)):
                raise
            if case.ok_exc and isinstance(e, case.ok_exc):
                pass
            else:
                err = ('exception', f'{type(e).__name__}: {e}', e)
        stack.extend(ctx.pending)
        res['paths'] += 1
        res['branches'] += len(ctx.decisions)
        if err is not None:
            if os.environ.get('AES_DEBUG'):
                traceback.print_exception(err[2])
            res['unsupported'] += 1
            f = last_repo_frame(err[2].__traceback__)
            tbs = [f'{x.filename.split("/")[-1]}:{x.lineno}' for x in traceback.extract_tb(err[2].__traceback__)][-4:]
            res['notes'].append(f'{err[0]}: {err[1]} at {tbs}')
            try_models(ctx, [], 30, err[1], min(deadline, time.time() + 20))
            # claims recorded before the exception are still decided below
        pcache = {}
        for cl in ctx.claims:
            for label, kind, a, b in claim_terms(cl):
                if label in seen_viol or cl.label in seen_viol:
                    continue
                try:
                    st, t = prove_eq(ctx, a, b, pcache) if kind == 'eq' else prove_true(ctx, a)
                except RecursionError:
                    st, t = 'open', None
                if st == 'proved':
                    res['proved'] += 1
                    if res['sample'] is None:
                        res['sample'] = f'{label}: proved on path {res["paths"]}'
                    continue
                # counterexample
                found = False
                lim = min(deadline, time.time() + 25)
                if st == 'refuted':
                    extras = [[]]
                elif kind == 'true':
                    extras = [[z3.Not(t)]]
                else:
                    if t is None:
                        extras = [[]]
                    else:
                        ta, tb = t if isinstance(t, tuple) else (None, None)
                        if ta is None:
                            extras = [[z3.Not(t)]]
                        else:
                            d = ta - tb
                            mg = [z3.Or(d > e, d < -e) for e in (z3.Q(1, 100), z3.Q(1, 100000))]
                            extras = [[g] for g in mg] + [[ta != tb]]
                for ex in extras:
                    if try_models(ctx, ex, 40, label, lim):
                        found = True
                        break
                    if res['gaps'] or time.time() > lim:
                        break
                if not found:
                    res['open'].append(label)
                    if os.environ.get('AES_DEBUG'):
                        print('OPEN', label, 'path', prefix, '\n  got ', str(a)[:1500], '\n  want', str(b)[:1500])
                    if len(res['open']) > 30:
                        complete = False
                        stack = []
                        break
            if len([v for v in res['violations'] if v['label'] not in case.known]) >= 3:
                stack = []
                break
        # sanity: the encoding agrees with the real run on a model of this path
        if err is None and res['paths'] <= case.samples and all(v['label'] in case.known for v in res['violations']):
            for asg in models(ctx, [], rng, 6, min(deadline, time.time() + 6)):
                st, det, cm = replay(case, asg)
                res['replays'] += 1
                if st == 'fail' and not [c for c in ctx.claims if False]:
                    b = best(det, '')
                    add_violation(b[0], asg, b)
                elif st == 'gap':
                    res['gaps'].append(det)
                if st in ('ok', 'fail', 'gap'):
                    break
        sym.set_ctx(None)
        import gc
        if res['paths'] % 10 == 0:
            gc.collect()
        _drop(world)
    res['complete'] = complete and not stack
    res['wall'] = time.time() - t0
    res['queries'], res['solver_s'], res['obligations'] = STATS.queries, STATS.solver_s, STATS.obligations
    res['functions'] = sorted(FUNS)
    return res


def _drop(world):
    for n in list(world.mods):
        sys.modules.pop(world.tag + n, None)
