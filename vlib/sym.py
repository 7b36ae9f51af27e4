"""Symbolic values for executing the real Python sources of AESolver.

SymReal/SymInt (class SV) and SymBool wrap z3 terms; SymComplex is a pair.
SymArray is an object-dtype ndarray subclass holding them.  Truth values of
SymBool fork the execution: see explore.py."""
import math
import os
from fractions import Fraction

import numpy as np
import z3

from . import poly


class Unsupported(Exception):
    """The encoding does not reach this construct (check falls back, never alarms)."""


class PathDead(Exception):
    """The current path became infeasible."""


class Budget(Exception):
    """Solver/exploration budget exhausted."""


TOKENS = []


class Ctx:
    """Execution context of one path."""

    def __init__(self, prefix=(), base=(), timeout_ms=10000):
        self.prefix = list(prefix)
        self.decisions = []         # list of (z3 bool, decision)
        self.pc = list(base)        # path condition
        self.side = []              # definedness side conditions (denominators, roots)
        self.sidekeys = set()
        self.claims = []
        self.pos = 0
        self.cache = {}
        self.fresh = 0
        self.inputs = {}
        self.pending = []           # prefixes to explore later
        self.solver = z3.SolverFor('QF_NRA') if False else z3.Solver()
        self.timeout_ms = timeout_ms
        self.solver.set('timeout', timeout_ms)
        for b in base:
            self.solver.add(b)
        self.notes = []
        self.nqueries = 0
        self.poison = set()
        self.int_split = None       # (low, high): integers from rounding are split into their values
        self.fork_minmax = False    # extrema by case distinction
        self.norm_branch = False    # comparisons are cancelled before they are decided
        self.logs = []              # arguments of log10 so far

    def newname(self, stem):
        self.fresh += 1
        return f'{stem}!{self.fresh}'

    def assume(self, c):
        if isinstance(c, SymBool):
            c = c.t
        if isinstance(c, (bool, np.bool_)):
            if not c:
                raise PathDead()
            return
        c = z3.simplify(c)
        if z3.is_true(c):
            return
        if z3.is_false(c):
            raise PathDead()
        self.pc.append(c)
        self.solver.add(c)

    def add_side(self, c):
        c = z3.simplify(c)
        if z3.is_true(c):
            return
        k = c.get_id()
        if k in self.sidekeys:
            return
        self.sidekeys.add(k)
        self.side.append(c)
        self.solver.add(c)

    def check(self, *cs):
        self.nqueries += 1
        STATS.q()
        t = STATS.t0()
        r = self.solver.check(*cs)
        STATS.t1(t)
        return r

    def branch(self, cond):
        """Decide a symbolic condition, forking."""
        cond = z3.simplify(cond)
        if self.norm_branch and not (z3.is_true(cond) or z3.is_false(cond)):
            cond = z3.simplify(cancelled(cond))
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        key = ('br', cond.get_id())
        if key in self.cache:
            return self.cache[key][0]
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            self.pos += 1
        else:
            rt = self.check(cond)
            rf = self.check(z3.Not(cond))
            if rt == z3.unsat and rf == z3.unsat:
                raise PathDead()
            if rt == z3.unsat:
                d = False
            elif rf == z3.unsat:
                d = True
            else:
                d = True
                self.pending.append([x for _, x in self.decisions] + [False])
                if z3.unknown in (rt, rf):
                    self.notes.append('unknown feasibility at a branch: both sides explored')
            self.pos += 1
        self.decisions.append((cond, d))
        self.prefix_done = True
        c = cond if d else z3.Not(cond)
        self.pc.append(c)
        self.solver.add(c)
        self.cache[key] = (d, cond)
        if len(self.decisions) > MAX_DECISIONS:
            raise Budget('more than %d decisions on one path' % MAX_DECISIONS)
        return d


def cancelled(c):
    """The comparisons inside c as the sign of a polynomial, where that is small."""
    k = c.decl().kind()
    if k in (z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT) or k == z3.Z3_OP_ITE and z3.is_bool(c):
        ch = [cancelled(x) for x in c.children()]
        return c.decl()(*ch) if k not in (z3.Z3_OP_AND, z3.Z3_OP_OR) else z3.And(*ch) if k == z3.Z3_OP_AND else z3.Or(*ch)
    if k not in (z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT, z3.Z3_OP_EQ):
        return c
    a, b = c.children()
    if a.sort() != z3.RealSort():
        return c
    from . import poly
    try:
        if k == z3.Z3_OP_EQ and poly.fingerprint(a - b) == 0:
            cache = {}
            (an, ad), (bn, bd) = poly.ratnorm(a, cache), poly.ratnorm(b, cache)
            A, B = poly.reduce_pair(poly._pmul(an, bd), poly._pmul(bn, ad), cache)
            if A == B:
                return z3.BoolVal(True)
        num, den = poly.ratnorm(a - b)
        if den != poly.ONE:
            num = poly._pmul(num, den)
    except poly.TooBig:
        return c
    if len(num) > 60:
        return c
    t = poly.to_z3(num)
    return {z3.Z3_OP_LE: t <= 0, z3.Z3_OP_GE: t >= 0, z3.Z3_OP_LT: t < 0, z3.Z3_OP_GT: t > 0, z3.Z3_OP_EQ: t == 0}[k]


MAX_DECISIONS = 400


class Stats:
    def __init__(self):
        self.queries = 0
        self.solver_s = 0.0

    def q(self):
        self.queries += 1

    def t0(self):
        import time
        return time.time()

    def t1(self, t):
        import time
        self.solver_s += time.time() - t


STATS = Stats()
STATS.obligations = 0
CTX = None


def set_ctx(c):
    global CTX
    CTX = c


def ctx():
    if CTX is None:
        raise RuntimeError('no symbolic context')
    return CTX


# --------------------------------------------------------------- helpers
def fr(x):
    """Exact rational of a concrete number (a float is read as its decimal literal)."""
    if isinstance(x, Fraction):
        return x
    if isinstance(x, (bool, np.bool_)):
        return Fraction(int(x))
    if isinstance(x, (int, np.integer)):
        return Fraction(int(x))
    if isinstance(x, (float, np.floating)):
        f = float(x)
        if math.isnan(f) or math.isinf(f):
            raise Unsupported(f'non-finite constant {f}')
        return Fraction(repr(f))
    raise Unsupported(f'no rational for {type(x)}')


def zr(q):
    return z3.RealVal(str(q.numerator)) if q.denominator == 1 else z3.Q(q.numerator, q.denominator)


def is_num(x):
    return isinstance(x, (int, float, Fraction, np.integer, np.floating, bool, np.bool_))


def wrap(t):
    return SV(t)


class SymBool:
    __slots__ = ('t',)
    __array_ufunc__ = None
    __hash__ = object.__hash__

    def __init__(self, t):
        self.t = t

    def __bool__(self):
        return ctx().branch(self.t)

    @staticmethod
    def lift(x):
        if isinstance(x, SymBool):
            return x.t
        if isinstance(x, (bool, np.bool_)):
            return z3.BoolVal(bool(x))
        if isinstance(x, SV):
            return x.z != 0
        if isinstance(x, (int, np.integer)):
            return z3.BoolVal(bool(x))
        return None

    def _b(self, o, f, sym):
        if isinstance(o, np.ndarray):
            return elementwise(sym, self, o)
        l = SymBool.lift(o)
        if l is None:
            return NotImplemented
        return SymBool(z3.simplify(f(self.t, l)))

    def __and__(self, o):
        return self._b(o, z3.And, lambda a, b: a & b)
    __rand__ = __and__

    def __or__(self, o):
        return self._b(o, z3.Or, lambda a, b: a | b)
    __ror__ = __or__

    def __xor__(self, o):
        return self._b(o, z3.Xor, lambda a, b: a ^ b)
    __rxor__ = __xor__

    def __invert__(self):
        return SymBool(z3.simplify(z3.Not(self.t)))

    def num(self):
        return SV(z3.If(self.t, z3.IntVal(1), z3.IntVal(0)))

    def __add__(self, o): return self.num() + o
    __radd__ = __add__
    def __sub__(self, o): return self.num() - o
    def __rsub__(self, o): return o - self.num()

    def __mul__(self, o):
        if isinstance(o, SymBool):
            return self & o
        if isinstance(o, (bool, np.bool_)):
            return self if o else False
        return self.num() * o
    __rmul__ = __mul__
    def __truediv__(self, o): return self.num() / o

    def __eq__(self, o):
        l = SymBool.lift(o)
        return False if l is None else SymBool(z3.simplify(self.t == l))

    def __ne__(self, o):
        l = SymBool.lift(o)
        return True if l is None else SymBool(z3.simplify(self.t != l))

    def __lt__(self, o): return self.num() < o
    def __gt__(self, o): return self.num() > o
    def __le__(self, o): return self.num() <= o
    def __ge__(self, o): return self.num() >= o

    def all(self, *a, **k): return self
    def any(self, *a, **k): return self
    def copy(self): return self
    def item(self): return self
    def __copy__(self): return self
    def __deepcopy__(self, memo): return self
    def __repr__(self): return f'<B {self.t}>'


def elementwise(f, *args):
    arrs = []
    for a in args:
        if isinstance(a, np.ndarray):
            arrs.append(np.asarray(a).astype(object) if a.dtype != object else np.asarray(a))
        else:
            z = np.empty((), dtype=object)
            z[()] = a
            arrs.append(z)
    r = np.frompyfunc(f, len(arrs), 1)(*arrs)
    if isinstance(r, np.ndarray):
        return r.view(SymArray)
    return r


class SV:
    """Symbolic (or exactly rational) real or integer."""
    __slots__ = ('z', 'q')
    __array_ufunc__ = None

    def __init__(self, v):
        if isinstance(v, z3.ExprRef):
            self.z = v
            self.q = None
            if z3.is_rational_value(v):
                self.q = Fraction(v.numerator_as_long(), v.denominator_as_long())
            elif z3.is_int_value(v):
                self.q = Fraction(v.as_long())
        else:
            q = fr(v)
            self.q = q
            if isinstance(v, (int, np.integer)) and not isinstance(v, (bool, np.bool_)):
                self.z = z3.IntVal(int(v))
            else:
                self.z = zr(q)

    # -- kinds
    @property
    def is_int(self):
        return self.z.sort() == z3.IntSort()

    @property
    def rz(self):
        return z3.ToReal(self.z) if self.is_int and self.q is None else (zr(self.q) if self.is_int else self.z)

    def __hash__(self):
        if self.q is not None:
            return hash(self.q)
        return 0x5ca1ab1e       # equal hashes: containers decide by comparison, which forks

    @staticmethod
    def lift(x):
        if isinstance(x, SV):
            return x
        if isinstance(x, SymBool):
            return x.num()
        if is_num(x):
            if isinstance(x, (float, np.floating)) and (math.isnan(x) or math.isinf(x)):
                return None
            return SV(x if not isinstance(x, (bool, np.bool_)) else int(x))
        return None

    def _bin(self, o, fz, fq, rev=False):
        if isinstance(o, np.ndarray) and not isinstance(o, np.generic):
            if rev:
                return elementwise(fq, o, self)
            return elementwise(fq, self, o)
        if isinstance(o, (complex, np.complexfloating)) or isinstance(o, SymComplex):
            a, b = SymComplex.lift(self), SymComplex.lift(o)
            return fq(b, a) if rev else fq(a, b)
        if isnanf(o):
            return float('nan')
        l = SV.lift(o)
        if l is None:
            return NotImplemented
        a, b = (l, self) if rev else (self, l)
        if a.q is not None and b.q is not None:
            both = a.is_int and b.is_int
            r = fq(a.q, b.q)
            r = Fraction(r)
            if both and r.denominator == 1:
                return SV(int(r))
            return SV(r)
        if a.is_int and b.is_int:
            return SV(z3.simplify(fz(a.z, b.z)) if False else fz(a.z, b.z))
        return SV(fz(a.rz, b.rz))

    def __add__(self, o):
        if isinstance(o, (int, float)) and o == 0:
            return self if not isinstance(o, float) else self.real_()
        return self._bin(o, lambda a, b: a + b, lambda a, b: a + b)

    def __radd__(self, o):
        if isinstance(o, (int, float)) and o == 0:
            return self
        return self._bin(o, lambda a, b: a + b, lambda a, b: a + b, True)

    def __sub__(self, o): return self._bin(o, lambda a, b: a - b, lambda a, b: a - b)
    def __rsub__(self, o): return self._bin(o, lambda a, b: a - b, lambda a, b: a - b, True)

    def __mul__(self, o):
        if is_num(o) and o == 1:
            return self if isinstance(o, (int, np.integer)) else self.real_()
        return self._bin(o, lambda a, b: a * b, lambda a, b: a * b)

    def __rmul__(self, o):
        if is_num(o) and o == 1:
            return self if isinstance(o, (int, np.integer)) else self.real_()
        return self._bin(o, lambda a, b: a * b, lambda a, b: a * b, True)

    def real_(self):
        return SV(self.rz) if self.is_int else self

    def _div(self, o, rev):
        if isinstance(o, np.ndarray) and not isinstance(o, np.generic):
            if rev:
                return elementwise(lambda a, b: a / b, o, self)
            return elementwise(lambda a, b: a / b, self, o)
        if isinstance(o, (complex, np.complexfloating, SymComplex)):
            a, b = SymComplex.lift(self), SymComplex.lift(o)
            return b / a if rev else a / b
        if isnanf(o):
            return float('nan')
        l = SV.lift(o)
        if l is None:
            return NotImplemented
        a, b = (l, self) if rev else (self, l)
        if b.q is not None:
            if b.q == 0:
                raise ZeroDivisionError('symbolic execution divides by the constant zero')
            if a.q is not None:
                return SV(a.q / b.q)
            if b.q == 1:
                return a.real_()
            return SV(a.rz * zr(1 / b.q))
        ctx().add_side(b.rz != 0)
        if a.q is not None and a.q == 0:
            return SV(Fraction(0))
        return SV(a.rz / b.rz)

    def __truediv__(self, o): return self._div(o, False)
    def __rtruediv__(self, o): return self._div(o, True)

    def _idiv(self, o, rev, mod):
        if isinstance(o, np.ndarray) and not isinstance(o, np.generic):
            f = (lambda a, b: a % b) if mod else (lambda a, b: a // b)
            return elementwise(f, o, self) if rev else elementwise(f, self, o)
        l = SV.lift(o)
        if l is None:
            return NotImplemented
        a, b = (l, self) if rev else (self, l)
        if a.q is not None and b.q is not None:
            r = a.q % b.q if mod else a.q // b.q
            return SV(int(r)) if (a.is_int and b.is_int) else SV(Fraction(r))
        if b.q is not None and b.q > 0:
            if a.is_int and b.is_int:
                return SV(a.z % b.z if mod else a.z / b.z)
            fl = z3.ToInt(a.rz / b.rz)
            return SV(a.rz - b.rz * z3.ToReal(fl)) if mod else SV(z3.ToReal(fl))
        # general python floor semantics
        ctx().add_side(b.rz != 0)
        fl = z3.ToInt(a.rz / b.rz)
        if a.is_int and b.is_int:
            return SV(a.z - b.z * fl) if mod else SV(fl)
        return SV(a.rz - b.rz * z3.ToReal(fl)) if mod else SV(z3.ToReal(fl))

    def __floordiv__(self, o): return self._idiv(o, False, False)
    def __rfloordiv__(self, o): return self._idiv(o, True, False)
    def __mod__(self, o): return self._idiv(o, False, True)
    def __rmod__(self, o): return self._idiv(o, True, True)
    def __divmod__(self, o): return self // o, self % o

    def __neg__(self):
        if self.q is not None:
            return SV(int(-self.q)) if self.is_int else SV(-self.q)
        return SV(-self.z)

    def __pos__(self): return self

    def __abs__(self):
        if self.q is not None:
            return SV(int(abs(self.q))) if self.is_int else SV(abs(self.q))
        return SV(z3.If(self.z >= 0, self.z, -self.z))

    def __pow__(self, o, mod=None):
        if isinstance(o, np.ndarray) and not isinstance(o, np.generic):
            return elementwise(lambda a, b: a ** b, self, o)
        if isinstance(o, SV):
            if o.q is None:
                return sympow(self, o)
            e = o.q
        elif is_num(o):
            e = fr(o)
        else:
            return NotImplemented
        if e.denominator > 10 ** 6:         # thirds and the like, rounded
            near = e.limit_denominator(24)
            if abs(near - e) < Fraction(1, 10 ** 14):
                e = near
        if e.denominator == 1:
            n = int(e)
            if n == 0:
                return SV(1)
            if self.q is not None:
                if n < 0 and self.q == 0:
                    raise ZeroDivisionError
                r = self.q ** n
                return SV(int(r)) if (self.is_int and isinstance(o, int) and n > 0) else SV(Fraction(r))
            base = self if (isinstance(o, (int, np.integer)) and n > 0) else self.real_()
            r = base
            for _ in range(abs(n) - 1):
                r = r * base
            return r if n > 0 else SV(Fraction(1)) / r
        root = nroot(self, e.denominator)
        return root ** int(e.numerator)

    def __rpow__(self, o):
        l = SV.lift(o)
        if l is None:
            return NotImplemented
        if self.q is not None:
            return l ** self.q
        return sympow(l, self)

    # -- comparisons
    def _cmp(self, o, fz, fq):
        if isinstance(o, np.ndarray) and not isinstance(o, np.generic):
            return elementwise(fq, self, o)
        if isinstance(o, (float, np.floating)) and math.isinf(o):
            return fq(0, o)
        if isinstance(o, (float, np.floating)) and math.isnan(o):
            return False
        l = SV.lift(o)
        if l is None:
            return NotImplemented
        if self.q is not None and l.q is not None:
            return bool(fq(self.q, l.q))
        if self.is_int and l.is_int:
            t = fz(self.z, l.z)
        else:
            t = fz(self.rz, l.rz)
        return SymBool(z3.simplify(t))

    def __lt__(self, o): return self._cmp(o, lambda a, b: a < b, lambda a, b: a < b)
    def __le__(self, o): return self._cmp(o, lambda a, b: a <= b, lambda a, b: a <= b)
    def __gt__(self, o): return self._cmp(o, lambda a, b: a > b, lambda a, b: a > b)
    def __ge__(self, o): return self._cmp(o, lambda a, b: a >= b, lambda a, b: a >= b)

    def __eq__(self, o):
        r = self._cmp(o, lambda a, b: a == b, lambda a, b: a == b)
        return False if r is NotImplemented else r

    def __ne__(self, o):
        r = self._cmp(o, lambda a, b: a != b, lambda a, b: a != b)
        return True if r is NotImplemented else r

    def __bool__(self):
        if self.q is not None:
            return self.q != 0
        return ctx().branch(self.z != 0)

    def __getitem__(self, k):
        raise IndexError('invalid index to scalar variable.')

    def __iter__(self):
        raise TypeError("'numpy.float64' object is not iterable")

    def __index__(self):
        if self.q is not None and self.q.denominator == 1:
            return int(self.q)
        if not self.is_int:
            raise Unsupported('index from a symbolic real')
        return concretize_int(self)

    def __int__(self):
        if self.q is not None:
            return int(self.q)
        raise Unsupported('int() of a symbolic value outside the executed sources')

    def __float__(self):
        if self.q is not None:
            return float(self.q)
        raise Unsupported('float() of a symbolic value')

    def __complex__(self):
        return complex(float(self))

    def __round__(self, n=0):
        raise Unsupported('round of symbolic value')

    def __floor__(self):
        return floor_(self)

    def __ceil__(self):
        return -floor_(-self)

    def __trunc__(self):
        return ite(self >= 0, floor_(self), -floor_(-self))

    # -- numpy-scalar-like API
    @property
    def real(self): return self

    @property
    def imag(self): return SV(Fraction(0))

    @property
    def shape(self): return ()

    @property
    def ndim(self): return 0

    @property
    def size(self): return 1

    @property
    def dtype(self): return np.dtype(np.int64) if self.is_int else np.dtype(np.float64)

    def conjugate(self): return self
    conj = conjugate
    def copy(self): return self
    def item(self): return self
    def sqrt(self): return nroot(self, 2)
    def sum(self, *a, **k): return self
    def max(self, *a, **k): return self
    def min(self, *a, **k): return self
    def astype(self, *a, **k): return self
    def __copy__(self): return self
    def __deepcopy__(self, memo): return self

    def is_integer(self):
        return SymBool(z3.IsInt(self.rz)) if self.q is None else self.q.denominator == 1

    def reshape(self, *a):
        z = np.empty((1,), dtype=object)
        z[0] = self
        return z.view(SymArray).reshape(*a)

    def __format__(self, spec):
        """A placeholder that a harness can turn back into the value (vlib.sym.TOKENS)."""
        if self.q is not None:
            return format(int(self.q) if self.is_int else float(self.q), spec)
        TOKENS.append(self)
        return f'\u27e6{spec}#{len(TOKENS) - 1}\u27e7'

    def __str__(self):
        return format(self, '')

    def __repr__(self):
        return f'<{self.q}>' if self.q is not None else f'<{self.z}>'


def concretize_int(v, limit=64):
    c = ctx()
    for _ in range(limit):
        r = c.check()
        if r != z3.sat:
            raise Unsupported('cannot concretise an index')
        # deterministic choice: smallest feasible value would need optimisation; use the model
        key = ('cz', v.z.get_id(), len(c.decisions))
        m = c.solver.model()
        val = m.eval(v.z, model_completion=True).as_long()
        # replays must make the same choice: remember it in the decision prefix
        if c.pos < len(c.prefix) and isinstance(c.prefix[c.pos], tuple):
            val = c.prefix[c.pos][1]
        d = c.branch_value(v.z, val)
        if d:
            return val
    raise Unsupported('index takes too many values')


def _branch_value(self, term, val):
    """Fork on term == val; the chosen value is part of the prefix."""
    cond = z3.simplify(term == val)
    if z3.is_true(cond):
        return True
    if z3.is_false(cond):
        return False
    if self.pos < len(self.prefix):
        tag = self.prefix[self.pos]
        self.pos += 1
        d = tag[2] if isinstance(tag, tuple) else tag
    else:
        rf = self.check(z3.Not(cond))
        d = True
        if rf != z3.unsat:
            self.pending.append([x for _, x in self.decisions] + [('v', val, False)])
        self.pos += 1
    self.decisions.append((cond, ('v', val, d)))
    c = cond if d else z3.Not(cond)
    self.pc.append(c)
    self.solver.add(c)
    return d


Ctx.branch_value = _branch_value


# --------------------------------------------------------------- functions
def floor_(x):
    x = SV.lift(x)
    if x.q is not None:
        return SV(int(math.floor(x.q)))
    if x.is_int:
        return x
    if ctx().int_split is not None:
        return split_floor(reduced(x))
    return split_(SV(z3.ToInt(x.rz)))


def reduced(x):
    """The same value with common factors cancelled."""
    x = SV.lift(x)
    if x.q is not None:
        return x
    try:
        num, den = poly.ratnorm(x.rz)
    except poly.TooBig:
        return x
    if not num:
        return SV(Fraction(0))
    return SV(z3.simplify(poly.to_z3(num) if den == poly.ONE else poly.to_z3(num) / poly.to_z3(den)))


def split_floor(x):
    if x.q is not None:
        return SV(int(math.floor(x.q)))
    c = ctx()
    lo, hi = c.int_split
    while lo < hi:
        mid = (lo + hi) // 2
        if c.branch(x.z < mid + 1):
            hi = mid
        else:
            lo = mid + 1
    if c.branch(z3.And(x.z >= lo, x.z < lo + 1)):
        return SV(lo)
    return SV(z3.ToInt(x.z))


def split_(x):
    """Case distinction over the values of an integer."""
    c = ctx()
    if c.int_split is None or x.q is not None:
        return x
    lo, hi = c.int_split
    while lo < hi:
        mid = (lo + hi) // 2
        if c.branch(x.z <= mid):
            hi = mid
        else:
            lo = mid + 1
    if c.branch(x.z == lo):
        return SV(lo)
    return x


def ceil_(x):
    return -floor_(-SV.lift(x))


def trunc_(x):
    x = SV.lift(x)
    if x.q is not None:
        return SV(int(x.q))
    if x.is_int:
        return x
    return split_(SV(z3.If(x.rz >= 0, z3.ToInt(x.rz), -z3.ToInt(-x.rz))))


def rint_(x):
    """round half to even"""
    x = SV.lift(x)
    if x.q is not None:
        return SV(Fraction(round(x.q)))
    f = z3.ToInt(x.rz)
    d = x.rz - z3.ToReal(f)
    return SV(z3.ToReal(z3.If(d < z3.Q(1, 2), f, z3.If(d > z3.Q(1, 2), f + 1, z3.If(f % 2 == 0, f, f + 1)))))


def isnanf(x):
    return isinstance(x, (float, np.floating)) and math.isnan(x)


def nroot(x, n):
    if isnanf(x):
        return x
    x = SV.lift(x)
    if x.q is not None:
        if x.q < 0:
            raise Unsupported('root of a negative constant')
        a, b = round(x.q.numerator ** (1 / n)) if x.q.numerator < 10**15 else -1, round(x.q.denominator ** (1 / n)) if x.q.denominator < 10**15 else -1
        if a >= 0 and b > 0 and a ** n == x.q.numerator and b ** n == x.q.denominator:
            return SV(Fraction(a, b))
    c = ctx()
    # canonical key: the normalised rational function of the radicand, so that
    # differently written but equal radicands share one root symbol
    try:
        nf = poly.normal_key(x.rz, n)
    except poly.TooBig:
        nf = None
    if nf is not None:
        key, pullout = nf
        k = ('root', n, key)
    else:
        k, pullout = ('rootid', n, z3.simplify(x.rz).get_id()), None
    if k in c.cache:
        return c.cache[k][0]
    if nf is not None and key == 1:
        return SV(Fraction(1))
    if nf is not None and isinstance(key, int) and key:
        ki = ('root', n, pow(key, poly.P - 2, poly.P))
        if ki in c.cache:           # root of the reciprocal
            c.add_side(x.rz > 0)
            r = SV(Fraction(1)) / c.cache[ki][0]
            c.cache[k] = (r, x.rz)
            return r
    s = z3.Real(c.newname('root%d' % n))
    term = x.rz
    c.add_side(term >= 0)
    sv = SV(s)
    pw = s
    for _ in range(n - 1):
        pw = pw * s
    c.side.append(s >= 0)
    c.side.append(pw == term)
    c.solver.add(s >= 0, pw == term)
    poly.ROOTS[s.get_id()] = (n, term, s)
    c.cache[k] = (sv, term)
    return sv


def known_root(r, n):
    c = ctx()
    t = (SV.lift(r) ** n).rz
    c.add_side(SV.lift(r).rz >= 0)
    c.cache['root', n, poly.normal_key(t, n)[0]] = (SV.lift(r), t)


def root_of(x, n):
    """The positive root, exact if x is the power of a product."""
    def mono(p):
        (mon, c), = p.items()
        k = SV(c)
        k = nroot(k, n)
        if k.q is None or any(e % n for _, e in mon):
            raise ValueError
        t = k
        for a, e in mon:
            t = t * SV(poly.to_z3({((a, e // n),): Fraction(1)}))
        return t
    try:
        num, den = poly.ratnorm(x.rz)
        if len(num) == 1 and len(den) == 1:
            r = mono(num) / mono(den)
            if bool(r > 0):
                return r
    except (poly.TooBig, ValueError):
        pass
    return nroot(x, n)


_UF = {}


def uf(name, *args):
    """Uninterpreted function of reals (trusted to be a function of its arguments only)."""
    if any(isinstance(a, np.ndarray) for a in args):
        return elementwise(lambda *xs: uf(name, *xs), *args)
    ls = [SV.lift(a) for a in args]
    f = _UF.get((name, len(ls)))
    if f is None:
        f = _UF[(name, len(ls))] = z3.Function(name, *([z3.RealSort()] * (len(ls) + 1)))
    # normalise the arguments, so equal arguments give the same application
    zs = []
    for l in ls:
        zs.append(canon(l.rz))
    return SV(f(*zs))


def canon(t):
    """A representative term for the rational function t within the current context."""
    c = ctx()
    try:
        key = poly.normal_key(t, 1)[0]
    except poly.TooBig:
        return z3.simplify(t)
    k = ('canon', key)
    if k not in c.cache:
        c.cache[k] = z3.simplify(t)
    return c.cache[k]


def sympow(a, b):
    return uf('pow', a, b)


def sin_(x):
    if is_num(x) and x == 0:
        return SV(Fraction(0))
    return uf('sin', x)


def cos_(x):
    if is_num(x) and x == 0:
        return SV(Fraction(1))
    return uf('cos', x)


def positive(x):
    if x.q is not None:
        return x.q > 0
    return bool(x > 0)


def log10_(x):
    x = SV.lift(x)
    if not positive(x):
        return float('nan')
    r = uf('log10', x)
    c = ctx()
    a = r.z.arg(0)
    for b, lb in c.logs:        # increasing
        if b.eq(a):
            break
        c.side.append((a <= b) == (r.z <= lb))
        c.side.append((a == b) == (r.z == lb))
        c.solver.add(c.side[-1], c.side[-2])
    else:
        c.logs.append((a, r.z))
    return r


def log_(x):
    """Natural logarithm; the value for numbers that are not positive is nan (the callers multiply log(0) by 0)."""
    x = SV.lift(x)
    if not positive(x):
        return float('nan')
    return uf('log', x)


def exp_(x):
    return uf('exp', x)


def arctan_(x):
    return uf('arctan', x)


def sign_(x):
    x = SV.lift(x)
    if x.q is not None:
        return SV(Fraction((x.q > 0) - (x.q < 0)))
    return SV(z3.If(x.rz > 0, z3.RealVal(1), z3.If(x.rz < 0, z3.RealVal(-1), z3.RealVal(0))))


def ite(c, a, b):
    """If-then-else on scalars."""
    if isinstance(c, (bool, np.bool_)):
        return a if c else b
    if isinstance(c, SV):
        c = SymBool(c.z != 0)
    if isinstance(a, SymBool) or isinstance(b, SymBool) or (isinstance(a, (bool, np.bool_)) and isinstance(b, (bool, np.bool_))):
        return SymBool(z3.simplify(z3.If(c.t, SymBool.lift(a), SymBool.lift(b))))
    if isinstance(a, SymComplex) or isinstance(b, SymComplex):
        a, b = SymComplex.lift(a), SymComplex.lift(b)
        return SymComplex(ite(c, a.re, b.re), ite(c, a.im, b.im))
    if isinstance(a, float) and math.isnan(a) or isinstance(b, float) and math.isnan(b):
        return a if bool(c) else b
    la, lb = SV.lift(a), SV.lift(b)
    if la is None or lb is None:
        return a if bool(c) else b
    if la.is_int and lb.is_int:
        return SV(z3.simplify(z3.If(c.t, la.z, lb.z)))
    return SV(z3.simplify(z3.If(c.t, la.rz, lb.rz)))


def max_(a, b):
    if is_num(a) and is_num(b):
        return max(a, b)
    if CTX is not None and CTX.fork_minmax and not isnan_(a) and not isnan_(b):
        return a if bool(SV.lift(a) >= b) else b
    return ite(SV.lift(a) >= b, a, b)


def min_(a, b):
    if is_num(a) and is_num(b):
        return min(a, b)
    if CTX is not None and CTX.fork_minmax and not isnan_(a) and not isnan_(b):
        return a if bool(SV.lift(a) <= b) else b
    return ite(SV.lift(a) <= b, a, b)


class SymComplex:
    __slots__ = ('re', 'im')
    __array_ufunc__ = None
    __hash__ = None

    def __init__(self, re, im):
        self.re, self.im = SV.lift(re), SV.lift(im)

    @staticmethod
    def lift(x):
        if isinstance(x, SymComplex):
            return x
        if isinstance(x, (complex, np.complexfloating)):
            return SymComplex(x.real, x.imag)
        l = SV.lift(x)
        return None if l is None else SymComplex(l.real_(), SV(Fraction(0)))

    @property
    def real(self): return self.re

    @property
    def imag(self): return self.im

    def _a(self, o, f, rev=False):
        if isinstance(o, np.ndarray) and not isinstance(o, np.generic):
            return elementwise(f, o, self) if rev else elementwise(f, self, o)
        l = SymComplex.lift(o)
        if l is None:
            return NotImplemented
        return f(l, self) if rev else f(self, l)

    @staticmethod
    def _add(a, b):
        a, b = SymComplex.lift(a), SymComplex.lift(b)
        return SymComplex(a.re + b.re, a.im + b.im)

    @staticmethod
    def _sub(a, b):
        a, b = SymComplex.lift(a), SymComplex.lift(b)
        return SymComplex(a.re - b.re, a.im - b.im)

    @staticmethod
    def _mul(a, b):
        a, b = SymComplex.lift(a), SymComplex.lift(b)
        return SymComplex(a.re * b.re - a.im * b.im, a.re * b.im + a.im * b.re)

    @staticmethod
    def _div(a, b):
        a, b = SymComplex.lift(a), SymComplex.lift(b)
        if b.im.q == 0:
            return SymComplex(a.re / b.re, a.im / b.re)
        d = b.re * b.re + b.im * b.im
        return SymComplex((a.re * b.re + a.im * b.im) / d, (a.im * b.re - a.re * b.im) / d)

    def __add__(self, o): return self._a(o, SymComplex._add)
    def __radd__(self, o): return self._a(o, SymComplex._add, True)
    def __sub__(self, o): return self._a(o, SymComplex._sub)
    def __rsub__(self, o): return self._a(o, SymComplex._sub, True)
    def __mul__(self, o): return self._a(o, SymComplex._mul)
    def __rmul__(self, o): return self._a(o, SymComplex._mul, True)
    def __truediv__(self, o): return self._a(o, SymComplex._div)
    def __rtruediv__(self, o): return self._a(o, SymComplex._div, True)
    def __neg__(self): return SymComplex(-self.re, -self.im)
    def __abs__(self): return nroot(self.re * self.re + self.im * self.im, 2)
    def conjugate(self): return SymComplex(self.re, -self.im)
    conj = conjugate

    def __pow__(self, n):
        n = fr(n) if not isinstance(n, SV) else n.q
        if n is None or n.denominator != 1 or n < 0:
            raise Unsupported('complex power')
        r = SymComplex(1, 0)
        for _ in range(int(n)):
            r = r * self
        return r

    def __eq__(self, o):
        l = SymComplex.lift(o)
        if l is None:
            return False
        a, b = self.re == l.re, self.im == l.im
        return SymBool(z3.And(SymBool.lift(a), SymBool.lift(b)))

    def __ne__(self, o):
        r = self == o
        return (not r) if isinstance(r, bool) else ~r

    def copy(self): return self
    def item(self): return self
    def __copy__(self): return self
    def __deepcopy__(self, memo): return self

    def __getitem__(self, k):
        raise IndexError('invalid index to scalar variable.')

    def __repr__(self): return f'({self.re} + {self.im} j)'


# --------------------------------------------------------------- arrays
def has_sym(x, depth=0):
    if isinstance(x, (SV, SymBool, SymComplex, SymArray)):
        return True
    if isinstance(x, np.ndarray):
        return x.dtype == object
    if isinstance(x, (list, tuple)) and depth < 5:
        return any(has_sym(y, depth + 1) for y in x)
    return False


def _cmp_uf(name):
    import operator
    return getattr(operator, name)


def _and(a, b):
    la, lb = SymBool.lift(a), SymBool.lift(b)
    r = z3.simplify(z3.And(la, lb))
    return True if z3.is_true(r) else False if z3.is_false(r) else SymBool(r)


def _or(a, b):
    la, lb = SymBool.lift(a), SymBool.lift(b)
    r = z3.simplify(z3.Or(la, lb))
    return True if z3.is_true(r) else False if z3.is_false(r) else SymBool(r)


def _not(a):
    r = z3.simplify(z3.Not(SymBool.lift(a)))
    return True if z3.is_true(r) else False if z3.is_false(r) else SymBool(r)


def isnan_(x):
    if isinstance(x, (float, np.floating)):
        return bool(math.isnan(x))
    if isinstance(x, complex):
        return math.isnan(x.real) or math.isnan(x.imag)
    return False


def isinf_(x):
    if isinstance(x, (float, np.floating)):
        return bool(math.isinf(x))
    return False


def _sqrt(x):
    if isinstance(x, SymComplex):
        raise Unsupported('complex sqrt')
    return nroot(x, 2)


def _truediv(a, b):
    # numpy division of concrete numbers inside object arrays
    if is_num(a) and is_num(b):
        if b == 0:
            raise ZeroDivisionError('division by the constant zero')
        if isinstance(a, float) and not math.isfinite(a) or isinstance(b, float) and not math.isfinite(b):
            return float(a) / float(b)
        return SV(fr(a) / fr(b))
    if isinstance(b, float) and math.isnan(b) or isinstance(a, float) and math.isnan(a):
        return float('nan')
    return a / b


def _sq(x): return x * x


def _power(a, b):
    if is_num(a):
        a = SV.lift(a)
    return a ** b


def _isclose(a, b, rtol=1e-5, atol=1e-8):
    return abs(a - b) <= atol + rtol * abs(b)


UF = {
    'less': _cmp_uf('lt'), 'less_equal': _cmp_uf('le'), 'greater': _cmp_uf('gt'),
    'greater_equal': _cmp_uf('ge'), 'equal': _cmp_uf('eq'), 'not_equal': _cmp_uf('ne'),
    'logical_and': _and, 'logical_or': _or, 'logical_not': _not,
    'invert': lambda a: _not(a) if isinstance(a, (bool, np.bool_, SymBool)) else ~a,
    'bitwise_and': lambda a, b: a & b, 'bitwise_or': lambda a, b: a | b,
    'sqrt': _sqrt, 'absolute': abs, 'fabs': abs, 'sin': sin_, 'cos': cos_, 'log10': log10_,
    'log': log_, 'exp': exp_, 'arctan': arctan_, 'sign': sign_, 'floor': floor_, 'ceil': ceil_,
    'rint': rint_, 'trunc': trunc_,
    'isnan': isnan_, 'isinf': isinf_, 'isfinite': lambda x: not (isnan_(x) or isinf_(x)),
    'maximum': max_, 'minimum': min_, 'fmax': max_, 'fmin': min_,
    'true_divide': _truediv, 'divide': _truediv, 'square': _sq, 'power': _power, 'float_power': _power,
    'reciprocal': lambda a: 1 / a,
    'conjugate': lambda a: a.conjugate(), 'arccos': lambda a: uf('arccos', a), 'arcsin': lambda a: uf('arcsin', a),
    'arctan2': lambda a, b: uf('arctan2', a, b), 'tan': lambda a: uf('tan', a), 'log2': lambda a: uf('log2', a),
    'remainder': lambda a, b: a % b, 'mod': lambda a, b: a % b, 'floor_divide': lambda a, b: a // b,
    'negative': lambda a: -a, 'add': lambda a, b: a + b, 'subtract': lambda a, b: a - b,
    'multiply': lambda a, b: a * b, 'positive': lambda a: a,
}
for _n in ('sin', 'cos', 'log10', 'log', 'exp', 'arctan', 'sign', 'floor', 'ceil', 'rint', 'trunc', 'arccos', 'arcsin', 'tan', 'log2'):
    UF[_n] = (lambda f: lambda a: a if isnanf(a) else f(a))(UF[_n])
for _n in ('maximum', 'minimum'):
    UF[_n] = (lambda f: lambda a, b: float('nan') if isnanf(a) or isnanf(b) else f(a, b))(UF[_n])
UF['fmod'] = lambda a, b: ite(SV.lift(a) >= 0, a % b, -((-a) % b))
REDUCE = {'add': 0, 'multiply': 1, 'logical_and': True, 'logical_or': False, 'maximum': None, 'minimum': None,
          'bitwise_and': True, 'bitwise_or': False}


def toobj(x):
    if isinstance(x, np.ndarray) and not isinstance(x, np.generic):
        return np.asarray(x) if x.dtype == object else np.asarray(x).astype(object)
    if isinstance(x, (list, tuple)):
        return np.array(x, dtype=object)
    z = np.empty((), dtype=object)
    z[()] = x
    return z


def app(f, *args):
    if not any(isinstance(a, np.ndarray) for a in args):
        return f(*args)
    return np.frompyfunc(f, len(args), 1)(*[toobj(a) for a in args])


def out_(r):
    if isinstance(r, np.ndarray):
        return r.view(SymArray)
    return r


class SymArray(np.ndarray):
    __array_priority__ = 1000

    @property
    def real(self):
        return elementwise(lambda x: x.real, self)

    @property
    def imag(self):
        return elementwise(lambda x: x.imag, self)

    @real.setter
    def real(self, v):
        self[...] = elementwise(lambda x, y: SymComplex(y, x.imag) if isinstance(x, SymComplex) else y, self, np.broadcast_to(v, self.shape))

    @imag.setter
    def imag(self, v):
        self[...] = elementwise(lambda x, y: SymComplex(x.real, y), self, np.broadcast_to(v, self.shape))

    def __array_ufunc__(self, ufunc, method, *inputs, out=None, **kw):
        kw.pop('dtype', None)
        kw.pop('casting', None)
        where = kw.pop('where', True)
        if where is not True:
            raise Unsupported('ufunc where=')
        f = UF.get(ufunc.__name__)
        if f is None:
            raise Unsupported(f'ufunc {ufunc.__name__} on symbolic values')
        arrs = [toobj(x) for x in inputs]
        if method == '__call__':
            r = np.frompyfunc(f, len(arrs), 1)(*arrs)
        elif method == 'reduce':
            a = arrs[0]
            axis = kw.get('axis', 0)
            keep = kw.get('keepdims', False)
            if axis is None:
                a = a.reshape(-1)
                axis = 0
            if isinstance(axis, tuple):
                if len(axis) == a.ndim:
                    a = a.reshape(-1)
                    axis = 0
                else:
                    raise Unsupported('multi-axis reduce')
            init = kw.get('initial', np._NoValue)
            a = np.moveaxis(a, axis, 0)
            n = a.shape[0]
            if n == 0:
                if REDUCE.get(ufunc.__name__) is None:
                    raise ValueError('zero-size array to reduction operation')
                if a.ndim == 1:
                    return REDUCE[ufunc.__name__]
                r = np.full(a.shape[1:], REDUCE[ufunc.__name__], dtype=object)
            else:
                r = a[0]
                for i in range(1, n):
                    r = app(f, r, a[i])
                if init is not np._NoValue and init is not None:
                    r = app(f, init, r)
            if keep and isinstance(r, np.ndarray):
                r = np.expand_dims(r, axis)
        elif method == 'accumulate':
            a = arrs[0]
            axis = kw.get('axis', 0)
            a = np.moveaxis(a, axis, 0).copy()
            for i in range(1, a.shape[0]):
                a[i] = app(f, a[i - 1], a[i])
            r = np.moveaxis(a, 0, axis)
        elif method == 'outer':
            r = np.frompyfunc(f, 2, 1).outer(*arrs)
        else:
            raise Unsupported(f'ufunc method {method}')
        if out is not None:
            o = out[0] if isinstance(out, tuple) else out
            if o is not None:
                o[...] = r
                return o
        return out_(r)

    # numpy API needing care
    @property
    def real(self):
        return out_(np.frompyfunc(lambda x: x.real, 1, 1)(np.asarray(self)))

    @real.setter
    def real(self, v):
        v = np.broadcast_to(toobj(v), self.shape)
        a = np.asarray(self)
        for i in np.ndindex(self.shape):
            a[i] = SymComplex(v[i], SymComplex.lift(a[i]).im)

    @property
    def imag(self):
        return out_(np.frompyfunc(lambda x: x.imag if not is_num(x) else SV(Fraction(0)), 1, 1)(np.asarray(self)))

    @imag.setter
    def imag(self, v):
        v = np.broadcast_to(toobj(v), self.shape)
        a = np.asarray(self)
        for i in np.ndindex(self.shape):
            a[i] = SymComplex(SymComplex.lift(a[i]).re, v[i])

    def conj(self):
        return out_(np.frompyfunc(lambda x: x.conjugate(), 1, 1)(np.asarray(self)))
    conjugate = conj

    def astype(self, dtype, *a, **k):
        try:
            dt = np.dtype(dtype)
        except TypeError:
            dt = None
        if dt is not None and dt.kind in 'iu':
            return out_(np.frompyfunc(lambda x: trunc_(x) if isinstance(x, SV) else x.num() if isinstance(x, SymBool) else SV(int(x)), 1, 1)(np.asarray(self)))
        if dt is not None and dt.kind == 'b':
            return out_(np.frompyfunc(lambda x: x if isinstance(x, (SymBool, bool)) else x != 0, 1, 1)(np.asarray(self)))
        if dt is not None and dt.kind == 'f':
            return out_(np.frompyfunc(lambda x: x.num().real_() if isinstance(x, SymBool) else x.real_() if isinstance(x, SV) else SV(fr(x)) if is_num(x) and not isnan_(x) and not isinf_(x) else x, 1, 1)(np.asarray(self)))
        if dt is not None and dt.kind in 'SU':
            raise Unsupported('string conversion of symbolic values')
        return self.copy()

    def tolist(self):
        return np.asarray(self).tolist()

    def sum(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        return _cnt(np.add.reduce(self, axis=axis, out=out, keepdims=keepdims))

    def prod(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        if dtype is not None and np.dtype(dtype).kind == 'b':
            return np.logical_and.reduce(self, axis=axis)
        return np.multiply.reduce(self, axis=axis, out=out, keepdims=keepdims)

    def mean(self, axis=None, **k):
        n = self.size if axis is None else self.shape[axis]
        return self.sum(axis=axis) / n

    def all(self, axis=None, **k):
        if self.size == 0:
            return True
        return np.logical_and.reduce(self, axis=axis)

    def any(self, axis=None, **k):
        if self.size == 0:
            return False
        return np.logical_or.reduce(self, axis=axis)

    def max(self, axis=None, **k):
        return np.maximum.reduce(self, axis=axis)

    def min(self, axis=None, **k):
        return np.minimum.reduce(self, axis=axis)

    def argmax(self, axis=None, **k):
        return self._arg(axis, lambda a, b: a > b)

    def argmin(self, axis=None, **k):
        return self._arg(axis, lambda a, b: a < b)

    def _arg(self, axis, better):
        a = np.asarray(self)
        if axis is None:
            a = a.reshape(-1)
        elif a.ndim != 1:
            raise Unsupported('argmax along an axis')
        if len(a) == 0:
            raise ValueError('attempt to get argmax of an empty sequence')
        k = 0
        for i in range(len(a)):
            if isnan_(a[i]):
                return i
        for i in range(1, len(a)):
            if bool(better(a[i], a[k])):
                k = i
        return k

    def argsort(self, axis=-1, **k):
        import functools
        a = list(np.asarray(self))
        if self.ndim != 1:
            raise Unsupported('argsort nd')
        nan = [isnan_(x) for x in a]        # not a number: last

        def cmp(i, j):
            if nan[i] or nan[j]:
                return int(nan[i]) - int(nan[j])
            if bool(a[i] < a[j]):
                return -1
            if bool(a[j] < a[i]):
                return 1
            return 0
        return np.array(sorted(range(len(a)), key=functools.cmp_to_key(cmp)), dtype=np.intp)

    def sort(self, axis=-1, **k):
        self[...] = np.asarray(self)[self.argsort()]

    def nonzero(self):
        b = np.array([bool(x) for x in np.asarray(self).reshape(-1)], dtype=bool).reshape(self.shape)
        return b.nonzero()

    def clip(self, lo=None, hi=None, **k):
        r = self
        if lo is not None:
            r = np.maximum(r, lo)
        if hi is not None:
            r = np.minimum(r, hi)
        return r

    def fill(self, v):
        self[...] = v

    def dot(self, o):
        return np.dot(self, o)

    def cumsum(self, axis=None, **k):
        return np.add.accumulate(self if axis is not None else self.reshape(-1), axis=axis or 0)

    def item(self, *a):
        return np.asarray(self).item(*a)

    def _key(self, k):
        if isinstance(k, tuple):
            return tuple(self._key(x) for x in k)
        if isinstance(k, SymBool):
            return bool(k)
        if isinstance(k, SV):
            return k.__index__()
        if isinstance(k, list) and has_sym(k):
            k = np.array(k, dtype=object)
        if isinstance(k, np.ndarray) and k.dtype == object:
            flat = [x for x in np.asarray(k).reshape(-1)]
            if not flat:
                return np.zeros(k.shape, dtype=bool if k.shape == self.shape[:k.ndim] else np.intp)
            if all(isinstance(x, (SymBool, bool, np.bool_)) for x in flat):
                return np.array([bool(x) for x in flat], dtype=bool).reshape(k.shape)
            return np.array([x.__index__() for x in flat], dtype=np.intp).reshape(k.shape)
        return k

    def __getitem__(self, k):
        r = super().__getitem__(self._key(k))
        return r

    def __setitem__(self, k, v):
        k = self._key(k)
        if isinstance(v, np.ndarray):
            v = np.asarray(v)
            if v.size == 1 and v.ndim > 0:
                tgt = np.asarray(self)[k]
                if not isinstance(tgt, np.ndarray) or tgt.ndim == 0:
                    v = v.reshape(-1)[0]
        elif isinstance(v, (list, tuple)):
            v = np.array(v, dtype=object)
        elif v is None:
            v = float('nan')               # as in numpy's arrays of numbers
        super().__setitem__(k, v)

    def __iadd__(self, o): self[...] = self + o; return self
    def __isub__(self, o): self[...] = self - o; return self
    def __imul__(self, o): self[...] = self * o; return self
    def __itruediv__(self, o): self[...] = self / o; return self
    def __ipow__(self, o): self[...] = self ** o; return self
    def __iand__(self, o): self[...] = self & o; return self
    def __ior__(self, o): self[...] = self | o; return self

    def __bool__(self):
        if self.size == 1:
            return bool(np.asarray(self).reshape(-1)[0])
        raise ValueError('The truth value of an array with more than one element is ambiguous.')

    def __float__(self):
        return float(np.asarray(self).reshape(-1)[0])

    def __contains__(self, x):
        return any(bool(e == x) for e in np.asarray(self).reshape(-1))

    def __deepcopy__(self, memo):
        return self.copy()

    def __array_function__(self, func, types, args, kwargs):
        from . import npshim
        h = npshim.FUNCS.get(func.__name__)
        if h is not None:
            return h(*args, **kwargs)
        return super().__array_function__(func, types, args, kwargs)


def _cnt(x):
    """The sum of a single truth value is a number."""
    if isinstance(x, (bool, np.bool_)):
        return SV(int(x))
    if isinstance(x, SymBool):
        return SV.lift(x) if not hasattr(x, 'as_int') else x.as_int()
    return x


def arr(seq, shape=None):
    a = np.empty(len(seq), dtype=object)
    for i, s in enumerate(seq):
        a[i] = s
    if shape is not None:
        a = a.reshape(shape)
    return a.view(SymArray)
