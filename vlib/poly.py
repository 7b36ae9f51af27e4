"""Rational-function normal form of z3 real terms.

ratnorm(t) -> (num, den): polynomials (dict monomial -> Fraction) over atoms.  Used to
clear denominators and expand products before z3 decides a (dis)equality; roots are
reduced with their defining equation.  fingerprint(t) evaluates the term at a fixed
pseudo-random point of a prime field: it only orders the work and merges equal
radicands / arguments, every verdict on a claim is z3's."""
import hashlib
import time
from fractions import Fraction

import z3

P = (1 << 61) - 1
ROOTS = {}          # id of root symbol -> (n, radicand term, symbol)
ATOMS = {}          # id -> term (keeps the term alive)


class TooBig(Exception):
    pass


DEADLINE = [None]


LIMIT = 120000


def reset():
    ROOTS.clear()
    ATOMS.clear()
    _FP.clear()


def _padd(a, b, s=1):
    if len(a) < len(b) and s == 1:
        a, b = b, a
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + s * c
        if v == 0:
            r.pop(m, None)
        else:
            r[m] = v
    return r


def _mmul(a, b):
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    for k, e in b:
        d[k] = d.get(k, 0) + e
    return tuple(sorted(d.items()))


def _pmul(a, b):
    if not a or not b:
        return {}
    if len(a) * len(b) > 40 * LIMIT:
        raise TooBig()
    r = {}
    dl = DEADLINE[0]
    for m1, c1 in a.items():
        if dl is not None and time.time() > dl:
            raise TooBig()
        for m2, c2 in b.items():
            m = _mmul(m1, m2)
            v = r.get(m, 0) + c1 * c2
            if v == 0:
                r.pop(m, None)
            else:
                r[m] = v
    if len(r) > LIMIT:
        raise TooBig()
    return r


ONE = {(): Fraction(1)}


def _const(q):
    return {(): q} if q != 0 else {}


def ratnorm(t, cache=None):
    cache = {} if cache is None else cache
    return _rn(t, cache)


def _samepoly(a, b):
    return a == b


def _divout(num, den):
    """Cancel common monomial content."""
    if not num:
        return {}, ONE
    if den == ONE:
        return num, den
    def content(p):
        it = iter(p)
        c = dict(next(it))
        for m in it:
            d = dict(m)
            for k in list(c):
                e = min(c[k], d.get(k, 0))
                if e:
                    c[k] = e
                else:
                    del c[k]
            if not c:
                break
        return c
    cn, cd = content(num), content(den)
    com = {k: min(e, cd[k]) for k, e in cn.items() if k in cd}
    if com:
        def div(p):
            r = {}
            for m, c in p.items():
                d = dict(m)
                for k, e in com.items():
                    d[k] -= e
                    if d[k] == 0:
                        del d[k]
                r[tuple(sorted(d.items()))] = c
            return r
        num, den = div(num), div(den)
    if len(den) == 1:
        (m, c), = den.items()
        if c != 1:
            num = {k: v / c for k, v in num.items()}
            den = {m: Fraction(1)}
    if num == den:
        return ONE, ONE
    return num, den


def _rn(t, cache):
    i = t.get_id()
    if i in cache:
        return cache[i][0]
    # iterative over deep sums is unnecessary: recursion limit is raised by the driver
    k = t.decl().kind()
    if z3.is_rational_value(t):
        r = (_const(Fraction(t.numerator_as_long(), t.denominator_as_long())), ONE)
    elif z3.is_int_value(t):
        r = (_const(Fraction(t.as_long())), ONE)
    elif k == z3.Z3_OP_ADD:
        r = ({}, ONE)
        for c in t.children():
            r = _radd(r, _rn(c, cache))
    elif k == z3.Z3_OP_SUB:
        cs = t.children()
        r = _rn(cs[0], cache)
        for c in cs[1:]:
            n, d = _rn(c, cache)
            r = _radd(r, ({m: -v for m, v in n.items()}, d))
    elif k == z3.Z3_OP_UMINUS:
        n, d = _rn(t.arg(0), cache)
        r = ({m: -v for m, v in n.items()}, d)
    elif k == z3.Z3_OP_MUL:
        r = (ONE, ONE)
        for c in t.children():
            n, d = _rn(c, cache)
            r = _divout(_pmul(r[0], n), _pmul(r[1], d))
    elif k == z3.Z3_OP_DIV:
        a, b = _rn(t.arg(0), cache), _rn(t.arg(1), cache)
        if not b[0]:
            raise TooBig()
        r = _divout(_pmul(a[0], b[1]), _pmul(a[1], b[0]))
    elif k == z3.Z3_OP_POWER and z3.is_rational_value(t.arg(1)):
        e = Fraction(t.arg(1).numerator_as_long(), t.arg(1).denominator_as_long())
        if e.denominator != 1 or e < 0:
            r = _atom(t)
        else:
            r = (ONE, ONE)
            b = _rn(t.arg(0), cache)
            for _ in range(int(e)):
                r = (_pmul(r[0], b[0]), _pmul(r[1], b[1]))
    elif k == z3.Z3_OP_TO_REAL:
        r = _rn_int(t.arg(0), cache)
    else:
        r = _atom(t)
    cache[i] = (r, t)
    return r


def _rn_int(t, cache):
    # integer polynomial arithmetic embeds in the reals (no div/mod here)
    k = t.decl().kind()
    if k in (z3.Z3_OP_ADD, z3.Z3_OP_MUL, z3.Z3_OP_SUB, z3.Z3_OP_UMINUS) or z3.is_int_value(t):
        return _rn(t, cache)
    return _atom(t)


def _atom(t):
    i = t.get_id()
    ATOMS[i] = t
    return ({((i, 1),): Fraction(1)}, ONE)


def _radd(a, b):
    if not a[0]:
        return b
    if not b[0]:
        return a
    if a[1] == b[1]:
        return _divout(_padd(a[0], b[0]), a[1])
    if a[1] == ONE:
        return _divout(_padd(_pmul(a[0], b[1]), b[0]), b[1])
    if b[1] == ONE:
        return _divout(_padd(a[0], _pmul(b[0], a[1])), a[1])
    # monomial denominators: use the lcm
    if len(a[1]) == 1 and len(b[1]) == 1:
        (ma, _), = a[1].items()
        (mb, _), = b[1].items()
        da, db = dict(ma), dict(mb)
        l = dict(da)
        for k, e in db.items():
            l[k] = max(l.get(k, 0), e)
        ra = tuple(sorted((k, e - da.get(k, 0)) for k, e in l.items() if e - da.get(k, 0)))
        rb = tuple(sorted((k, e - db.get(k, 0)) for k, e in l.items() if e - db.get(k, 0)))
        n = _padd(_pmul(a[0], {ra: Fraction(1)}), _pmul(b[0], {rb: Fraction(1)}))
        return _divout(n, {tuple(sorted(l.items())): Fraction(1)})
    return _divout(_padd(_pmul(a[0], b[1]), _pmul(b[0], a[1])), _pmul(a[1], b[1]))


def reduce_roots(num, cache):
    """Rewrite s**n to its radicand in a polynomial required to vanish."""
    for _ in range(60):
        rid = None
        ids = {}
        for m in num:
            for a, e in m:
                if a in ROOTS and e >= ROOTS[a][0]:
                    ids[a] = max(ids.get(a, 0), e)
        if not ids:
            return num
        rid = max(ids)          # latest root first: radicands contain earlier roots only
        n, rad, _ = ROOTS[rid]
        rn, rd = _rn(rad, cache)
        qmax = ids[rid] // n
        # powers
        pn, pd = [ONE], [ONE]
        for _k in range(qmax):
            pn.append(_pmul(pn[-1], rn))
            pd.append(_pmul(pd[-1], rd))
        groups = {}
        for m, c in num.items():
            d = dict(m)
            e = d.pop(rid, 0)
            q, r = divmod(e, n)
            if r:
                d[rid] = r
            groups.setdefault(q, {})[tuple(sorted(d.items()))] = c
        tot = {}
        for q, p in groups.items():
            f = pn[q] if rd == ONE else _pmul(pn[q], pd[qmax - q])
            tot = _padd(tot, _pmul(p, f))
        num = tot
    return num


def _zq(c):
    return z3.Q(c.numerator, c.denominator) if c.denominator != 1 else z3.RealVal(c.numerator)


def to_z3(num):
    terms = []
    for m, c in num.items():
        f = [] if c == 1 and m else [_zq(c)]
        for a, e in m:
            at = ATOMS[a]
            if at.sort() == z3.IntSort():
                at = z3.ToReal(at)
            f += [at] * e
        terms.append(z3.Product(f) if len(f) > 1 else f[0])
    if not terms:
        return z3.RealVal(0)
    return z3.Sum(terms) if len(terms) > 1 else terms[0]


# ---------------------------------------------------------------- fingerprint
_FP = {}


def _h(s):
    return int.from_bytes(hashlib.sha256(s.encode()).digest()[:8], 'big') % P


def _fpmul(a, b):
    """Product in the algebra generated by the roots."""
    if isinstance(a, int) and isinstance(b, int):
        return a * b % P
    if isinstance(a, int):
        a, b = b, a
    if isinstance(b, int):
        return _fpred({m: c * b % P for m, c in a.items()})
    out = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            d = dict(m1)
            for k, e in m2:
                d[k] = d.get(k, 0) + e
            t = c1 * c2 % P
            for k in list(d):
                n, rad, _ = ROOTS[k]
                if d[k] >= n:
                    d[k] -= n
                    if not d[k]:
                        del d[k]
                    t = _fpmul(t, fingerprint(rad))
            t = _fpmul(t, {tuple(sorted(d.items())): 1}) if d and not isinstance(t, int) else t
            if isinstance(t, int):
                t = {tuple(sorted(d.items())): t}
            if len(out) > 512:
                raise TooBig
            for m, c in t.items():
                out[m] = (out.get(m, 0) + c) % P
    return _fpred(out)


def _fpred(d):
    d = {m: c for m, c in d.items() if c}
    if not d:
        return 0
    if len(d) == 1 and () in d:
        return d[()]
    return d


def _fpadd(a, b, s=1):
    if isinstance(a, int) and isinstance(b, int):
        return (a + s * b) % P
    a = {(): a} if isinstance(a, int) else dict(a)
    for m, c in ({(): b} if isinstance(b, int) else b).items():
        a[m] = (a.get(m, 0) + s * c) % P
    return _fpred(a)


def _fpinv(a):
    if isinstance(a, int):
        return pow(a, P - 2, P)
    if len(a) > 1:          # an opaque value that only depends on the element, up to its scale
        c = pow(a[min(a)], P - 2, P)
        return _h('inverse ' + str(_fpkey(_fpmul(a, c)))) * c % P
    (mon, c), = a.items()
    r = pow(c, P - 2, P)
    for k, e in mon:
        n, rad, _ = ROOTS[k]
        r = _fpmul(_fpmul(r, {((k, n - e),): 1}), _fpinv(fingerprint(rad)))
    return r


def fingerprint(t):
    """Value of the term at a fixed pseudo-random point: a residue, or an element of the algebra of the roots."""
    i = t.get_id()
    if i in _FP:
        return _FP[i][0]
    k = t.decl().kind()
    if z3.is_rational_value(t):
        r = t.numerator_as_long() * pow(t.denominator_as_long(), P - 2, P) % P
    elif z3.is_int_value(t):
        r = t.as_long() % P
    elif k == z3.Z3_OP_ADD:
        r = 0
        for c in t.children():
            r = _fpadd(r, fingerprint(c))
    elif k == z3.Z3_OP_SUB:
        cs = t.children()
        r = fingerprint(cs[0])
        for c in cs[1:]:
            r = _fpadd(r, fingerprint(c), -1)
    elif k == z3.Z3_OP_UMINUS:
        r = _fpadd(0, fingerprint(t.arg(0)), -1)
    elif k == z3.Z3_OP_MUL:
        r = 1
        for c in t.children():
            r = _fpmul(r, fingerprint(c))
    elif k == z3.Z3_OP_DIV:
        r = _fpmul(fingerprint(t.arg(0)), _fpinv(fingerprint(t.arg(1))))
    elif k == z3.Z3_OP_TO_REAL:
        r = fingerprint(t.arg(0))
    elif i in ROOTS:
        r = {((i, 1),): 1}
    elif z3.is_app(t) and t.num_args() > 0:
        # application: a function of the fingerprints of its arguments
        r = _h(t.decl().name() + str(k) + '(' + ','.join(str(_fpany(c)) for c in t.children()) + ')')
    else:
        r = _h('const ' + str(t))
    _FP[i] = (r, t)
    return r


def _fpany(t):
    if z3.is_bool(t):
        if t.num_args() == 0:
            return str(t)
        return t.decl().name() + '(' + ','.join(str(_fpany(c)) for c in t.children()) + ')'
    return _fpkey(fingerprint(t))


def _fpkey(f):
    return f if isinstance(f, int) else tuple(sorted(f.items()))


def normal_key(t, n):
    """Key shared by equal terms.  Raises TooBig where the value has no normal form."""
    return (_fpkey(fingerprint(t)), None)


def cmp_round(A, B, rel):
    """A - B with coefficients that agree to rel dropped."""
    D = {}
    for m in A.keys() | B.keys():
        a, b = A.get(m, 0), B.get(m, 0)
        if a != b and abs(a - b) > rel * max(abs(a), abs(b)):
            D[m] = a - b
    return D


def _reduce_one(num, rid, cache, qmax):
    n, rad, _ = ROOTS[rid]
    rn, rd = _rn(rad, cache)
    pn, pd = [ONE], [ONE]
    for _k in range(qmax):
        pn.append(_pmul(pn[-1], rn))
        pd.append(_pmul(pd[-1], rd))
    groups = {}
    for m, c in num.items():
        d = dict(m)
        e = d.pop(rid, 0)
        q, r = divmod(e, n)
        if r:
            d[rid] = r
        groups.setdefault(q, {})[tuple(sorted(d.items()))] = c
    tot = {}
    for q, p in groups.items():
        f = pn[q] if rd == ONE else _pmul(pn[q], pd[qmax - q])
        tot = _padd(tot, _pmul(p, f))
    return tot


def reduce_pair(A, B, cache):
    """Reduce roots in both polynomials by the same multiplier."""
    for _ in range(60):
        ids = {}
        for num in (A, B):
            for m in num:
                for a, e in m:
                    if a in ROOTS and e >= ROOTS[a][0]:
                        ids[a] = max(ids.get(a, 0), e)
        if not ids:
            return A, B
        rid = max(ids)
        q = ids[rid] // ROOTS[rid][0]
        A, B = _reduce_one(A, rid, cache, q), _reduce_one(B, rid, cache, q)
    return A, B


# ---------------------------------------------------------------- canonical comparisons
class Canon:
    """Rewrites real comparisons to polynomial sign conditions; equal polynomials (up to a positive factor
    and the constant rounding) become the same term."""

    def __init__(self, rel, cache=None):
        self.rel, self.cache = rel, {} if cache is None else cache
        self.table, self.memo = {}, {}

    def sign_poly(self, t):
        n, d = ratnorm(t, self.cache)
        if d != ONE:
            if len(d) == 1:
                (m, c), = d.items()
                odd = tuple((a, 1) for a, e in m if e % 2)
                n = _pmul(n, {odd: c})
            else:
                n = _pmul(n, d)
        n, _ = reduce_pair(n, {}, self.cache)
        return n

    def term(self, n):
        """(z3 term, factor sign) of a polynomial."""
        if not n:
            return z3.RealVal(0), 1
        if len(n) == 1 and () in n:
            return z3.RealVal(1 if n[()] > 0 else -1), 1
        lead = min(n)
        s = 1 if n[lead] > 0 else -1
        k = abs(n[lead]) * s
        p = {m: c / k for m, c in n.items()}
        key = frozenset(p)
        for q, zt in self.table.setdefault(key, []):
            if not cmp_round(p, q, self.rel):
                return zt, s
        zt = to_z3(p)
        self.table[key].append((p, zt))
        return zt, s

    def __call__(self, f):
        i = f.get_id()
        if i in self.memo:
            return self.memo[i][0]
        r = self._go(f)
        self.memo[i] = (r, f)
        return r

    def _go(self, f):
        k = f.decl().kind()
        if k in (z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_IMPLIES, z3.Z3_OP_XOR):
            ch = [self(c) for c in f.children()]
            return {z3.Z3_OP_AND: z3.And, z3.Z3_OP_OR: z3.Or, z3.Z3_OP_NOT: z3.Not, z3.Z3_OP_IMPLIES: z3.Implies, z3.Z3_OP_XOR: z3.Xor}[k](*ch)
        if k == z3.Z3_OP_ITE and z3.is_bool(f):
            return z3.If(*[self(c) for c in f.children()])
        if k == z3.Z3_OP_EQ and z3.is_bool(f.arg(0)):
            return self(f.arg(0)) == self(f.arg(1))
        if k in (z3.Z3_OP_EQ, z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT, z3.Z3_OP_DISTINCT) and f.arg(0).sort() == z3.RealSort() and f.num_args() == 2:
            zt, s = self.term(self.sign_poly(f.arg(0) - f.arg(1)))
            zero = z3.RealVal(0)
            if k == z3.Z3_OP_EQ:
                return zt == zero
            if k == z3.Z3_OP_DISTINCT:
                return zt != zero
            if s < 0:
                k = {z3.Z3_OP_LE: z3.Z3_OP_GE, z3.Z3_OP_GE: z3.Z3_OP_LE, z3.Z3_OP_LT: z3.Z3_OP_GT, z3.Z3_OP_GT: z3.Z3_OP_LT}[k]
            # as <=, negations share the atom
            if k == z3.Z3_OP_LE:
                return zt <= zero
            if k == z3.Z3_OP_GT:
                return z3.Not(zt <= zero)
            if k == z3.Z3_OP_GE:
                return zt >= zero
            return z3.Not(zt >= zero)
        return f
