"""Strings with symbolic characters, and a backtracking regular-expression matcher over them.

A symbolic character is a z3 integer (a code point) with a finite set of possible values. In the underlying Python
string it is a placeholder from a private plane, so that slicing, joining and formatting work unchanged; every
operation that looks at characters is overridden below or refused (Unsupported).
"""
import re as _re
import types

import z3

from . import sym
from .sym import SV, SymBool, Unsupported

BASE = 0xF0000
CHARS, KEYS = [], {}


def placeholder(v, dom):
    """v: SV (integer code point); dom: the set of characters it ranges over."""
    t = v.z if isinstance(v, SV) else v
    key = t.sexpr(), frozenset(dom)
    if key not in KEYS:
        KEYS[key] = len(CHARS)
        CHARS.append((t, frozenset(dom)))
    return chr(BASE + KEYS[key])


def has(s):
    return isinstance(s, str) and any(BASE <= ord(c) < BASE + len(CHARS) for c in s)


def var(c):
    k = ord(c) - BASE
    return CHARS[k] if 0 <= k < len(CHARS) else None


def member(c, S):
    """Whether character c lies in the set S (a predicate on concrete characters)."""
    v = var(c)
    if v is None:
        return S(c)
    t, dom = v
    inn = sorted(ord(x) for x in dom if S(x))
    if len(inn) == len(dom):
        return True
    if not inn:
        return False
    runs, lo = [], inn[0]
    for a, b in zip(inn, inn[1:] + [None]):
        if b != a + 1:
            runs.append(t == lo if lo == a else z3.And(t >= lo, t <= a))
            lo = b
    return SymBool(z3.Or(*runs))


def same(a, b):
    va, vb = var(a), var(b)
    if va is None and vb is None:
        return a == b
    if va is None:
        return member(b, lambda x: x == a)
    if vb is None:
        return member(a, lambda x: x == b)
    if a == b:
        return True
    if not va[1] & vb[1]:
        return False
    return SymBool(va[0] == vb[0])


def all_(xs):
    r = True
    for x in xs:
        if x is False:
            return False
        r = x if r is True else r if x is True else sym._and(r, x)
    return r


def any_(xs):
    r = False
    for x in xs:
        if x is True:
            return True
        r = x if r is False else r if x is False else sym._or(r, x)
    return r


def equal(a, b):
    return len(a) == len(b) and all_(same(x, y) for x, y in zip(a, b))


class SymStr(str):
    def __eq__(self, o):
        return equal(str(self), str(o)) if isinstance(o, str) else False

    def __ne__(self, o):
        r = self == o
        return (not r) if isinstance(r, bool) else sym._not(r)

    def __hash__(self):
        raise Unsupported('hash of a symbolic string')

    def __str__(self):
        return str.__str__(self)

    def __contains__(self, o):
        return bool(any_(equal(str.__getitem__(self, slice(i, i + len(o))), str(o)) for i in range(len(self) - len(o) + 1)))

    def __getitem__(self, k):
        return wrap(str.__getitem__(self, k))

    def __iter__(self):
        return (wrap(c) for c in str.__iter__(self))

    def __add__(self, o):
        return wrap(str.__add__(self, o))

    def __radd__(self, o):
        return wrap(str.__add__(str(o), str(self)))

    def startswith(self, p, *a):
        if a:
            raise Unsupported('startswith with a range')
        ps = p if isinstance(p, tuple) else (p,)
        return bool(any_(equal(str.__getitem__(self, slice(0, len(q))), q) for q in ps))

    def endswith(self, p, *a):
        if a:
            raise Unsupported('endswith with a range')
        ps = p if isinstance(p, tuple) else (p,)
        return bool(any_(len(q) <= len(self) and equal(str.__getitem__(self, slice(len(self) - len(q), None)), q) for q in ps))

    def find(self, o, *a):
        if a:
            raise Unsupported('find with a range')
        for i in range(len(self) - len(o) + 1):
            if bool(equal(str.__getitem__(self, slice(i, i + len(o))), o)):
                return i
        return -1

    def rfind(self, o, *a):
        if a:
            raise Unsupported('rfind with a range')
        for i in range(len(self) - len(o), -1, -1):
            if bool(equal(str.__getitem__(self, slice(i, i + len(o))), o)):
                return i
        return -1

    def index(self, o):
        i = self.find(o)
        if i < 0:
            raise ValueError('substring not found')
        return i

    def count(self, o):
        n, s = 0, self
        while (i := wrapsym(s).find(o)) >= 0:
            n, s = n + 1, str.__getitem__(s, slice(i + len(o), None))
        return n

    def partition(self, o):
        i = self.find(o)
        return (self, '', '') if i < 0 else (self[:i], o, self[i + len(o):])

    def rpartition(self, o):
        i = self.rfind(o)
        return ('', '', self) if i < 0 else (self[:i], o, self[i + len(o):])

    def split(self, sep=None, maxsplit=-1):
        if sep is None:
            raise Unsupported('split on blanks')
        out, s = [], self
        while maxsplit != 0 and (i := wrapsym(s).find(sep)) >= 0:
            out.append(wrap(s[:i]))
            s = wrapsym(s[i + len(sep):])
            maxsplit -= 1
        return out + [wrap(str(s))]

    def rsplit(self, sep=None, maxsplit=-1):
        if sep is None:
            raise Unsupported('split on blanks')
        out, s = [], self
        while maxsplit != 0 and (i := wrapsym(s).rfind(sep)) >= 0:
            out.append(wrap(str.__getitem__(s, slice(i + len(sep), None))))
            s = wrapsym(str.__getitem__(s, slice(0, i)))
            maxsplit -= 1
        return [wrap(str(s))] + out[::-1]

    def isdigit(self):
        return len(self) > 0 and bool(all_(member(c, str.isdigit) for c in str(self)))
    isnumeric = isdecimal = isdigit


_KEEP = {'__new__', '__class__', '__len__', '__init__', '__repr__', '__getattribute__', '__setattr__', '__delattr__', '__doc__', '__dir__', '__init_subclass__', '__subclasshook__', '__sizeof__',
         '__reduce__', '__reduce_ex__', '__format__', 'join', 'encode', '__getnewargs__', '__getstate__'}


def _refuse(name):
    def f(self, *a, **k):
        raise Unsupported(f'str.{name} of a symbolic string')
    return f


for _n in dir(str):
    if _n not in _KEEP and _n not in SymStr.__dict__:
        setattr(SymStr, _n, _refuse(_n))


def wrap(s):
    s = str(s)
    return SymStr(s) if has(s) else s


def wrapsym(s):
    return s if isinstance(s, SymStr) else SymStr(s)


def make(parts):
    """parts: strings and placeholders."""
    return wrap(''.join(parts))


def to_int(s):
    """int(s) of a string of symbolic and concrete digits."""
    sign, t = 1, str(s)
    if t and var(t[0]) is None and t[0] in '+-':
        sign, t = (-1 if t[0] == '-' else 1), t[1:]
    if not t or not bool(all_(member(c, str.isdigit) for c in t)):
        raise ValueError('invalid literal for int()')
    r = 0
    for c in t:
        v = var(c)
        r = r * 10 + (SV(v[0]) - 48 if v is not None else int(c))
    return r * sign


# ---------------------------------------------------------------- regular expressions
def _category(name):
    n = str(name)
    pos = {'CATEGORY_DIGIT': str.isdigit, 'CATEGORY_SPACE': str.isspace, 'CATEGORY_WORD': lambda c: c.isalnum() or c == '_'}
    for k, f in pos.items():
        if n == k:
            return f
        if n == k.replace('CATEGORY_', 'CATEGORY_NOT_'):
            return lambda c, f=f: not f(c)
    raise Unsupported(f'character category {n}')


def _set(items, flags):
    neg, fs = False, []
    for op, av in items:
        o = str(op)
        if o == 'NEGATE':
            neg = True
        elif o == 'LITERAL':
            fs.append(lambda c, a=av: ord(c) == a)
        elif o == 'RANGE':
            fs.append(lambda c, a=av: a[0] <= ord(c) <= a[1])
        elif o == 'CATEGORY':
            fs.append(_category(av))
        else:
            raise Unsupported(f'{o} in a set')

    def f(c):
        cs = {c, c.lower(), c.upper()} if flags & _re.I else {c}
        return any(g(x) for g in fs for x in cs) != neg
    return f


def _need(c, ch, f):
    """The condition c with character ch restricted to f (None when that is impossible)."""
    v = var(ch)
    if v is None:
        return c if f(ch) else None
    old = c.get(ch, v[1])
    new = frozenset(x for x in old if f(x))
    if not new:
        return None
    return c if len(new) == len(v[1]) else {**c, ch: new}


class Match:
    def __init__(self, s, groups, names):
        self.string, self._g, self._names, self.re = s, groups, names, None

    def group(self, *ks):
        r = tuple(self._one(k) for k in ks or (0,))
        return r[0] if len(r) == 1 else r

    def _one(self, k):
        k = self._names.get(k, k)
        g = self._g.get(k)
        return None if g is None else wrap(str(self.string)[g[0]:g[1]])
    __getitem__ = _one

    def groups(self, default=None):
        n = max([0, *self._names.values(), self._n])
        return tuple(default if self._g.get(i) is None else self._one(i) for i in range(1, n + 1))

    def groupdict(self, default=None):
        return {k: default if self._g.get(i) is None else self._one(i) for k, i in self._names.items()}

    def span(self, k=0):
        return self._g.get(self._names.get(k, k), (-1, -1))

    def start(self, k=0): return self.span(k)[0]
    def end(self, k=0): return self.span(k)[1]


class Pattern:
    def __init__(self, p, flags=0):
        if has(p):
            raise Unsupported('symbolic pattern')
        self.pattern, self.real = p, _re.compile(p, flags)
        self.flags, self.groups, self.groupindex = self.real.flags, self.real.groups, self.real.groupindex
        self.tree = list(_re._parser.parse(p, flags))

    def _run(self, ops, i, s, p, g, c):
        """Yield (position, groups, condition) of the matches of ops[i:] at p in order of preference; the condition
        maps characters to the values they must have."""
        if i == len(ops):
            yield p, g, c
            return
        op, av = ops[i]
        o = str(op)
        rest = lambda p, g, c: self._run(ops, i + 1, s, p, g, c)   # noqa: E731
        if o in ('LITERAL', 'NOT_LITERAL', 'ANY', 'IN'):
            if p >= len(s):
                return
            if o == 'ANY':
                f = (lambda c: True) if self.flags & _re.S else (lambda c: c != '\n')
            elif o == 'IN':
                f = _set(av, self.flags)
            else:
                f = _set([('LITERAL', av)], self.flags)
                if o == 'NOT_LITERAL':
                    f = (lambda h: lambda c: not h(c))(f)
            c = _need(c, s[p], f)
            if c is not None:
                yield from rest(p + 1, g, c)
        elif o == 'AT':
            n = str(av)
            if n in ('AT_BEGINNING', 'AT_BEGINNING_STRING'):
                ok = p == 0
            elif n == 'AT_END':
                ok = p == len(s)
                if p == len(s) - 1:
                    c = _need(c, s[p], lambda x: x == '\n')
                    ok = c is not None
            elif n == 'AT_END_STRING':
                ok = p == len(s)
            else:
                raise Unsupported(n)
            if ok:
                yield from rest(p, g, c)
        elif o == 'SUBPATTERN':
            k, add, rem, sub = av
            if add or rem:
                raise Unsupported('flags in a group')
            for q, h, d in self._run(list(sub), 0, s, p, g, c):
                yield from rest(q, {**h, k: (p, q)} if k is not None else h, d)
        elif o == 'BRANCH':
            for sub in av[1]:
                for q, h, d in self._run(list(sub), 0, s, p, g, c):
                    yield from rest(q, h, d)
        elif o in ('MAX_REPEAT', 'MIN_REPEAT'):
            lo, hi, sub = av
            sub, hi = list(sub), int(hi) if str(hi) != 'MAXREPEAT' else len(s) + 1

            def rep(n, p, g, c):
                if o == 'MIN_REPEAT' and n >= lo:
                    yield from rest(p, g, c)
                if n < hi:
                    for q, h, d in self._run(sub, 0, s, p, g, c):
                        if q > p or n < lo:
                            yield from rep(n + 1, q, h, d)
                if o == 'MAX_REPEAT' and n >= lo:
                    yield from rest(p, g, c)
            yield from rep(0, p, g, c)
        else:
            raise Unsupported(f'regular expression: {o}')

    def _try(self, s, p, end):
        failed = []
        for q, g, c in self._run(self.tree, 0, str(s), p, {}, {}):
            if end and q != len(s):
                continue
            if any(all(k in c and c[k] <= v for k, v in d.items()) for d in failed):
                continue
            if not bool(all_(member(k, lambda x, v=v: x in v) for k, v in c.items())):
                failed.append(c)
                continue
            m = Match(s, {**g, 0: (p, q)}, dict(self.groupindex))
            m._n, m.re = self.groups, self
            return m
        return None

    def match(self, s):
        return self._try(s, 0, False) if has(s) else self.real.match(s)

    def fullmatch(self, s):
        return self._try(s, 0, True) if has(s) else self.real.fullmatch(s)

    def search(self, s):
        if not has(s):
            return self.real.search(s)
        for p in range(len(s) + 1):
            if (m := self._try(s, p, False)) is not None:
                return m
        return None

    def finditer(self, s):
        if not has(s):
            yield from self.real.finditer(s)
            return
        p = 0
        while p <= len(s):
            m = self._try(s, p, False)
            if m is None:
                p += 1
                continue
            yield m
            p = max(m.end(), p + 1)

    def findall(self, s):
        if not has(s):
            return self.real.findall(s)
        out = []
        for m in self.finditer(s):
            out.append(m.group(0) if self.groups == 0 else m.group(1) if self.groups == 1 else m.groups())
        return out

    def __getattr__(self, n):
        raise Unsupported(f'regular expression method {n}')


def re_module():
    m = types.ModuleType('re')
    m.__dict__.update({k: v for k, v in _re.__dict__.items() if not k.startswith('__')})
    m.compile = lambda p, flags=0: p if isinstance(p, Pattern) else Pattern(p, flags)
    for n in ('match', 'search', 'fullmatch', 'findall', 'finditer'):
        setattr(m, n, lambda p, s, flags=0, n=n: getattr(m.compile(p, flags), n)(s))
    for n in ('sub', 'subn', 'split'):
        def f(p, *a, n=n, **k):
            if any(has(x) for x in a):
                raise Unsupported(f're.{n} of a symbolic string')
            return getattr(_re, n)(p.real if isinstance(p, Pattern) else p, *a, **k)
        setattr(m, n, f)
    return m
