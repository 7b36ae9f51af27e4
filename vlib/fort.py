"""Fortran sources, interpreted on symbolic numbers, and the index analysis of their array accesses.

The sources are parsed on every run.  Interp executes them with solver variables for the
reals (every array access is checked against the declared bounds); Bounds treats the integer
arguments as solver integers, replaces every loop by one symbolic iteration and asks whether
an index can leave its array.  Counterexamples run on the compiled sources (gfortran with
bounds checks and the address sanitizer)."""
import fcntl
import hashlib
import os
import re
import subprocess
import sys
from fractions import Fraction

from . import sym
from .cxx import _limits
from .loader import HarnessGap, REPO

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(HERE, '.build')
DIR = os.path.join(REPO, 'fornberg-num-deriv', 'fornberg_num_deriv')


class FortranStop(SystemExit):
    pass


class OutOfBounds(Exception):
    pass


class Unread(Exception):
    """A variable is used before it has a value."""


# ------------------------------------------------------------------ parsing
TOK = re.compile(r'''\s*(?:
 (?P<num>(?:\d+\.\d*(?![a-z]+\.)|\.\d+|\d+(?=[ed][+-]?\d)|\d+(?!\.\d)(?!\.(?![a-z]))) (?:[ed][+-]?\d+)? (?:_\w+)?) |
 (?P<dot>\.(?:and|or|not|eqv|neqv|eq|ne|lt|le|gt|ge|true|false)\.) |
 (?P<name>[a-z_]\w*) |
 (?P<str>'[^']*'|"[^"]*") |
 (?P<op>\*\*|==|/=|<=|>=|\(/|/\)|::|=>|[-+*/()<>=,:%\[\]])
)''', re.X)
REL = {'eq': '==', 'ne': '/=', 'lt': '<', 'le': '<=', 'gt': '>', 'ge': '>='}


def tokens(s):
    out, i = [], 0
    s = s.rstrip()
    while i < len(s):
        m = TOK.match(s, i)
        if not m or m.end() == i:
            raise HarnessGap(f'Fortran: cannot read {s[i:i + 40]!r}')
        k = m.lastgroup
        v = m.group(k)
        if k == 'dot':
            w = v.strip('.')
            if w in REL:
                out.append(('op', REL[w]))
            elif w in ('true', 'false'):
                out.append(('bool', w == 'true'))
            else:
                out.append(('op', w))
        else:
            out.append((k, v))
        i = m.end()
    return out


def number(v):
    v = re.sub(r'_\w+$', '', v)
    if re.fullmatch(r'\d+', v):
        return ('int', int(v))
    return ('real', Fraction(v.replace('d', 'e')))


class P:
    def __init__(self, toks):
        self.t, self.i = toks, 0

    def peek(self):
        return self.t[self.i] if self.i < len(self.t) else (None, None)

    def is_(self, *ops):
        k, v = self.peek()
        return k == 'op' and v in ops

    def eat(self, v=None):
        k = self.peek()
        if v is not None and k[1] != v:
            raise HarnessGap(f'Fortran: {v!r} expected in {self.t}')
        self.i += 1
        return k

    def binary(self, ops, sub):
        a = sub()
        while self.is_(*ops):
            o = self.eat()[1]
            a = ('bin', o, a, sub())
        return a

    def expr(self):
        return self.binary(('eqv', 'neqv'), lambda: self.binary(('or',), lambda: self.binary(('and',), self.neg)))

    def neg(self):
        if self.is_('not'):
            self.eat()
            return ('un', 'not', self.neg())
        return self.rel()

    def rel(self):
        a = self.add()
        if self.is_('==', '/=', '<', '<=', '>', '>='):
            o = self.eat()[1]
            return ('bin', o, a, self.add())
        return a

    def add(self):
        if self.is_('-', '+'):
            o = self.eat()[1]
            a = self.mul()
            a = ('un', '-', a) if o == '-' else a
        else:
            a = self.mul()
        while self.is_('+', '-'):
            o = self.eat()[1]
            a = ('bin', o, a, self.mul())
        return a

    def mul(self):
        return self.binary(('*', '/'), self.pow)

    def pow(self):
        a = self.atom()
        if self.is_('**'):
            self.eat()
            if self.is_('-', '+'):
                o = self.eat()[1]
                b = self.pow()
                return ('bin', '**', a, ('un', '-', b) if o == '-' else b)
            return ('bin', '**', a, self.pow())
        return a

    def args(self):
        """( a, b:c, k=v )"""
        self.eat('(')
        r = []
        while not self.is_(')'):
            r.append(self.arg())
            if self.is_(','):
                self.eat()
        self.eat(')')
        return r

    def arg(self):
        if self.peek()[0] == 'name' and self.i + 1 < len(self.t) and self.t[self.i + 1] == ('op', '='):
            n = self.eat()[1]
            self.eat()
            return ('kw', n, self.expr())
        lo = None
        if not self.is_(':'):
            lo = self.expr()
        if self.is_(':'):
            self.eat()
            hi = None if self.is_(',', ')', ':') else self.expr()
            st = None
            if self.is_(':'):
                self.eat()
                st = self.expr()
            return ('range', lo, hi, st)
        return lo

    def atom(self):
        k, v = self.peek()
        if k == 'num':
            self.eat()
            return number(v)
        if k == 'bool':
            self.eat()
            return ('bool', v)
        if k == 'str':
            self.eat()
            return ('str', v[1:-1])
        if k == 'name':
            self.eat()
            if self.is_('('):
                return ('ref', v, self.args())
            return ('var', v)
        if self.is_('('):
            self.eat()
            e = self.expr()
            self.eat(')')
            return e
        if self.is_('(/', '['):
            c = {'(/': '/)', '[': ']'}[self.eat()[1]]
            r = []
            while not self.is_(c):
                r.append(self.expr())
                if self.is_(','):
                    self.eat()
            self.eat()
            return ('list', r)
        raise HarnessGap(f'Fortran: {self.t}')


def expression(s):
    p = P(tokens(s))
    e = p.expr()
    if p.i != len(p.t):
        raise HarnessGap(f'Fortran: cannot read {s!r}')
    return e


def split_top(s, c=','):
    out, d, cur = [], 0, ''
    for ch in s:
        d += ch in '([' and 1 or ch in ')]' and -1 or 0
        if ch == c and d == 0:
            out.append(cur)
            cur = ''
        else:
            cur += ch
    return out + [cur] if cur.strip() or out else []


def matching(s, i):
    d = 0
    for j in range(i, len(s)):
        d += s[j] == '('
        d -= s[j] == ')'
        if d == 0:
            return j
    raise HarnessGap(f'Fortran: {s!r}')


def lines(text):
    out, cur = [], ''
    for raw in text.splitlines():
        # comments, outside strings
        s, q = '', None
        for ch in raw:
            if q:
                q = None if ch == q else q
            elif ch in '\'"':
                q = ch
            elif ch == '!':
                break
            s += ch
        s = s.strip()
        if not s:
            continue
        if s.startswith('&'):
            s = s[1:].strip()
        if s.endswith('&'):
            cur += s[:-1] + ' '
            continue
        cur += s
        parts = re.split(r''';(?=(?:[^'"]|'[^']*'|"[^"]*")*$)''', cur)
        for x in parts:
            if x.strip():
                # lower case outside strings
                out.append(re.sub(r'''('[^']*'|"[^"]*")|([^'"]+)''', lambda m: m.group(1) or m.group(2).lower(), x.strip()))
        cur = ''
    return out


DECL = re.compile(r'^(integer|real|double\s+precision|logical|character|type)\b')


class Proc:
    def __init__(self, name, args, kind, result):
        self.name, self.args, self.kind, self.result = name, args, kind, result
        self.decls = {}
        self.body = []
        self.module = None


class Decl:
    __slots__ = ('type', 'dims', 'init', 'param', 'intent')

    def __init__(self, type_, dims, init, param, intent):
        self.type, self.dims, self.init, self.param, self.intent = type_, dims, init, param, intent


def declarations(s):
    m = DECL.match(s)
    if '::' in s:
        attrs, names = s.split('::', 1)
    else:
        m2 = re.match(r'^(integer|real|double\s+precision|logical)\s*(\*\s*\d+|\([^)]*\))?\s*(.*)$', s)
        attrs, names = (m2.group(1) + (m2.group(2) or '')), m2.group(3)
    a = split_top(attrs)
    typ = re.sub(r'\s+', '', re.sub(r'[(*].*', '', a[0])).strip()
    typ = 'real' if typ == 'doubleprecision' else typ
    dims, param, intent = None, False, None
    for x in a[1:]:
        x = x.strip()
        if x.startswith('dimension'):
            dims = split_top(x[x.index('(') + 1:x.rindex(')')])
        elif x == 'parameter':
            param = True
        elif x.startswith('intent'):
            intent = re.sub(r'\s', '', x)[7:-1]
        elif x in ('save', 'allocatable', 'pointer', 'target', 'optional'):
            raise HarnessGap(f'Fortran: attribute {x}')
    out = {}
    for x in split_top(names):
        x = x.strip()
        init = None
        mm = re.search(r'(?<![=<>/])=(?![=>])', x)
        if mm:
            init = expression(x[mm.end():])
            x = x[:mm.start()].strip()
        d = dims
        if '(' in x:
            d = split_top(x[x.index('(') + 1:x.rindex(')')])
            x = x[:x.index('(')].strip()
        dd = None
        if d is not None:
            dd = []
            for q in d:
                q = q.strip()
                if ':' in q:
                    lo, hi = q.split(':')
                    dd.append((expression(lo) if lo.strip() else ('int', 1), expression(hi) if hi.strip() else None))
                elif q == '*':
                    dd.append((('int', 1), None))
                else:
                    dd.append((('int', 1), expression(q)))
        out[x] = Decl(typ, dd, init, param, intent)
    return out


class Program:
    def __init__(self, files):
        self.procs, self.globals = {}, {}
        for f in files:
            with open(f) as fh:
                self.lines = lines(fh.read())
            self.i = 0
            self.unit()

    def next(self):
        s = self.lines[self.i]
        self.i += 1
        return s

    def unit(self):
        while self.i < len(self.lines):
            s = self.lines[self.i]
            if re.match(r'^(module\s+\w+|contains|implicit\s+none|use\s.*|private.*|public.*|save)$', s) or re.match(r'^end\s*module', s) or s == 'end':
                self.i += 1
            elif re.match(r'^((pure|elemental|recursive)\s+)*(subroutine)\s', s) or re.search(r'\bfunction\s+\w+\s*\(', s):
                self.proc()
            elif DECL.match(s):
                self.globals.update(declarations(self.next()))
            else:
                raise HarnessGap(f'Fortran: {s!r}')

    def proc(self):
        s = self.next()
        m = re.match(r'^(.*?)\b(subroutine|function)\s+(\w+)\s*(?:\(([^)]*)\))?(.*)$', s)
        pre, kind, name, args, rest = m.groups()
        args = [a.strip() for a in (args or '').split(',') if a.strip()]
        res = re.search(r'result\s*\(\s*(\w+)\s*\)', rest)
        p = Proc(name, args, kind, res.group(1) if res else name)
        pt = re.sub(r'\b(pure|elemental|recursive)\b', '', pre).strip()
        if pt:
            p.decls.update(declarations(f'{pt} :: {p.result}'))
        self.procs[name] = p
        while True:
            s = self.lines[self.i]
            if re.match(r'^(use\s.*|implicit\s+none|intent\b.*)$', s):
                self.i += 1
            elif DECL.match(s) and not re.match(r'^\w+\s*=', s):
                self.i += 1
                p.decls.update(declarations(s))
            else:
                break
        p.body = self.block(lambda s: re.match(r'^end\s*(subroutine|function|procedure)?(\s+\w+)?$', s) and not re.match(r'^end\s*(if|do|select)', s) or s == 'contains')
        if self.lines[self.i] == 'contains':
            raise HarnessGap('Fortran: internal procedures')
        self.i += 1

    def block(self, end):
        out = []
        while True:
            if self.i >= len(self.lines):
                raise HarnessGap('Fortran: unexpected end of file')
            s = self.lines[self.i]
            if end(s):
                return out
            out.append(self.statement())

    def statement(self):
        s = re.sub(r'^(?:\w+\s*:\s*)(?=do\b|if\b|select\b)', '', self.next())
        m = re.match(r'^if\s*\(', s)
        if m:
            j = matching(s, m.end() - 1)
            cond, rest = expression(s[m.end():j]), s[j + 1:].strip()
            if rest == 'then':
                arms, other = [], []
                while True:
                    b = self.block(lambda s: re.match(r'^(else\s*if|else\b|end\s*if)', s))
                    if cond is not None:
                        arms.append((cond, b))
                    else:
                        other = b
                    s = self.next()
                    if re.match(r'^end\s*if', s):
                        return ('if', arms, other)
                    m = re.match(r'^else\s*if\s*\(', s)
                    if m:
                        j = matching(s, m.end() - 1)
                        cond = expression(s[m.end():j])
                    else:
                        cond = None
            return ('if', [(cond, [self.simple(rest)])], [])
        m = re.match(r'^do\s+while\s*\((.*)\)$', s)
        if m or s == 'do':
            b = self.block(lambda s: re.match(r'^end\s*do', s))
            self.i += 1
            return ('while', expression(m.group(1)) if m else ('bool', True), b)
        m = re.match(r'^do\s+(\w+)\s*=\s*(.*)$', s)
        if m:
            e = [expression(x) for x in split_top(m.group(2))]
            b = self.block(lambda s: re.match(r'^end\s*do', s))
            self.i += 1
            return ('do', m.group(1), e[0], e[1], e[2] if len(e) > 2 else None, b)
        m = re.match(r'^select\s*case\s*\((.*)\)$', s)
        if m:
            x = expression(m.group(1))
            arms, other = [], []
            while True:
                s = self.next()
                if re.match(r'^end\s*select', s):
                    return ('if', arms, other)
                m = re.match(r'^case\s*(default|\((.*)\))', s)
                if not m:
                    raise HarnessGap(f'Fortran: {s!r}')
                b = self.block(lambda s: re.match(r'^(case\b|end\s*select)', s))
                if m.group(1) == 'default':
                    other = b
                    continue
                c = None
                for v in split_top(m.group(2)):
                    if ':' in v:
                        lo, hi = v.split(':')
                        t = None
                        if lo.strip():
                            t = ('bin', '>=', x, expression(lo))
                        if hi.strip():
                            h = ('bin', '<=', x, expression(hi))
                            t = h if t is None else ('bin', 'and', t, h)
                    else:
                        t = ('bin', '==', x, expression(v))
                    c = t if c is None else ('bin', 'or', c, t)
                arms.append((c, b))
        return self.simple(s)

    def simple(self, s):
        m = re.match(r'^(error\s+)?stop\b', s)
        if m:
            return ('stop',)
        if re.match(r'^call\s', s):
            p = P(tokens(s[5:]))
            n = p.eat()[1]
            return ('call', n, p.args() if p.is_('(') else [])
        if s in ('return', 'continue', 'exit', 'cycle') or re.match(r'^(exit|cycle)$', s):
            return (s,)
        if re.match(r'^(print|write)\b', s):
            return ('continue',)
        d = 0
        for j, ch in enumerate(s):
            d += ch == '('
            d -= ch == ')'
            if ch == '=' and d == 0 and s[j + 1:j + 2] not in '=>' and s[j - 1] not in '=/<>':
                p = P(tokens(s[:j]))
                return ('set', p.atom(), expression(s[j + 1:]))
        raise HarnessGap(f'Fortran: {s!r}')


# ------------------------------------------------------------------ values
class Block:
    """Storage of an array."""

    def __init__(self, data, name):
        self.data, self.name = data, name


class Arr:
    def __init__(self, block, off, lows, shape):
        self.block, self.off, self.lows, self.shape = block, off, lows, shape

    def pos(self, idx):
        p, st = self.off, 1
        for i, lo, n in zip(idx, self.lows, self.shape):
            if n is not None and not lo <= i < lo + n:
                raise OutOfBounds(f'index {i} of {self.block.name} is outside {lo}:{lo + n - 1}')
            if n is None and i < lo:
                raise OutOfBounds(f'index {i} of {self.block.name} is below {lo}')
            p += (i - lo) * st
            st *= n if n is not None else 1
        if not 0 <= p < len(self.block.data):
            raise OutOfBounds(f'element {p + 1} of {self.block.name}, which has {len(self.block.data)}')
        return p

    def elements(self):
        if any(n is None for n in self.shape):
            raise HarnessGap('Fortran: assumed-size array as a whole')
        out = []

        def go(k, idx):
            if k < 0:
                out.append(self.pos(idx))
                return
            for i in range(self.shape[k]):
                go(k - 1, [self.lows[k] + i] + idx)
        go(len(self.shape) - 1, [])
        return out


class Section:
    """Selected elements of an array (rank one)."""

    def __init__(self, block, where):
        self.block, self.where = block, where

    def elements(self):
        return self.where


class _Exit(Exception): pass
class _Cycle(Exception): pass
class _Return(Exception): pass


def trunc_div(a, b):
    q = abs(a) // abs(b)
    return q if (a >= 0) == (b >= 0) else -q


class Interp:
    def __init__(self, program, real=lambda v: v):
        self.p, self.real = program, real
        self.globals = {}
        for n, d in program.globals.items():
            if d.dims is None:
                self.globals[n] = self.ev(d.init, self.globals) if d.init is not None else None
            else:
                raise HarnessGap('Fortran: module arrays')

    # calls
    def call(self, name, args, kw=None):
        if name not in self.p.procs:
            raise HarnessGap(f'Fortran: {name} is missing')
        pr = self.p.procs[name]
        given = dict(zip(pr.args, args))
        given.update(kw or {})
        if set(given) != set(pr.args):
            raise HarnessGap(f'Fortran: arguments of {name} changed: {pr.args}')
        fr = dict(self.globals)
        for k, v in given.items():      # scalars first, the dimensions may need them
            if not isinstance(v, (Arr, Section)):
                fr[k] = v
        for k, d in sorted(pr.decls.items(), key=lambda x: x[1].init is None):
            if d.param:
                fr[k] = self.ev(d.init, fr)
        for k, d in pr.decls.items():
            if d.param:
                continue
            if d.dims is None:
                if k not in given:
                    fr[k] = None if d.init is None else self.ev(d.init, fr)
                continue
            if k in given:
                a = given[k]
                if isinstance(a, Section):
                    lo, shp = self.dims(d, fr)
                    if len(shp) != 1:
                        raise HarnessGap('Fortran: section for a matrix')
                    fr[k] = Arr(a.block, a.where[0] if a.where else 0, lo, shp)
                    if a.where and list(a.where) != list(range(a.where[0], a.where[0] + len(a.where))):
                        raise HarnessGap('Fortran: section with gaps as an argument')
                    continue
                if not isinstance(a, Arr):
                    raise HarnessGap(f'Fortran: {k} is no array')
                lo, shp = self.dims(d, fr, a)
                fr[k] = Arr(a.block, a.off, lo, shp)
                if d.intent == 'out':
                    pass
            else:
                lo, shp = self.dims(d, fr)
                n = 1
                for s in shp:
                    n *= s
                fr[k] = Arr(Block([None] * n, k), 0, lo, shp)
                if d.init is not None:
                    v = self.ev(d.init, fr)
                    fr[k].block.data = [v] * n
        try:
            self.run(pr.body, fr, pr)
        except _Return:
            pass
        return fr.get(pr.result) if pr.kind == 'function' else fr

    def dims(self, d, fr, actual=None):
        lo, shp = [], []
        for q, (a, b) in enumerate(d.dims):
            low = self.ev(a, fr)
            lo.append(low)
            if b is None:
                shp.append(actual.shape[q] if actual is not None and len(actual.shape) == len(d.dims) else None)
            else:
                shp.append(max(self.ev(b, fr) - low + 1, 0))
        return lo, shp

    # statements
    def run(self, body, fr, pr):
        for s in body:
            k = s[0]
            if k == 'set':
                self.assign(s[1], s[2], fr, pr)
            elif k == 'if':
                for c, b in s[1]:
                    if self.truth(self.ev(c, fr)):
                        self.run(b, fr, pr)
                        break
                else:
                    self.run(s[2], fr, pr)
            elif k == 'do':
                lo, hi = self.ev(s[2], fr), self.ev(s[3], fr)
                st = self.ev(s[4], fr) if s[4] is not None else 1
                i = lo
                try:
                    for _ in range(max((hi - lo + st) // st, 0)):
                        fr[s[1]] = i
                        try:
                            self.run(s[5], fr, pr)
                        except _Cycle:
                            pass
                        i += st
                except _Exit:
                    continue
                fr[s[1]] = i
            elif k == 'while':
                try:
                    n = 0
                    while self.truth(self.ev(s[1], fr)):
                        n += 1
                        if n > 10000:
                            raise HarnessGap('Fortran: endless loop')
                        try:
                            self.run(s[2], fr, pr)
                        except _Cycle:
                            pass
                except _Exit:
                    pass
            elif k == 'call':
                self.invoke(s[1], s[2], fr)
            elif k == 'stop':
                raise FortranStop(1)
            elif k == 'return':
                raise _Return()
            elif k == 'exit':
                raise _Exit()
            elif k == 'cycle':
                raise _Cycle()

    def actual(self, e, fr):
        """An argument that the callee may write to."""
        if e[0] == 'var' and isinstance(fr.get(e[1]), Arr):
            return fr[e[1]]
        if e[0] == 'ref' and isinstance(fr.get(e[1]), Arr):
            a = fr[e[1]]
            if any(x[0] == 'range' for x in e[2]):
                return self.section(a, e[2], fr)
            p = a.pos([self.ev(x, fr) for x in e[2]])
            return Arr(a.block, p, [1], [None])
        return self.ev(e, fr)

    def invoke(self, name, args, fr):
        if name not in self.p.procs:
            raise HarnessGap(f'Fortran: {name} is missing')
        pr = self.p.procs[name]
        pos, kw, back = [], {}, []
        for j, a in enumerate(args):
            e = a[2] if a[0] == 'kw' else a
            formal = a[1] if a[0] == 'kw' else pr.args[j]
            d = pr.decls.get(formal)
            v = self.actual(e, fr)
            if d is not None and d.dims is None and isinstance(v, Arr):
                v = self.ev(e, fr)      # an element for a scalar
            if d is not None and d.dims is None and e[0] in ('var', 'ref') and d.intent != 'in':
                back.append((e, formal))
            if a[0] == 'kw':
                kw[formal] = v
            else:
                pos.append(v)
        r = self.call(name, pos, kw)
        if pr.kind == 'function':
            return r
        for e, formal in back:
            if not isinstance(r.get(formal), (Arr, Section)):
                self.store(e, r.get(formal), fr)

    def assign(self, lhs, rhs, fr, pr):
        v = self.ev(rhs, fr)
        n = lhs[1]
        d = pr.decls.get(n)
        if d is not None and d.type == 'real':
            v = [self.real(x) for x in v] if isinstance(v, list) else v if isinstance(v, (Arr, Section)) else self.real(v)
        elif d is not None and d.type == 'integer' and not isinstance(v, (int, list)):
            if isinstance(v, Fraction):
                v = int(v)
            else:
                raise HarnessGap('Fortran: rounding of a symbolic number')
        self.store(lhs, v, fr)

    def store(self, lhs, v, fr):
        n = lhs[1]
        t = fr.get(n)
        if isinstance(t, Arr):
            if lhs[0] == 'ref' and not any(x[0] == 'range' for x in lhs[2]):
                t.block.data[t.pos([self.ev(x, fr) for x in lhs[2]])] = v
                return
            where = (t if lhs[0] == 'var' else self.section(t, lhs[2], fr)).elements()
            vs = self.values(v) if isinstance(v, (list, Arr, Section)) else [v] * len(where)
            if len(vs) != len(where):
                raise OutOfBounds(f'{len(vs)} values for {len(where)} elements of {n}')
            for w, x in zip(where, vs):
                t.block.data[w] = x
            return
        fr[n] = v

    # expressions
    def truth(self, v):
        return bool(v)

    def values(self, v):
        if isinstance(v, list):
            return v
        return [self.read(v.block, w) for w in v.elements()]

    def read(self, block, w):
        v = block.data[w]
        if v is None:
            raise Unread(f'element {w + 1} of {block.name}')
        return v

    def section(self, a, args, fr):
        axes = []
        for j, x in enumerate(args):
            if x[0] == 'range':
                lo = self.ev(x[1], fr) if x[1] is not None else a.lows[j]
                hi = self.ev(x[2], fr) if x[2] is not None else a.lows[j] + a.shape[j] - 1
                st = self.ev(x[3], fr) if x[3] is not None else 1
                axes.append(list(range(lo, hi + (1 if st > 0 else -1), st)))
            else:
                axes.append([self.ev(x, fr)])
        out = []

        def go(k, idx):
            if k < 0:
                out.append(a.pos(idx))
                return
            for i in axes[k]:
                go(k - 1, [i] + idx)
        go(len(axes) - 1, [])
        return Section(a.block, out)

    def ev(self, e, fr):
        k = e[0]
        if k == 'int':
            return e[1]
        if k == 'real':
            return self.real(e[1])
        if k in ('bool', 'str'):
            return e[1]
        if k == 'list':
            return [self.ev(x, fr) for x in e[1]]
        if k == 'var':
            if e[1] not in fr:
                raise HarnessGap(f'Fortran: {e[1]} is not declared')
            v = fr[e[1]]
            if v is None:
                raise Unread(e[1])
            return v
        if k == 'ref':
            t = fr.get(e[1])
            if isinstance(t, Arr):
                if any(x[0] == 'range' for x in e[2]):
                    return self.section(t, e[2], fr)
                return self.read(t.block, t.pos([self.ev(x, fr) for x in e[2]]))
            if e[1] in self.p.procs:
                return self.invoke(e[1], e[2], fr)
            return self.intrinsic(e[1], e[2], fr)
        if k == 'un':
            v = self.ev(e[2], fr)
            if isinstance(v, (list, Arr, Section)):
                return [-x for x in self.values(v)]
            return -v if e[1] == '-' else not self.truth(v)
        if k == 'bin':
            o = e[1]
            a = self.ev(e[2], fr)
            if o == 'and':
                return self.truth(a) and self.truth(self.ev(e[3], fr))
            if o == 'or':
                return self.truth(a) or self.truth(self.ev(e[3], fr))
            b = self.ev(e[3], fr)
            if isinstance(a, (list, Arr, Section)) or isinstance(b, (list, Arr, Section)):
                va = self.values(a) if isinstance(a, (list, Arr, Section)) else None
                vb = self.values(b) if isinstance(b, (list, Arr, Section)) else None
                n = len(va if va is not None else vb)
                if va is not None and vb is not None and len(va) != len(vb):
                    raise OutOfBounds(f'arrays of {len(va)} and {len(vb)} elements')
                return [self.op(o, va[i] if va is not None else a, vb[i] if vb is not None else b) for i in range(n)]
            return self.op(o, a, b)
        raise HarnessGap(f'Fortran: {e}')

    def op(self, o, a, b):
        if o == '+':
            return a + b
        if o == '-':
            return a - b
        if o == '*':
            return a * b
        if o == '/':
            if isinstance(a, int) and isinstance(b, int):
                return trunc_div(a, b)
            return self.real(a) / b
        if o == '**':
            if isinstance(b, int) and b < 0:
                return self.real(1) / a ** -b
            return a ** b
        return {'==': lambda: a == b, '/=': lambda: a != b, '<': lambda: a < b, '<=': lambda: a <= b, '>': lambda: a > b, '>=': lambda: a >= b,
                'eqv': lambda: bool(a) == bool(b), 'neqv': lambda: bool(a) != bool(b)}[o]()

    def intrinsic(self, n, args, fr):
        vs = [self.ev(a[2] if a[0] == 'kw' else a, fr) for a in args if not (a[0] == 'kw' and a[1] == 'kind')]
        if n in ('dfloat', 'dble', 'float', 'real'):
            return self.real(vs[0])
        if n in ('min', 'max', 'min0', 'max0'):
            r = vs[0]
            for v in vs[1:]:
                if (v < r) if n.startswith('min') else (v > r):
                    r = v
            return r
        if n == 'mod':
            a, b = vs
            return a - b * trunc_div(a, b)
        if n == 'modulo':
            return vs[0] % vs[1]
        if n == 'abs' or n == 'dabs':
            return abs(vs[0])
        if n in ('size', 'ubound', 'lbound'):
            a = vs[0]
            if isinstance(a, Arr) and len(a.shape) == 1:
                return {'size': a.shape[0], 'lbound': a.lows[0], 'ubound': (a.lows[0] + a.shape[0] - 1) if a.shape[0] is not None else None}[n]
            if n == 'size' and isinstance(a, (Section, list)):
                return len(self.values(a))
        if n == 'sum':
            r = self.real(0)
            for v in self.values(vs[0]):
                r = r + v
            return r
        if n == 'product':
            r = self.real(1)
            for v in self.values(vs[0]):
                r = r * v
            return r
        if n == 'dot_product':
            a, b = self.values(vs[0]), self.values(vs[1])
            if len(a) != len(b):
                raise OutOfBounds(f'dot product of {len(a)} and {len(b)} elements')
            r = self.real(0)
            for x, y in zip(a, b):
                r = r + x * y
            return r
        if n == 'int':
            if isinstance(vs[0], int):
                return vs[0]
        raise HarnessGap(f'Fortran: {n}')


# ------------------------------------------------------------------ index analysis
class Hit:
    def __init__(self, where, model):
        self.where, self.model = where, model


class Bounds:
    """Which array accesses can leave the array, for any integer arguments?

    Integers are solver terms, reals are ignored; a loop stands for one arbitrary iteration
    (integers assigned in it are arbitrary), so a result 'no' is a proof and a model is replayed."""

    def __init__(self, program):
        import z3
        self.z = z3
        self.p = program
        self.n = 0
        self.checked = 0
        self.hits = []
        self.open = []
        self.queries = 0
        self.params = {}
        self.globals = {k: self.const(d) for k, d in program.globals.items() if d.type == 'integer' and d.dims is None}

    def const(self, d):
        return self.z.IntVal(Interp(self.p).ev(d.init, Interp(self.p).globals)) if d.init is not None else None

    def fresh(self, n):
        self.n += 1
        return self.z.Int(f'{n}!{self.n}')

    def start(self, name, ints, arrays, pre):
        """ints: argument -> z3 Int; arrays: argument -> number of elements."""
        pr = self.p.procs.get(name)
        if pr is None:
            raise HarnessGap(f'Fortran: {name} is missing')
        self.params = dict(ints)
        env = dict(self.globals)
        for k, v in ints.items():
            env[k] = v
        for k, n in arrays.items():
            env[k] = ('arr', [self.z.IntVal(1)], [n], n, k)
        miss = set(pr.args) - set(env)
        if miss:
            raise HarnessGap(f'Fortran: arguments of {name} changed: {pr.args}')
        self.body(pr, env, list(pre))

    def body(self, pr, env, pc, depth=0):
        if depth > 8:
            raise HarnessGap('Fortran: recursion')
        env = dict(env)
        for k, d in pr.decls.items():
            if d.param and d.type == 'integer' and d.dims is None:
                env[k] = self.term(d.init, env, pc, pr)
        for k, d in pr.decls.items():
            if d.param:
                continue
            if d.dims is not None:
                a = env.get(k) if k in pr.args else None
                lows, shp = [], []
                for q, (lo, hi) in enumerate(d.dims):
                    l_ = self.term(lo, env, pc, pr)
                    lows.append(l_)
                    if hi is None:
                        shp.append(a[2][q] if a and len(a[2]) == len(d.dims) else None)
                    else:
                        h = self.term(hi, env, pc, pr)
                        shp.append(self.z.If(h - l_ + 1 > 0, h - l_ + 1, 0))
                if a is not None:
                    env[k] = ('arr', lows, shp, a[3], k)
                else:
                    tot = self.z.IntVal(1)
                    for s in shp:
                        tot = tot * s
                    env[k] = ('arr', lows, shp, self.z.simplify(tot), k)
            elif k not in env and d.type == 'integer':
                env[k] = self.fresh(k) if d.init is None else self.term(d.init, env, pc, pr)
            elif k not in env:
                env[k] = None
        return self.stmts(pr.body, env, pc, pr, depth)

    def sat(self, cs):
        s = self.z.Solver()
        s.set('timeout', 8000)
        s.add(*cs)
        self.queries += 1
        r = s.check()
        return r, (s.model() if r == self.z.sat else None)

    def stmts(self, body, env, pc, pr, depth):
        """List of (env, pc) that reach the end."""
        states = [(env, pc)]
        for s in body:
            nxt = []
            for env, pc in states:
                nxt += self.stmt(s, env, pc, pr, depth)
            states = nxt
            if len(states) > 64:
                raise HarnessGap('Fortran: too many paths in the index analysis')
        return states

    def assigned(self, body):
        out = set()
        for s in body:
            if s[0] == 'set':
                out.add(s[1][1])
            elif s[0] == 'if':
                for c, b in s[1]:
                    out |= self.assigned(b)
                out |= self.assigned(s[2])
            elif s[0] == 'do':
                out.add(s[1])
                out |= self.assigned(s[5])
            elif s[0] == 'while':
                out |= self.assigned(s[2])
            elif s[0] == 'call':
                q = self.p.procs.get(s[1])
                for j, a in enumerate(s[2]):
                    e = a[2] if a[0] == 'kw' else a
                    f = a[1] if a[0] == 'kw' else q.args[j] if q else None
                    if e[0] == 'var' and not (q and f in q.decls and q.decls[f].intent == 'in'):
                        out.add(e[1])
        return out

    def stmt(self, s, env, pc, pr, depth):
        z = self.z
        k = s[0]
        if k == 'set':
            v = self.term(s[2], env, pc, pr)
            n = s[1][1]
            if s[1][0] == 'ref':
                self.access(n, s[1][2], env, pc, pr)
                return [(env, pc)]
            t = env.get(n)
            if isinstance(t, tuple):
                return [(env, pc)]
            d = pr.decls.get(n)
            if d is not None and d.type == 'integer':
                env = dict(env)
                env[n] = v if v is not None else self.fresh(n)
            return [(env, pc)]
        if k == 'if':
            out = []
            rest = list(pc)
            for c, b in s[1]:
                t = self.cond(c, env, rest, pr)
                yes = rest + ([t] if t is not None else [])
                if self.sat(yes)[0] != z.unsat:
                    out += self.stmts(b, dict(env), yes, pr, depth)
                rest = rest + ([z.Not(t)] if t is not None else [])
            if self.sat(rest)[0] != z.unsat:
                out += self.stmts(s[2], dict(env), rest, pr, depth)
            return out
        if k in ('do', 'while'):
            b = s[5] if k == 'do' else s[2]
            e2 = dict(env)
            for n in self.assigned(b):
                d = pr.decls.get(n)
                if d is not None and d.type == 'integer' and d.dims is None:
                    e2[n] = self.fresh(n)
            after = dict(e2)
            p2 = list(pc)
            if k == 'do':
                lo, hi = self.term(s[2], env, pc, pr), self.term(s[3], env, pc, pr)
                st = self.term(s[4], env, pc, pr) if s[4] is not None else z.IntVal(1)
                i, j = self.fresh(s[1]), self.fresh('step')
                if lo is None or hi is None or st is None:
                    raise HarnessGap('Fortran: bounds of a loop')
                p2 += [j >= 0, i == lo + j * st, z.Or(z.And(st > 0, i <= hi), z.And(st < 0, i >= hi))]
                e2[s[1]] = i
                after[s[1]] = self.fresh(s[1])
            else:
                t = self.cond(s[1], e2, p2, pr)
                if t is not None:
                    p2.append(t)
            if self.sat(p2)[0] != z.unsat:
                self.stmts(b, e2, p2, pr, depth)
            return [(after, pc)]
        if k == 'call':
            self.invoke(s[1], s[2], env, pc, pr, depth)
            after = dict(env)
            for n in self.assigned([s]):
                d = pr.decls.get(n)
                if d is not None and d.type == 'integer' and d.dims is None:
                    after[n] = self.fresh(n)
            return [(after, pc)]
        if k in ('stop', 'return', 'exit', 'cycle'):
            return []
        return [(env, pc)]

    def invoke(self, name, args, env, pc, pr, depth):
        if name not in self.p.procs:
            raise HarnessGap(f'Fortran: {name} is missing')
        q = self.p.procs[name]
        e2 = dict(self.globals)
        for j, a in enumerate(args):
            e = a[2] if a[0] == 'kw' else a
            f = a[1] if a[0] == 'kw' else q.args[j]
            d = q.decls.get(f)
            if d is None:
                raise HarnessGap(f'Fortran: {f} is not declared')
            if d.dims is None:
                v = self.term(e, env, pc, pr)
                e2[f] = v if d.type == 'integer' else None
                continue
            t = env.get(e[1]) if e[0] in ('var', 'ref') else None
            if not isinstance(t, tuple):
                raise HarnessGap('Fortran: array argument')
            if e[0] == 'var':
                e2[f] = t
            else:
                r = self.access(e[1], e[2], env, pc, pr)
                if len(t[2]) != 1:
                    raise HarnessGap('Fortran: element of a matrix as an array')
                left = t[3] - (r - t[1][0])
                e2[f] = ('arr', [self.z.IntVal(1)], [left], left, f)
        self.body(q, e2, pc, depth + 1)

    def access(self, name, args, env, pc, pr):
        """Checks an array reference; returns its (first) index along the first axis."""
        z = self.z
        t = env.get(name)
        if not isinstance(t, tuple):
            return None
        first = None
        one = len(args) == 1
        for j, x in enumerate(args):
            lo, n = t[1][j], t[2][j]
            if x[0] == 'range':
                a = self.term(x[1], env, pc, pr) if x[1] is not None else lo
                b = self.term(x[2], env, pc, pr) if x[2] is not None else (lo + n - 1)
                pts = [(a, [a <= b]), (b, [a <= b])]
            else:
                a = self.term(x, env, pc, pr)
                pts = [(a, [])]
            if first is None:
                first = a
            for v, extra in pts:
                if v is None:
                    self.open.append(f'{pr.name}: index of {name}')
                    continue
                bad = [v < lo]
                if n is not None:
                    bad.append(v >= lo + n)
                if one:
                    bad.append(v - lo >= t[3])      # storage that is really there
                self.checked += 1
                r, mo = self.sat(pc + extra + [z.Or(*bad)])
                if r == z.sat:
                    self.hits.append(Hit(f'{pr.name}: {name}', (mo, pc + extra + [z.Or(*bad)])))
                elif r != z.unsat:
                    self.open.append(f'{pr.name}: {name}')
        return first

    def cond(self, e, env, pc, pr):
        z = self.z
        if e[0] == 'bool':
            return z.BoolVal(e[1])
        if e[0] == 'un' and e[1] == 'not':
            t = self.cond(e[2], env, pc, pr)
            return None if t is None else z.Not(t)
        if e[0] == 'bin' and e[1] in ('and', 'or'):
            a, b = self.cond(e[2], env, pc, pr), self.cond(e[3], env, pc, pr)
            if a is None or b is None:
                return None
            return z.And(a, b) if e[1] == 'and' else z.Or(a, b)
        if e[0] == 'bin' and e[1] in ('==', '/=', '<', '<=', '>', '>='):
            a, b = self.term(e[2], env, pc, pr), self.term(e[3], env, pc, pr)
            if a is None or b is None:
                return None
            return {'==': a == b, '/=': a != b, '<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b}[e[1]]
        return None

    def tdiv(self, a, b):
        z = self.z
        # Fortran rounds towards zero; z3's integer division keeps the remainder non-negative
        q = z.If(a >= 0, a / b, -((-a) / b))
        return q

    def term(self, e, env, pc, pr):
        """Integer value of an expression (None: not an integer); array accesses in it are checked."""
        z = self.z
        k = e[0]
        if k == 'int':
            return z.IntVal(e[1])
        if k in ('real', 'bool', 'str'):
            return None
        if k == 'list':
            for x in e[1]:
                self.term(x, env, pc, pr)
            return None
        if k == 'var':
            v = env.get(e[1])
            return None if isinstance(v, tuple) else v
        if k == 'un':
            v = self.term(e[2], env, pc, pr)
            return -v if v is not None and e[1] == '-' else None
        if k == 'ref':
            if isinstance(env.get(e[1]), tuple):
                self.access(e[1], e[2], env, pc, pr)
                return None
            if e[1] in self.p.procs:
                self.invoke(e[1], e[2], env, pc, pr, 1)
                return None
            if e[1] in ('size', 'ubound', 'lbound'):
                t = env.get(e[2][0][1]) if e[2][0][0] == 'var' else None
                if isinstance(t, tuple) and len(t[2]) == 1:
                    return {'size': t[2][0], 'lbound': t[1][0], 'ubound': t[1][0] + t[2][0] - 1}[e[1]]
                return None
            vs = [self.term(a[2] if a[0] == 'kw' else a, env, pc, pr) for a in e[2]]
            if any(v is None for v in vs):
                return None
            if e[1] in ('min', 'max', 'min0', 'max0'):
                r = vs[0]
                for v in vs[1:]:
                    r = z.If(v < r if e[1].startswith('min') else v > r, v, r)
                return r
            if e[1] == 'mod':
                return vs[0] - vs[1] * self.tdiv(vs[0], vs[1])
            if e[1] == 'modulo':
                return vs[0] % vs[1]
            if e[1] == 'abs':
                return z.If(vs[0] >= 0, vs[0], -vs[0])
            if e[1] == 'int':
                return vs[0]
            return None
        if k == 'bin':
            a, b = self.term(e[2], env, pc, pr), self.term(e[3], env, pc, pr)
            if a is None or b is None:
                return None
            if e[1] == '+':
                return a + b
            if e[1] == '-':
                return a - b
            if e[1] == '*':
                return a * b
            if e[1] == '/':
                return self.tdiv(a, b)
            return None
        return None


# ------------------------------------------------------------------ the sources and the compiled code
def sources():
    try:
        fs = sorted(f for f in os.listdir(DIR) if f.endswith(('.f90', '.f95', '.f03')))
    except OSError as e:
        raise HarnessGap(str(e))
    # modules first
    return [os.path.join(DIR, f) for f in sorted(fs, key=lambda f: 'wrap' in f)]


_PROG = []


def program():
    if not _PROG:
        _PROG.append(Program(sources()))
    return _PROG[0]


MAIN = '''program run
    implicit none
    integer :: iorder, iaccuracy, n, i
    real(8), allocatable :: grid(:), u(:), du(:)
    read(*,*) iorder, iaccuracy, n
    allocate(grid(n), u(n), du(n))
    read(*,*) (grid(i), i=1,n)
    read(*,*) (u(i), i=1,n)
    du = 0.0d0
    call fornberg_grid_derivative(iorder, iaccuracy, grid, u, du, n)
    write(*,'(a)') 'DONE'
    do i=1,n
        write(*,'(es26.17e3)') du(i)
    enddo
end program run
'''


def executable():
    h = hashlib.sha256(MAIN.encode())
    for f in sources():
        with open(f, 'rb') as fh:
            h.update(fh.read())
    d = os.path.join(BUILD, 'cxx_' + h.hexdigest()[:20])
    os.makedirs(d, exist_ok=True)
    exe = os.path.join(d, 'fornberg')
    with open(exe + '.lock', 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not os.path.exists(exe):
            main = os.path.join(d, 'main.f90')
            with open(main, 'w') as fh:
                fh.write(MAIN)
            r = subprocess.run(['gfortran', '-g', '-O0', '-fcheck=all', '-fsanitize=address', '-J', d, *sources(), main, '-o', exe + '.tmp'],
                               capture_output=True, text=True)
            if r.returncode:
                raise HarnessGap('the Fortran sources cannot be built: ' + r.stderr[-500:])
            os.rename(exe + '.tmp', exe)
    return exe


def run_real(iorder, iaccuracy, grid, u):
    """The derivative from the compiled code; FortranStop, OutOfBounds when it ends otherwise."""
    txt = f'{iorder} {iaccuracy} {len(grid)}\n' + ' '.join(f'{float(x):.17e}' for x in grid) + '\n' + ' '.join(f'{float(x):.17e}' for x in u) + '\n'
    r = subprocess.run([executable()], input=txt, capture_output=True, text=True, timeout=60, env=dict(os.environ, ASAN_OPTIONS='detect_leaks=0:exitcode=77'), preexec_fn=_limits)
    if 'AddressSanitizer failed' in r.stderr:
        raise HarnessGap(r.stderr[:200])
    if 'outside' in r.stderr or 'above upper bound' in r.stderr or 'below lower bound' in r.stderr or 'AddressSanitizer' in r.stderr or 'Fortran runtime error' in r.stderr:
        m = re.search(r'(ERROR: AddressSanitizer: \S+|Fortran runtime error: .*)', r.stderr)
        raise OutOfBounds(m.group(1) if m else r.stderr[:200])
    if r.returncode < 0:
        raise OutOfBounds(f'signal {-r.returncode}')
    if 'DONE' not in r.stdout:
        raise FortranStop(1)
    return [float(x) for x in r.stdout.split('DONE')[1].split()]


def derivative(m, iorder, iaccuracy, grid, u):
    """du of fornberg_grid_derivative, symbolically or from the compiled code."""
    n = len(grid)
    if not m.sym:
        return run_real(iorder, iaccuracy, grid, u)
    return interpret(iorder, iaccuracy, list(grid), list(u))


def real(v):
    return sym.fr(v) if not isinstance(v, (sym.SV, Fraction)) and hasattr(sym, 'fr') and isinstance(v, float) else Fraction(v) if isinstance(v, (int, float)) else v


def interpret(iorder, iaccuracy, grid, u):
    n = len(grid)
    I = Interp(program(), real)
    du = Block([Fraction(0)] * n, 'du')
    I.call('fornberg_grid_derivative', [], {'iorder': iorder, 'iaccuracy': iaccuracy, 'n': n, 'grid': Arr(Block([real(x) for x in grid], 'grid'), 0, [1], [n]),
                                            'u': Arr(Block([real(x) for x in u], 'u'), 0, [1], [n]), 'du': Arr(du, 0, [1], [n])})
    return du.data
