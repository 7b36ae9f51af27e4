"""Sets and ranges of symbolic integers."""
import builtins

from .sym import SV, SymBool, Unsupported, ctx, has_sym


def same(a, b):
    """Equality as a truth value of the path (may fork)."""
    if isinstance(a, tuple) or isinstance(b, tuple):
        return isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if a is b:
        return True
    r = a == b
    return bool(r)


def table(n):
    """Size of the hash table of a set that was filled with n small elements."""
    return 8 if n <= 4 else 32 if n <= 19 else 128


class SymSet:
    """A set with symbolic members. The order of iteration is that of the hash table of CPython for integers (residues), insertion order for other members."""

    def __init__(self, it=()):
        self.m = []
        for x in it:
            self.add(x)

    def add(self, x):
        if x not in self:
            self.m.append(x)

    def update(self, *its):
        for it in its:
            for x in it:
                self.add(x)

    def discard(self, x):
        self.m = [y for y in self.m if not same(x, y)]

    def remove(self, x):
        n = len(self.m)
        self.discard(x)
        if len(self.m) == n:
            raise KeyError(x)

    def __contains__(self, x):
        return any(same(x, y) for y in self.m)

    def __len__(self):
        return len(self.m)

    def __iter__(self):
        xs = list(self.m)
        if len(xs) > 1 and all(isinstance(x, (SV, int)) for x in xs):
            t = table(len(xs))
            r = [(SV.lift(x) % t, x) for x in xs]
            out = []
            for k, x in r:
                i = len(out)
                while i > 0 and bool(k < out[i - 1][0]):
                    i -= 1
                out.insert(i, (k, x))
            xs = [x for _, x in out]
        return iter(xs)

    def _new(self, xs):
        s = SymSet()
        s.m = list(xs)
        return s

    def union(self, *os):
        s = self._new(self.m)
        for o in os:
            s.update(o)
        return s

    def intersection(self, *os):
        s = self
        for o in os:
            o = o if isinstance(o, SymSet) else SymSet(o)
            s = self._new([x for x in s.m if x in o])
        return s

    def difference(self, *os):
        s = self
        for o in os:
            o = o if isinstance(o, SymSet) else SymSet(o)
            s = self._new([x for x in s.m if x not in o])
        return s

    def symmetric_difference(self, o):
        o = o if isinstance(o, SymSet) else SymSet(o)
        return (self - o) | (o - self)

    __or__ = __ror__ = __ior__ = lambda self, o: self.union(o)
    __and__ = __rand__ = lambda self, o: self.intersection(o)
    __sub__ = lambda self, o: self.difference(o)
    __rsub__ = lambda self, o: SymSet(o) - self
    __xor__ = lambda self, o: self.symmetric_difference(o)

    def issubset(self, o):
        o = o if isinstance(o, SymSet) else SymSet(o)
        return all(x in o for x in self.m)

    def issuperset(self, o):
        return all(x in self for x in o)

    def isdisjoint(self, o):
        return not len(self & o)

    __le__ = issubset
    __ge__ = issuperset

    def __eq__(self, o):
        if not isinstance(o, (SymSet, set, frozenset)):
            return False
        return len(self.m) == len(o) and self.issubset(o)

    def __bool__(self):
        return bool(self.m)

    def copy(self):
        return self._new(self.m)

    __hash__ = None


def sx_set(*a):
    if not a:
        return set()
    if isinstance(a[0], SymSet):
        return a[0].copy()
    xs = list(a[0])
    if has_sym(xs):
        return SymSet(xs)
    return set(xs)


class SymRange:
    """range with symbolic ends and a length that is fixed on the path."""

    def __init__(self, start, n, step):
        self.start, self.n, self.step = start, n, step

    def __len__(self):
        return self.n

    def __getitem__(self, i):
        if isinstance(i, slice):
            return [self[j] for j in range(*i.indices(self.n))]
        i = i.__index__()
        if i < 0:
            i += self.n
        if not 0 <= i < self.n:
            raise IndexError('range object index out of range')
        return self.start + i * self.step

    def __iter__(self):
        return (self[i] for i in range(self.n))

    def __reversed__(self):
        return (self[i] for i in range(self.n - 1, -1, -1))

    def __contains__(self, x):
        return any(same(x, y) for y in self)


def sx_range(*a):
    if not any(isinstance(x, SV) for x in a):
        return builtins.range(*a)
    if all(x.q is not None for x in a if isinstance(x, SV)):
        return builtins.range(*[int(x) for x in a])
    start, stop, step = (0, a[0], 1) if len(a) == 1 else (*a, 1) if len(a) == 2 else a
    step = int(step) if not isinstance(step, SV) else step.__index__()
    if step == 0:
        raise ValueError('range() arg 3 must not be zero')
    d = SV.lift(stop) - SV.lift(start)
    n = 0
    while n < 200:
        # number of steps: forks unless the difference of the ends is constant
        if bool(d <= 0) if step > 0 else bool(d >= 0):
            return SymRange(SV.lift(start), n, step)
        d = d - step
        n += 1
    raise Unsupported('range of unbounded length')
