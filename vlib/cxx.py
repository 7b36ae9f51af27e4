"""The C++ classes of the code under test, run on symbolic numbers.

Their sources are compiled, on every run, into two small drivers: one in which "double" is a
class that records the arithmetic (cxx/pre.h), one as they are.  Both are compiled with the
address sanitizer, and every array has its own heap block."""
import ctypes
import fcntl
import hashlib
import os
import re
import subprocess

import numpy as np

from . import sym
from .loader import HarnessGap, REPO
from .sym import SV, Unsupported

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CXX = os.path.join(HERE, 'cxx')
BUILD = os.path.join(HERE, '.build')
DIRS = {'num_integration': 'cpp-numintegrator/num_integrator', 'ld_functions': 'cpp-ld-funcs/ld_funcs', 'disc_integrals': 'cpp-disc-integrator/disc_integrator'}
SKIP = {'main.cpp'}


def sources():
    """The C++ sources that are compiled into the extension modules (no mains, tests or Cython output)."""
    out = []
    for d in DIRS.values():
        p = os.path.join(REPO, d)
        for f in sorted(os.listdir(p)):
            if f.endswith('.cpp') and f not in SKIP and not f.startswith('libcpp') and not f.endswith('_tests.cpp'):
                out.append(os.path.join(p, f))
    return out


def _digest():
    h = hashlib.sha256()
    fs = sources()
    for d in DIRS.values():
        p = os.path.join(REPO, d)
        fs += [os.path.join(p, f) for f in sorted(os.listdir(p)) if f.endswith(('.h', '.hpp'))]
    fs += [os.path.join(CXX, f) for f in ('pre.h', 'sym.inc', 'driver.cpp')]
    for f in fs:
        h.update(f.encode())
        with open(f, 'rb') as fh:
            h.update(fh.read())
    return h.hexdigest()[:20]


_EXE = {}


def prune(keep):
    """Old builds are removed (names in .build only)."""
    try:
        ds = sorted((os.path.join(BUILD, d) for d in os.listdir(BUILD) if re.fullmatch(r'(cxx|pyx)_[0-9a-f]{20}', d)), key=os.path.getmtime)
    except OSError:
        return
    import shutil
    for d in ds[:-6]:
        if d != keep:
            shutil.rmtree(d, ignore_errors=True)


def driver(kind):
    if kind in _EXE:
        return _EXE[kind]
    d = os.path.join(BUILD, 'cxx_' + _digest())
    os.makedirs(d, exist_ok=True)
    exe = os.path.join(d, kind)
    with open(os.path.join(d, kind + '.lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not os.path.exists(exe):
            prune(d)
            base = ['g++', '-std=c++17', '-g', '-fsanitize=address', '-fno-omit-frame-pointer', '-ftrivial-auto-var-init=pattern',
                    '-include', os.path.join(CXX, 'pre.h'), '-I' + CXX] + ['-I' + os.path.join(REPO, x) for x in DIRS.values()]
            base += ['-O0', '-DAES_SYM'] if kind == 'sym' else ['-O1']
            files = sources() + [os.path.join(CXX, 'driver.cpp')]
            err = ''
            for flags in (['-fopenmp'], []):
                objs, procs = [], []
                for i, f in enumerate(files):
                    o = os.path.join(d, f'{kind}{i}.o')
                    objs.append(o)
                    procs.append(subprocess.Popen(base + flags + ['-c', f, '-o', o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True))
                ok = True
                for p in procs:
                    out = p.communicate()[0]
                    if p.returncode:
                        ok, err = False, out
                if ok:
                    r = subprocess.run(['g++', '-fsanitize=address'] + (flags if kind != 'sym' else []) + objs + ['-o', exe + '.tmp'], capture_output=True, text=True)
                    if r.returncode == 0:
                        os.rename(exe + '.tmp', exe)
                        break
                    err = r.stderr
            if not os.path.exists(exe):
                raise HarnessGap('the C++ sources cannot be built with this driver: ' + err[-600:])
    _EXE[kind] = exe
    return exe


class OutOfBounds(Exception):
    pass


SCHEDULE = []            # yields at which the running thread is preempted
LAST = {'yields': 0, 'runs': 0}


def _limits():
    import resource
    h = resource.getrlimit(resource.RLIMIT_AS)[1]
    resource.setrlimit(resource.RLIMIT_AS, (h, h))
    resource.setrlimit(resource.RLIMIT_STACK, (8 << 20, resource.getrlimit(resource.RLIMIT_STACK)[1]))


def _run(kind, line):
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=77:detect_stack_use_after_return=0')
    try:
        r = subprocess.run([driver(kind)], input=line + '\n', capture_output=True, text=True, env=env, timeout=60, preexec_fn=_limits)
    except subprocess.TimeoutExpired:
        raise Unsupported('the C++ driver does not finish')
    LAST['runs'] += 1
    if os.environ.get('AES_DEBUG') and r.stderr:
        print(r.stderr[:1500])
    if r.returncode == 77 or 'AddressSanitizer' in r.stderr:
        m = re.search(r'ERROR: AddressSanitizer: (\S+)', r.stderr)
        raise OutOfBounds(m.group(1) if m else 'address sanitizer')
    if r.returncode < 0:
        raise OutOfBounds(f'signal {-r.returncode}')
    return r.stdout


def _hex(s):
    return 'x' + s.encode('utf-8').hex() + 'x'


OPS = {1: lambda a, b: a + b, 2: lambda a, b: a - b, 3: lambda a, b: a * b, 4: lambda a, b: a / b}
CMP = {20: lambda a, b: a < b, 21: lambda a, b: a <= b, 22: lambda a, b: a > b, 23: lambda a, b: a >= b, 24: lambda a, b: a == b, 25: lambda a, b: a != b}


def _eval(nodes, inputs):
    import sys
    cache = {}

    def go(i):
        if i in cache:
            return cache[i]
        op, a, b = nodes[i]
        if op == 0:
            v = SV(sym.fr(a))
        elif op == -1:
            v = inputs[a]
        elif op in OPS:
            v = OPS[op](go(a), go(b))
        elif op == 5:
            v = -go(a)
        elif op == 6:
            e = go(b)
            v = go(a) ** (int(e.q) if e.q is not None and e.q.denominator == 1 else e)
        elif op == 7:
            v = sym.nroot(go(a), 2)
        elif op == 8:
            v = abs(go(a))
        else:
            v = sym.UF[{9: 'exp', 10: 'log', 11: 'sin', 12: 'cos'}[op]](go(a))
        cache[i] = v
        return v
    sys.setrecursionlimit(200000)
    return go


def call_sym(what, args, arrays):
    """args: text after the word; arrays: lists of symbolic numbers."""
    inputs = [SV.lift(x) for a in arrays for x in a]
    prefix = []
    for _ in range(400):
        pre = ' '.join(str(int(p)) for p in prefix)
        sch = ' '.join(str(s) for s in SCHEDULE)
        out = _run('sym', f'{what} {len(prefix)} {pre} {len(SCHEDULE)} {sch} {args}')
        outs, nodes, decs = [], {}, []
        for ln in out.splitlines():
            t = ln.split()
            if t[0] == 'o':
                outs.append(int(t[1]))
            elif t[0] == 'n':
                nodes[int(t[1])] = (0, float.fromhex(t[3]), 0) if t[2] == '0' else (int(t[2]), int(t[3]), int(t[4]))
            elif t[0] == 'd':
                decs.append(tuple(int(x) for x in t[1:]))
            elif t[0] == 'y':
                LAST['yields'] = int(t[1])
            elif t[0] == 'undef':
                raise OutOfBounds('a number that was never written is read')
            elif t[0] in ('unsupported', 'undecided'):
                raise Unsupported('C++: ' + ln)
        go = _eval(nodes, inputs)
        again = False
        for k in range(len(prefix), len(decs)):
            op, a, b, v = decs[k]
            c = bool(CMP[op](go(a), go(b)))
            if c != bool(v):
                prefix = [bool(d[3]) for d in decs[:k]] + [c]
                again = True
                break
        if not again:
            for i in outs:
                if i < 0 or i >= len(nodes):
                    raise OutOfBounds('a number that was never written is returned')
            return [go(i) for i in outs]
    raise Unsupported('C++: too many decisions')


def call_real(what, args, arrays):
    if SCHEDULE:         # the same interleaving on numbers
        return [float(x.q) for x in call_sym(what, args, arrays)]
    nums = ' '.join(repr(float(x)) for a in arrays for x in a)
    out = _run('real', f'{what} {args} {nums}')
    return [float(ln.split()[1]) for ln in out.splitlines() if ln.startswith('o ')]


# ------------------------------------------------------------------ pointers into arrays
class Ptr:
    """&view[i]: the memory from there to the end of the array that owns it."""
    def __init__(self, view, i=0):
        v = np.asarray(view)
        base = v
        while isinstance(base.base, np.ndarray):
            base = base.base
        self.mem = np.asarray(base).reshape(-1) if base.flags.c_contiguous else None
        if self.mem is None:
            raise HarnessGap('array without a flat memory')
        a0 = self.mem.__array_interface__['data'][0]
        a1 = v.__array_interface__['data'][0]
        self.off = (a1 - a0) // v.itemsize + i * ((v.strides[0] // v.itemsize) if v.ndim else 0)

    def load(self):
        return list(self.mem[self.off:])

    def store(self, vals):
        for i, x in enumerate(vals):
            self.mem[self.off + i] = x


def classes(mode):
    """Stand-ins for the C++ classes declared in the .pxd files."""
    call = call_sym if mode == 'sym' else call_real

    def text(s):
        return _hex(s.decode('utf-8') if isinstance(s, bytes) else s)

    class NumericalDoubleInputIntegrator:
        def __init__(self, n, f, x, es, method, threads, para):
            self.a = (int(n), f, x, es, method, threads, para)

        def integrate(self):
            n, f, x, es, method, threads, para = self.a
            F, X = f.load(), x.load()
            o = call('ndi', f'{n} {int(bool(es))} {text(method)} {int(threads)} {int(bool(para))} {len(F)} {len(X)}', [F, X])
            f.store(o[1:1 + len(F)])
            x.store(o[1 + len(F):])
            return o[0]

    class LimbDarkeningFunctions:
        def __init__(self, n, x, r, sel, threads, para):
            self.a = (int(n), x, r, sel, threads, para)

        def compute(self):
            n, x, r, sel, threads, para = self.a
            X, R = x.load(), r.load()
            o = call('ld', f'{n} {text(sel)} {int(threads)} {int(bool(para))} {len(X)} {len(R)}', [X, R])
            r.store(o[:len(R)])
            x.store(o[len(R):])

    class DiscIntegration:
        def __init__(self, n, mu, ang, d1, d2, ld, method, threads, para):
            A = [p.load() for p in (mu, ang, d1, d2)]
            L = {len(a) for a in A}
            if len(L) != 1:
                raise HarnessGap('arrays of different sizes')
            self.o = call('disc', f'{int(n)} {text(ld)} {text(method)} {int(threads)} {int(bool(para))} {len(A[0])}', A)
            for k, p in enumerate((mu, ang, d1, d2)):
                p.store(self.o[2 + k * len(A[0]):2 + (k + 1) * len(A[0])])

        def compute_first_disc_integral(self):
            return self.o[0]

        def compute_second_disc_integral(self):
            return self.o[1]
    return {c.__name__: c for c in (NumericalDoubleInputIntegrator, LimbDarkeningFunctions, DiscIntegration)}
