"""Names of the eigenvalue tables."""
import re
import types

from .common import Case

LEVEL = 'model_checking'
NOTE = ('Degrees, azimuthal orders and spins are symbolic; the name is a string with placeholders for the symbolic numbers, whose signs are decided by z3. The file system and the table reader of GYRE '
        'are stand-ins that record the name. Trusts the symbolic interpreter in vlib.')
ASSUMPTIONS = ['|m| <= l', 'GYRE names its tables tar_fit.m<signed m>.k<signed k>.h5']
MOD = 'lam_tar_gyre.lam_tar_gyre'
BASE = '/gyre'


def number(m, text):
    """Value and well-formedness of a signed number in a name."""
    g = re.fullmatch(r'([+-]*)(?:\u27e6(\+?)#(\d+)\u27e7|(\d+))', text)
    if not g:
        return None, False
    sign, spec, tok, dig = g.groups()
    if dig is not None:
        v = int(dig)
        return (-v if sign == '-' else v), sign in ('+', '-') and not (sign == '-' and v == 0)
    from vlib import sym
    v = sym.TOKENS[int(tok)]
    if sign == '+':
        return v, spec == '' and v >= 0
    if sign == '-':
        return -1 * v, spec == '' and v > 0
    if sign == '':
        return v, True if spec == '+' else v < 0
    return v, False


class FakePath:
    def __init__(self, *a):
        self.p = '/'.join(str(x) for x in a)

    def __truediv__(self, o): return FakePath(self.p, str(o))
    __add__ = None
    def __str__(self): return self.p
    __fspath__ = __str__
    def is_dir(self): return True
    def is_file(self): return True
    def exists(self): return True


class Tar:
    """Stand-in of the table reader: the eigenvalue is a function of the name and the spin."""
    opened = []

    def __init__(self, fn):
        self.fn = str(fn)

    @staticmethod
    def load(fn):
        t = Tar(fn)
        Tar.opened.append(t)
        return t

    def lam(self, nu):
        self.nu = nu
        return 1000 * len(Tar.opened) + nu


def stubs(mode):
    Tar.opened = []
    p = types.ModuleType('pathlib')
    p.Path = p.PurePath = p.PosixPath = FakePath
    o = types.ModuleType('os')
    o.environ = {'GYRE_DIR': BASE}
    import os
    o.path = types.SimpleNamespace(join=os.path.join, isfile=lambda f: True, isdir=lambda f: True, exists=lambda f: True)
    g = types.ModuleType('gyre_tar_fit')
    g.TarFit = Tar
    return {'pathlib': p, 'os': o, 'gyre_tar_fit': g}


def check_name(m, fn, l, az):
    g = re.fullmatch(re.escape(BASE) + r'/+data/tar/tar_fit\.m(.*)\.k(.*)\.h5', fn)
    m.true('form of the name', g is not None)
    if g is None:
        return
    for what, txt, want in (('azimuthal order', g.group(1), az), ('meridional order', g.group(2), l - m.absv(az))):
        v, ok = number(m, txt)
        m.true('one sign, ' + what, ok)
        if v is not None:
            m.eq(what, v, want)


def mode(m, i=''):
    l, az = m.integer('l' + i, 0, 40), m.integer('m' + i, -40, 40)
    m.assume(m.And(az <= l, -1 * az <= l))
    return l, az


def obj(m):
    import sys
    C = m.entry(MOD, 'GyreLambdas')
    Tar.opened = []
    n = len(sys.path)
    o = C(base_gyre_dir=m.pick('base', ['', BASE]))
    del sys.path[n:]
    return o


def single(m):
    l, az = mode(m)
    nu = m.real('nu', lo=-20, hi=20)
    o = obj(m)
    r = o.get_lambda(l, az, nu)
    m.true('one table', len(Tar.opened) == 1)
    t = Tar.opened[0]
    check_name(m, t.fn, l, az)
    m.eq('spin', t.nu, nu)
    m.eq('eigenvalue', r, 1000 + nu)


def triad(m):
    lm = [mode(m, str(i)) for i in range(3)]
    nus = [m.real(f'nu{i}', lo=-20, hi=20) for i in range(3)]
    o = obj(m)
    r = o.get_lambda([a for a, _ in lm], [b for _, b in lm], nus)
    m.true('three tables', len(Tar.opened) == 3 and len(r) == 3)
    for i, t in enumerate(Tar.opened):
        check_name(m, t.fn, *lm[i])
        m.eq('spin', t.nu, nus[i])
        m.eq('eigenvalue', r[i], 1000 * (i + 1) + nus[i])


def cases(tier):
    T = dict(quick=100, thorough=300)[tier]
    return [Case('one mode', single, stubs=stubs, seconds=T, bounds='l <= 40'),
            Case('three modes', triad, stubs=stubs, seconds=T, bounds='l <= 40', max_paths=2000)]
