"""Frequency units."""
import math
from fractions import Fraction

from .common import Case, Obj

LEVEL = 'model_checking'
NOTE = ('Every ordered pair and triple of the supported units is enumerated; the frequencies and stellar parameters are symbolic reals, and each conversion is decided for all of them.'
        ' Trusts the symbolic interpreter in vlib; rounding is outside the claims.')
ASSUMPTIONS = ['stellar mass, radius and gravitational constant are positive; unit names are those the converter lists']
MOD = 'aesolver.frequency_handling.enumeration_files.enumeration_freq_converter_normalization'
IN = ['HZ', 'UHZ', 'RAD_PER_SEC', 'CYC_PER_DAY']
OUT = ['HZ', 'UHZ', 'RAD_PER_SEC', 'CYC_PER_DAY', 'CPD']
CASES = [str.upper, str.lower]


def hz(m, u):
    """One unit in hertz."""
    pi2 = 2 * (m.const(Fraction(repr(math.pi))) if m.sym else math.pi)
    return {'HZ': 1, 'UHZ': m.const(Fraction(1, 10 ** 6)) if m.sym else 1e-6, 'RAD_PER_SEC': 1 / pi2,
            'CYC_PER_DAY': m.const(Fraction(1, 86400)) if m.sym else 1 / 86400., 'CPD': m.const(Fraction(1, 86400)) if m.sym else 1 / 86400.}[u]


def conv(m):
    return m.entry(MOD, 'EnumerationGYREFreqConverter')


def direct(m):
    C = conv(m)
    v = m.real('v', lo=-1000, hi=1000)
    a, b = m.pick('from', IN), m.pick('to', OUT)
    low = m.pick('case', CASES)
    want = v * hz(m, a) / hz(m, b)
    m.eq('converted', C.factor_from_str(a.encode(), low(b))(v), want)
    m.eq('converted, from a mode', C.factor_from_dict({'freq_units': a.encode()}, low(b))(v), want)
    m.eq('converted, tolerant', C.factor_from_dict({'freq_units': a.encode()}, low(b), no_exit=True)(v), want)


def compose(m):
    C = conv(m)
    v = m.real('v', lo=-1000, hi=1000)
    a, b, c = m.pick('from', IN), m.pick('via', IN), m.pick('to', IN)
    d = C.factor_from_str(a.encode(), c)(v)
    m.eq('via a third unit', C.factor_from_str(b.encode(), c)(C.factor_from_str(a.encode(), b)(v)), d)
    m.eq('there and back', C.factor_from_str(b.encode(), a)(C.factor_from_str(a.encode(), b)(v)), v)


def arrays(m):
    C = conv(m)
    v = m.arr([m.real(f'v{i}', lo=-1000, hi=1000) for i in range(3)])
    a, b = m.pick('from', IN), m.pick('to', OUT)
    r = C.factor_from_str(a.encode(), b)(v)
    for i in range(3):
        m.eq('converted element', r[i], v[i] * hz(m, a) / hz(m, b))


def dimensionless(m):
    C = conv(m)
    v = m.real('v', lo=-100, hi=100)
    G, M, R = m.real('G', lo=Fraction(1, 10), hi=10), m.real('M', lo=Fraction(1, 10), hi=10), m.real('R', lo=Fraction(1, 10), hi=10)
    b = m.pick('to', OUT)
    f = C.factor_from_dict({'freq_units': b'NONE', 'G': G, 'M_star': M, 'R_star': R}, b, no_exit=True)
    dyn = m.sqrt(G * M / (R * R * R))
    m.eq('with dimension', f(v), v * dyn * hz(m, 'RAD_PER_SEC') / hz(m, b))
    w = C.factor_for_dimensioning_factor(b)(dyn if b == 'RAD_PER_SEC' else dyn * hz(m, 'RAD_PER_SEC'))
    m.eq('dimensioning factor', v * w, f(v))


def of_object(m):
    """Mode frequencies of a coupling object, in hertz."""
    C = conv(m)
    G, M, R = m.real('G', lo=Fraction(1, 10), hi=10), m.real('M', lo=Fraction(1, 10), hi=10), m.real('R', lo=Fraction(1, 10), hi=10)
    u = m.pick('unit', ['NONE'] + IN)
    enc = m.pick('encoded', [True, False])
    k = m.pick('mode', [1, 2, 3])
    idx = m.pick('index', [None, 0, 1])
    f = [[m.real(f'f{i}{j}', lo=-100, hi=100) for j in range(2)] for i in (1, 2, 3)]
    o = Obj(_G=G, _M_star=M, _R_star=R)
    for i in (1, 2, 3):
        setattr(o, f'_freq_mode_{i}', m.arr(f[i - 1]))
        setattr(o, f'_freq_units_mode_{i}', u.encode() if enc else u)
    r = C.factor_from_object(o, '_freq', k, my_index=idx)
    fac = m.sqrt(G * M / (R * R * R)) * hz(m, 'RAD_PER_SEC') if u == 'NONE' else hz(m, u)
    if idx is None:
        for j in range(2):
            m.eq('hertz', r[j], f[k - 1][j] * fac)
    else:
        m.eq('hertz', r, f[k - 1][idx] * fac)


def angular(m):
    f = m.entry(MOD, 'is_angular_frequency')
    u = m.pick('unit', OUT + ['rps', 'RAD_PER_DAY', 'rpd'])
    m.true('angular', f(u) == (u.lower() in ('rad_per_sec', 'rps', 'rad_per_day', 'rpd')))


def cases(tier):
    T = dict(quick=60, thorough=300)[tier]
    return [Case('one conversion', direct, seconds=T, bounds='all pairs of units; |v| <= 1000', max_paths=2000),
            Case('composition', compose, seconds=T, bounds='all triples of units; |v| <= 1000', max_paths=2000),
            Case('arrays', arrays, seconds=T, bounds='three values'),
            Case('dimensionless', dimensionless, seconds=T, bounds='G, M, R in [1/10, 10]'),
            Case('mode frequencies of a coupling', of_object, seconds=T, bounds='two frequencies for each of three modes', max_paths=2000),
            Case('angular units', angular, seconds=T, bounds='unit names')]
