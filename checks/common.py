"""Shared pieces of the harnesses."""
import types
from fractions import Fraction

from vlib.explore import Case          # noqa: F401
from vlib.loader import HarnessGap     # noqa: F401

FH_MOD = 'aesolver.frequency_handling.frequency_handler'
TRIPLE = (1, 2, 3)


def freq_array(m, re, im=None):
    """The 'freq' entry of a GYRE dictionary: array of length one."""
    if im is None:
        return m.arr([re])
    if m.sym:
        from vlib.sym import SymComplex
        return m.arr([SymComplex(re, im)])
    return m.np.array([complex(re, im)])


def star(m, uniform=True):
    """G, M, R of the star and its rotation frequency (rad/s)."""
    G = m.real('G', lo=Fraction(1, 10), hi=10)
    M = m.real('M', lo=Fraction(1, 10), hi=10)
    R = m.real('R', lo=Fraction(1, 10), hi=10)
    Om = m.real('Om', lo=Fraction(1, 100), hi=5)
    return G, M, R, Om


def gyre_dict(m, st, freq, m_az, units, frame, dimless_rot=False, l=2, im=None):
    G, M, R, Om = st
    d = {'G': G, 'M_star': M, 'R_star': R, 'freq_units': units, 'freq_frame': frame,
         'm': m_az, 'l': l, 'freq': freq_array(m, freq, im)}
    if dimless_rot:
        d['Omega_rot'] = m.arr([Om, Om])
    else:
        d['Omega_rot_dim'] = m.arr([Om, Om])
    return d


def two_pi(m):
    return 2 * (m.const(Fraction(repr(3.141592653589793))) if m.sym else 3.141592653589793)


class Obj:
    def __init__(self, **k):
        self.__dict__.update(k)

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise HarnessGap(f'the code reads {n} of a harness object')


class StubModule(types.ModuleType):
    """A stand-in for a library: parts that it lacks are a gap of the harness."""

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise HarnessGap(f'the code reads {n} of the stand-in for {self.__name__}')
