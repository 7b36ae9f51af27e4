"""What the checks of the C++ parts share."""
from vlib import cxx
from .common import HarnessGap

REAL = {'num_integrator': None, 'ld_funcs': None, 'disc_integrator': None}


def stubs(mode):
    return dict(REAL)


def guarded(m, what, f):
    """f() may not touch memory outside the arrays."""
    try:
        return f()
    except cxx.OutOfBounds as e:
        m.true(f'{what}: memory outside the arrays is not touched', False)
        if not m.sym:
            m.failed[-1] = (m.failed[-1][0], str(e), 'no such access')
        m.done()


def scheduled(m, f, most=1, cap=400):
    """f() under an interleaving of the threads that is chosen by the solver."""
    cxx.SCHEDULE[:] = []
    if m.sym:
        f()
        y = min(cxx.LAST['yields'], cap)
    else:
        y = 10 ** 6
    try:
        at = 0
        for k in range(most):
            p = m.pick(f'preempt{k}', range(y + 1))
            if p <= at:
                break
            cxx.SCHEDULE.append(p)
            at = p
        return f()
    finally:
        cxx.SCHEDULE[:] = []
