"""Stand-ins of the compiled integrator and of the linear interpolator (their own behaviour is decided in C01)."""
import types


def integrator(mode):
    """num_integrator.cni: composite rules as C01 states them; the equal-spacing flag is believed, as the compiled code does."""
    def integrate(method, equally_spaced, f, x, num_threads, parallel):
        if mode != 'sym':
            import numpy as np
            for a in (f, x):
                if not (isinstance(a, np.ndarray) and a.dtype == np.float64 and a.flags['C_CONTIGUOUS'] and a.ndim == 1):
                    raise ValueError('Buffer dtype mismatch')
        n = f.shape[0]
        if n < 2:
            return 0.
        if equally_spaced:
            h = x[1] - x[0]
            if method == 'simpson' and n % 2:
                s = f[0] + f[n - 1]
                for i in range(1, n - 1):
                    s = s + (4 if i % 2 else 2) * f[i]
                return s * h / 3
            s = (f[0] + f[n - 1]) / 2
            for i in range(1, n - 1):
                s = s + f[i]
            return s * h
        s = 0.
        for i in range(n - 1):
            s = s + (x[i + 1] - x[i]) * (f[i + 1] + f[i]) / 2
        return s
    m = types.ModuleType('num_integrator')
    m.cni = types.SimpleNamespace(integrate=integrate)
    return m


def interpolator(mode):
    """scipy.interpolate.interp1d: linear, no extrapolation."""
    def interp1d(x, y):
        def f(p):
            out = []
            for v in p:
                if v < x[0] or v > x[x.shape[0] - 1]:
                    raise ValueError('A value in x_new is outside the interpolation range.')
                for i in range(x.shape[0] - 1):
                    if v <= x[i + 1]:
                        t = (v - x[i]) / (x[i + 1] - x[i])
                        out.append(y[i] + t * (y[i + 1] - y[i]))
                        break
            if mode == 'sym':
                from vlib.npshim import SHIM
                return SHIM.array(out)
            import numpy as np
            return np.array(out)
        return f
    m = types.ModuleType('scipy.interpolate')
    m.interp1d = interp1d
    return m


def stubs(mode):
    return {'num_integrator': integrator(mode), 'scipy.interpolate': interpolator(mode)}


def trapezoid(f, x):
    return sum((x[i + 1] - x[i]) * (f[i] + f[i + 1]) / 2 for i in range(len(x) - 1))
