"""C38: the scripts of the publication."""
import contextlib
import io
import re
import types
from fractions import Fraction

from .c12 import hurwitz
from .common import Case, HarnessGap, StubModule

LEVEL = 'model_checking'
NOTE = 'The functions are decided for all values; the scripts are then run as main programs on a symbolic grid (or symbolic data), and what they draw or print is compared with these values.'
ASSUMPTIONS = [
    'exact real arithmetic; summed linear rates different from zero',
    'matplotlib, pandas and the linear regression of scipy replaced by recorders; grids of the figure reduced to two arbitrary points per axis',
]
DZ, TH = 'dziembowski_subplot', 'compute_threshold_theta'


def published(t2, t3, q):
    s = t2 + t3 - 1
    p = t2 * t3
    c0 = -1 * s * s * s - 2 * p
    c2 = -12 * p + s * ((t2 - t3) * (t2 - t3) + (t2 + t3) * (t2 + t3) + 2)
    c4 = 3 * (-6 * p + s * ((t2 - t3) * (t2 - t3) + 2 * (t2 + t3) * (t2 + t3) + 1))
    return c0 + c2 * q * q + c4 * q * q * q * q


class Any:
    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return lambda *a, **k: Any()


class Axis(Any):
    def __init__(self):
        self.calls, self.set, self.texts = [], {}, []
        self.xaxis, self.yaxis, self.transAxes = Any(), Any(), Any()

    def contour(self, X, Y, Z, *a, **k): self.calls.append(('contour', X, Y, Z))
    def contourf(self, X, Y, Z, *a, **k): self.calls.append(('contourf', X, Y, Z))
    def imshow(self, Z, extent=None, origin=None, vmin=None, vmax=None, **k): self.calls.append(('imshow', Z, extent, origin))
    def set_xlabel(self, s, **k): self.set['x'] = s
    def set_ylabel(self, s, **k): self.set['y'] = s
    def text(self, x, y, s, **k): self.texts.append(s)


LOG = {}


class Frame:
    """The few parts of a table that matter: named columns."""

    def __init__(self, data=None, columns=None):
        rows = list(data.items()) if isinstance(data, dict) else [list(r) for r in data]
        self.cols = {k: list(v) for k, v in rows} if isinstance(data, dict) else {c: [r[i] for r in rows] for i, c in enumerate(columns)}
        LOG['frame'] = self
        self.loc = self

    def __getitem__(self, k):
        if isinstance(k, tuple):
            k = k[1]
        if k not in self.cols:
            raise KeyError(k)
        return types.SimpleNamespace(to_numpy=lambda: LOG['m'].arr(list(self.cols[k])), values=LOG['m'].arr(list(self.cols[k])))


def stubs(mode):
    s = {}
    mp, py, tick, col = StubModule('matplotlib'), StubModule('matplotlib.pyplot'), StubModule('matplotlib.ticker'), StubModule('matplotlib.colors')
    mp.__version__, mp.rc, mp.__path__ = '0', lambda *a, **k: None, []
    mp.pyplot, mp.ticker, mp.colors = py, tick, col
    py.rcParams = {}

    def subplots(n=1, k=1, **kw):
        fig = Any()
        ax = [Axis() for _ in range(n * k)]
        LOG['axes'] = ax
        return fig, ax

    py.subplots, py.setp, py.show = subplots, lambda *a, **k: None, lambda *a, **k: None
    py.savefig = lambda name, **k: LOG.setdefault('saved', []).append((name, k.get('metadata')))
    py.plot = lambda *a, **k: LOG.setdefault('plotted', []).append(a)
    tick.MaxNLocator = tick.AutoMinorLocator = lambda *a, **k: Any()
    col.ListedColormap = lambda c, *a, **k: c
    pd = StubModule('pandas')
    pd.DataFrame = Frame
    sc, st = StubModule('scipy'), StubModule('scipy.stats')
    sc.__path__, sc.stats = [], st

    def linregress(x, y=None, **k):
        LOG['regression'] = (list(x), list(y))
        return types.SimpleNamespace(slope=LOG['slope'], intercept=LOG['intercept'], stderr=LOG['ds'], intercept_stderr=LOG['di'])

    st.linregress = linregress
    s.update({'matplotlib': mp, 'matplotlib.pyplot': py, 'matplotlib.ticker': tick, 'matplotlib.colors': col, 'pandas': pd, 'scipy': sc, 'scipy.stats': st})
    return s


def start(m, **k):
    LOG.clear()
    LOG.update(m=m, **k)


def domains(m):
    """Stability of the fixed point for arbitrary damping-to-driving ratios and detunings; q is the detuning over the summed rate."""
    start(m)
    t3, s = m.real('theta3', lo=Fraction(1, 100), hi=1000), m.real('summed', lo=-1, hi=1000)
    m.assume(m.Or(s > Fraction(1, 10**6), s < -Fraction(1, 10**6)))
    t2 = s + 1 - t3
    m.assume(t2 > Fraction(1, 100))
    q = m.real('q', lo=-50, hi=50)
    d = -1 * q * s
    good, orig = m.entry(DZ, 'corrected_dziembowski', 'original_dziembowski')
    u = [1, -1 * t2, -1 * t3]
    for name, f, c in (('corrected domain', good, hurwitz(u, q) < 0), ('published domain', orig, published(t2, t3, q) > 0)):
        r = f(m.arr([t2]), m.arr([t3]), d)
        m.true(name, m.num(r[0]) == m.num(m.And(s > 0, c)))


def grid(m):
    """The grid of the figure."""
    start(m)
    g = m.entry(DZ, 'comp_meshgrid')
    lo, n, step = m.pick('lo', [Fraction(1, 10), Fraction(1)]), m.pick('n', [1, 2, 3]), Fraction(1, 2)
    hi = lo + n * step - Fraction(1, 8)
    X, Y, ext = g(float(lo), float(hi), float(step))
    m.true('shape', tuple(X.shape) == (n, n) and tuple(Y.shape) == (n, n))
    for i in range(n):
        for j in range(n):
            m.true(f'point {i} {j}', abs(float(X[i, j]) - float(lo + j * step)) < 1e-9 and abs(float(Y[i, j]) - float(lo + i * step)) < 1e-9)
    m.true('extent', tuple(ext) == (float(lo), float(hi), float(lo), float(hi)))


class Np:
    def __init__(self, np, arange):
        self.__dict__.update(_np=np, arange=arange)

    def __getattr__(self, n):
        return getattr(self._np, n)


def figure(m):
    """The whole script: panels, file name, annotations and description agree."""
    row, text = m.pick('first row', [False, True]), m.pick('text', [False, True])
    start(m)
    ranges = []

    def before(ns):
        def arange(a, b, d):
            k = len(ranges)
            v = [m.real(f'theta{k}_{i}', lo=Fraction(1, 10), hi=3000) for i in range(2)]
            for i in range(2):
                for j in range(2):
                    s = v[i] + v[j] - 1
                    m.assume(m.Or(s > Fraction(1, 100), s < -Fraction(1, 100)))
            ranges.append((v, (a, b)))
            return m.arr(v)
        ns['np'] = Np(ns['np'], arange)

    with contextlib.redirect_stdout(io.StringIO()):
        m.world.script(DZ, before, {'first_row': row, 'add_text': text})
    axes = LOG.get('axes', [])
    good, orig = m.entry(DZ, 'corrected_dziembowski', 'original_dziembowski')       # decided by the case 'stability domains'
    if len(ranges) != len(axes) or not axes:
        m.gap('the grids of the panels are not made one by one')
    m.true('one figure saved', len(LOG.get('saved', [])) == 1)
    name, meta = LOG['saved'][0]
    powers = [int(x) for x in re.findall(r'_e(-?\d+)', name)]
    m.true('one power per panel in the name', len(powers) == len(axes))
    m.true('annotation named', ('annotated' in name) == text)
    stated = re.findall(r'-?\d\.\d+E[+-]\d+', str(meta.get('Description', '')))
    m.true('powers of the description', [float(x) for x in stated] == [10. ** p for p in powers])
    for k, (ax, (v, (a, b))) in enumerate(zip(axes, ranges)):
        d = Fraction(10) ** powers[k]
        if text:
            m.true(f'panel {k}: annotation', len(ax.texts) == 1 and re.search(r'10\^\{(-?\d+)\}', ax.texts[0]) is not None and int(re.search(r'10\^\{(-?\d+)\}', ax.texts[0]).group(1)) == powers[k])
        else:
            m.true(f'panel {k}: no annotation', not ax.texts)
        m.true(f'panel {k}: labels', 'vartheta_2' in ax.set.get('x', 'vartheta_2') and 'vartheta_3' in ax.set.get('y', 'vartheta_3'))
        kinds = [c[0] for c in ax.calls]
        m.true(f'panel {k}: both domains shown', 'imshow' in kinds and ('contour' in kinds or 'contourf' in kinds))
        for c in ax.calls:
            Z = c[1] if c[0] == 'imshow' else c[3]
            if c[0] == 'imshow':
                m.true(f'panel {k}: extent', tuple(c[2]) == (a, b, a, b) and c[3] == 'lower')
            for i in range(2):
                for j in range(2):
                    t2, t3 = v[j], v[i]
                    want = (good if c[0] == 'imshow' else orig)(m.arr([t2]), m.arr([t3]), float(d))
                    m.true(f'panel {k}: {c[0]} at {i} {j}', m.num(Z[i, j]) == m.num(want[0]))
                    if c[0] != 'imshow':
                        m.eq(f'panel {k}: {c[0]} abscissa {i} {j}', c[1][i, j], t2)
                        m.eq(f'panel {k}: {c[0]} ordinate {i} {j}', c[2][i, j], t3)


def points(m, lab, n):
    """n triads whose luminosity ratios are alternatively above and below one, in an order that is picked."""
    order = m.pick('pattern', [0, 1, 2])
    up, dn = n // 2, n - n // 2
    pos = [m.real(f'{lab}u0', lo=Fraction(1, 100), hi=1)]
    neg = [m.real(f'{lab}d0', lo=Fraction(1, 1000), hi=Fraction(1, 10))]
    for i in range(1, up):
        pos.append(pos[-1] + m.real(f'{lab}u{i}', lo=Fraction(1, 100), hi=1))
    for i in range(1, dn):
        neg.append(neg[-1] + m.real(f'{lab}d{i}', lo=Fraction(1, 1000), hi=Fraction(1, 10)))
    out = [(1 + x, True, i) for i, x in enumerate(pos)] + [(1 - x, False, i) for i, x in enumerate(neg)]
    if order == 1:
        out = out[::-1]
    elif order == 2:
        out = out[1::2] + out[::2][::-1]
    return out


def threshold(m):
    """The threshold of the script: regression of the points closest to a ratio of one, evaluated at one."""
    n = 9
    pts = points(m, 'r', n)
    th = [m.real(f'theta{i}', lo=Fraction(1, 100), hi=40) for i in range(n)]
    start(m, slope=m.real('slope', lo=-50, hi=50), intercept=m.real('intercept', lo=-50, hi=50))
    a, h = m.real('err', lo=Fraction(1, 100), hi=10), Fraction(3, 4)
    LOG['ds'], LOG['di'] = a, h * a
    root = Fraction(5, 4) * a
    m.known_root(root, 2)
    k = m.pick('k', [2, 3])
    ratios = [p[0] for p in pts]
    given = []

    def before(ns):
        if 'get_values_for_interpolation' not in ns:
            m.gap('the data of the script cannot be replaced')

        def values():
            given.append(1)
            return list(th), list(ratios)
        ns['get_values_for_interpolation'] = values

    m.fork_minmax()
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        ns = m.world.script(TH, before, {'my_nr_closest_points': k}).__dict__
    if not given or 'regression' not in LOG:
        m.gap('the data of the script were not replaced')
    x, y = LOG['regression']
    want = [i for i, p in enumerate(pts) if p[2] < k]
    m.true('number of points', len(x) == len(y) == len(want))
    sel = m.And(*[m.Or(*[m.And(x[j] == ratios[i], y[j] == th[i]) for j in range(len(x))]) for i in want]) if len(x) == len(want) else False
    m.true('closest points on either side', sel)
    from .c33 import numbers
    nums = numbers(out.getvalue())
    m.true('six numbers', len(nums) >= 6)
    for lab, v, w in zip(('boundary', 'its uncertainty', 'slope', 'its error', 'intercept', 'its error '), nums,
                         (LOG['slope'] + LOG['intercept'], root, LOG['slope'], a, LOG['intercept'], h * a)):
        m.eq(lab, v, w)


def cases(tier):
    T = dict(quick=150, thorough=600)[tier]
    return [Case('stability domains', domains, stubs, seconds=T, bounds='ratios in [0.01, 1000], detuning over summed rate in [-50, 50]'),
            Case('grid', grid, stubs, seconds=T, bounds='grids of 1 to 3 points per axis'),
            Case('stability figure', figure, stubs, seconds=T, bounds='both rows, with and without annotations; 3 panels of 2 x 2 arbitrary grid points'),
            Case('threshold', threshold, stubs, seconds=T, max_paths=3000, bounds='9 triads in three orders, the 2 or 3 closest points on either side of one')]
