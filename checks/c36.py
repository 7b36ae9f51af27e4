"""C36: figures of the plotting program."""
import contextlib
import io
import pathlib
import re
import tempfile
import types
from fractions import Fraction

from vlib import sym

from . import c33
from .common import Case, HarnessGap, StubModule
from .fakeh5 import make

LEVEL = 'model_checking'
NOTE = ('The classes of the triads (C24, C25), the derived quantities (C30) and the binning (C22, C23) are decided elsewhere: here masks, quantities and histograms are arbitrary, '
        'and what reaches matplotlib is compared with them.')
ASSUMPTIONS = ['matplotlib replaced by a recorder', 'binning functions replaced by stand-ins that return distinct symbols for each call']
MOD = 'aeplotter.quadratic_plotter'
FIGS = []


class Any:
    def __init__(self, *a, **k):
        pass

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return lambda *a, **k: None


class Ticks:
    def __init__(self):
        self.form, self.minor = None, Any()

    def set_major_formatter(self, f):
        self.form = f

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return lambda *a, **k: None


class Axis:
    def __init__(self):
        self.points, self.bars, self.set, self.twins, self.legends, self.scale = [], [], {}, [], [], {}
        self.xaxis, self.yaxis = Ticks(), Ticks()
        self._shared_axes = {'x': Any(), 'y': Any()}

    def scatter(self, x, y, c=None, label=None, alpha=1.0, **k):
        self.points.append(types.SimpleNamespace(x=list(x), y=list(y), label=label, alpha=alpha, c=c))

    def bar(self, x, height, width=None, label=None, **k):
        self.bars.append(types.SimpleNamespace(x=x, h=height, w=width, label=label))

    def twiny(self):
        self.twins.append(Axis())
        return self.twins[-1]

    def get_legend_handles_labels(self):
        return list(self.points), [p.label for p in self.points]

    def legend(self, handles=None, labels=None, **k):
        self.legends.append((handles, labels))

    def set_xlabel(self, s, **k): self.set['x'] = s
    def set_ylabel(self, s, **k): self.set['y'] = s
    def set_xscale(self, s): self.scale['x'] = s
    def set_yscale(self, s): self.scale['y'] = s

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return lambda *a, **k: None


class Figure:
    def __init__(self):
        self.ax, self.saved = Axis(), []
        FIGS.append(self)

    def savefig(self, fname=None, format=None, **k):
        self.saved.append((str(fname), format))

    def tight_layout(self, *a, **k): pass

    def __getattr__(self, n):
        raise HarnessGap(f'figure: {n}')


class Loc:
    def __init__(self, *a, **k):
        pass


class Func:
    def __init__(self, f):
        self.f = f


def subplots(*a, **k):
    f = Figure()
    return f, f.ax


def stubs(mode):
    plt = StubModule('matplotlib.pyplot')
    plt.subplots, plt.close, plt.show = subplots, lambda *a, **k: None, lambda *a, **k: None
    mpl, tick, axs = StubModule('matplotlib'), StubModule('matplotlib.ticker'), StubModule('matplotlib.axes')
    tick.AutoMinorLocator = tick.LinearLocator = Loc
    tick.FuncFormatter = Func
    axs.Axes = Axis
    mpl.pyplot, mpl.ticker, mpl.axes = plt, tick, axs
    return {'matplotlib': mpl, 'matplotlib.axes': axs, 'matplotlib.pyplot': plt, 'matplotlib.ticker': tick, 'h5py': make()}


@contextlib.contextmanager
def plotter(m, overview, sharp, tmp, **attrs):
    K = m.entry(MOD, 'QuadraticAEPlotter')
    o = object.__new__(K)
    save = {'save_base_dir': tmp, 'save_dir': 'x', 'extra_specifier_save': m.pick('extra', ['', 'more']), 'save_formats': ['png', 'pdf'], 'sharpness_save_name': 'SH',
            'overview_save_name': 'OV'}
    save['sharpness_subdir'] = save['overview_subdir'] = m.pick('folder', ['', 'sub'])
    for k, v in {'_plot_overview': overview, '_plot_resonance_sharpness': sharp, '_plot_coefficient_profile': False, '_fig_size': (3, 4), '_fig_dpi': 100, '_show_plots': False, **attrs}.items():
        setattr(o, k, v)
    for f in ('_store_generic_save_information', '_store_specific_save_info'):
        if not hasattr(o, f):
            m.gap('the places of the figures are stored elsewhere')
        getattr(o, f)(save_dict=save)
    yield o, save


def files(m, fig, tmp, save, sub, name):
    e = save['extra_specifier_save']
    base = pathlib.Path(tmp) / 'x'
    want = [(str((base / sub if sub else base) / f'{name}{"_" + e if e else ""}.{s}'), s) for s in ('png', 'pdf')]
    m.true('files', sorted(fig.saved) == sorted(want))
    m.true('the folder is there', (base / sub if sub else base).is_dir())


CAT = {'Stab.': '_mask_list_stable', 'Stab. + AE': '_mask_list_ae_stable', 'Stab. + Val.': '_mask_list_stable_valid'}


def overview(sizes):
    def f(m):
        FIGS.clear()
        B = lambda n, opts: [m.pick(f'{n}{i}', opts) for i in range(2)]     # noqa: E731
        data, masks = [], {k: [] for k in CAT}
        pats = {1: [[(True, True)], [(False, False)], [(True, False)]], 2: [[(True, True), (False, True)], [(False, False), (True, True)], [(True, False), (False, False)], [(True, True), (True, True)]]}
        for j, n in enumerate(sizes):
            neg = m.pick(f'neg{j}', pats[n])
            data.append(dict(min_inertial_freq_stack=m.arr([m.real(f'x{j}{i}{k}') for i in range(n) for k in range(2)], (n, 2)),
                             surf_ratio_daughter_parent_OG_SHAPE=m.arr([m.real(f'y{j}{i}{k}') for i in range(n) for k in range(2)], (n, 2)), neg_mask=m.np.array(neg, dtype=bool)))
            p = m.pick(f'class{j}', range(len(pats[n])))
            for q, k in enumerate(CAT):
                masks[k].append(m.np.array(pats[n][(p + q) % len(pats[n])], dtype=bool))
        with tempfile.TemporaryDirectory() as tmp, plotter(m, True, False, tmp, _list_data_dict=data, **{CAT[k]: masks[k] for k in CAT}) as (o, save):
            with contextlib.redirect_stdout(io.StringIO()):
                o.generate_plots()
            m.true('one figure', len(FIGS) == 1)
            files(m, FIGS[0], tmp, save, save['overview_subdir'], 'OV')
        ax = FIGS[0].ax
        m.true('classes', {p.label for p in ax.points} == set(CAT))
        strong = {}
        for k in CAT:
            for faint in (False, True):
                got = [p for p in ax.points if p.label == k and (p.alpha < 0.1) == faint]
                gx, gy = [v for p in got for v in p.x], [v for p in got for v in p.y]
                wx, wy = [], []
                for d, mk in zip(data, masks[k]):
                    for i in range(mk.shape[0]):
                        for c in range(2):
                            if mk[i, c] and bool(d['neg_mask'][i, c]) == faint:
                                wx.append(d['min_inertial_freq_stack'][i, c])
                                wy.append(d['surf_ratio_daughter_parent_OG_SHAPE'][i, c])
                one = f'{k}{", negative frequencies" if faint else ""}'
                m.true(one + ': triads', len(gx) == len(wx) and len(gy) == len(wy))
                if len(gx) == len(wx):
                    m.eq(one + ': frequencies', gx, wx)
                    m.eq(one + ': amplitude ratios', gy, wy)
                if not faint:
                    strong[k] = {p.c for p in got}
        m.true('colours tell the classes apart', len(set.union(*strong.values())) == 3 and all(len(v) == 1 for v in strong.values()))
        m.true('one legend', len(ax.legends) == 1)
        h, la = ax.legends[0]
        m.true('legend: each class once', sorted(la) == sorted(CAT))
        m.true('legend: colours of the classes', all(x.label == y for x, y in zip(h, la)))
        m.true('logarithmic ratios', ax.scale.get('y') == 'log')
        tw, = ax.twins
        m.true('second abscissa', 'Period' in tw.set.get('x', '') and isinstance(tw.xaxis.form, Func))
        v = m.real('tick', lo=Fraction(1, 4), hi=4)
        with c33.printed():
            txt = tw.xaxis.form.f(v, 0)
        got = c33.numbers(txt)
        m.true('one period', len(got) == 1)
        if m.sym:
            m.eq('period', got[0], 1 / v)
        else:
            m.true('period', abs(got[0] - 1 / v) <= 0.0051)
    return f


def sharpness(m):
    FIGS.clear()
    n = {'isolated': 2, 'not isolated': 3}
    d = {k: m.arr([m.real(f'{k[0]}{i}') for i in range(c)]) for k, c in n.items()}
    d['all'] = m.arr(list(d['isolated']) + list(d['not isolated']))
    what = m.pick('what', ['both', 'no isolated', 'no other', 'nothing'])
    edges = m.arr([m.real(f'e{i}', lo=i + 1, hi=i + 2) for i in range(4)]) if what != 'nothing' else None
    width = m.arr([m.real(f'w{i}', lo=Fraction(1, 10), hi=2) for i in range(3)]) if what != 'nothing' else None
    prob = {'isolated': m.arr([m.real(f'pi{i}', lo=0, hi=1) for i in range(3)]), 'not isolated': m.arr([m.real(f'pn{i}', lo=0, hi=1) for i in range(3)])}
    counts = {'isolated': [m.integer('ci0', 0, 50), m.integer('ci1', 0, 50)], 'not isolated': [m.integer('cn0', 0, 50), m.integer('cn1', 0, 50)]}
    calls = []

    def best(my_data=None, empirical_density=False, empirical_probability=False, **k):
        calls.append('best')
        m.eq('binned data', list(my_data), [abs(v) for v in d['all']])
        m.true('probability', empirical_probability and not empirical_density)
        return None, edges, width, None

    def given(my_data=None, my_bin_edges=None, empirical_density=False, empirical_probability=False, min_nr_bins=None, **k):
        calls.append('given')
        m.true('edges of all triads', my_bin_edges is edges)
        m.true('probability', empirical_probability and not empirical_density)
        m.true('least number of bins', min_nr_bins == (1 if edges is None else 3))
        kind = [q for q in n if len(my_data) == n[q]]
        m.true('known triads', len(kind) == 1)
        m.eq('binned triads: ' + kind[0], list(my_data), [abs(v) for v in d[kind[0]]])
        return None if what in ('nothing', 'no ' + {'isolated': 'isolated', 'not isolated': 'other'}[kind[0]]) else prob[kind[0]]

    def bad(*a, **k):
        raise HarnessGap('another way of binning')
    G = m.entry(MOD, 'QuadraticAEPlotter').generate_plots.__globals__['ResonanceSharpnessFigure']._get_data_for_plotting.__globals__['get_sharpness_histogram_plot_data'].__globals__
    new = {'log_histogram_likelihood_blas': best, 'histogram_blas_log_spec_edges': given, 'histogram_likelihood_blas': bad}
    old = {k: G[k] for k in new if k in G}
    G.update(new)
    try:
        with tempfile.TemporaryDirectory() as tmp, plotter(m, False, True, tmp, _resonance_sharpness_figure_dict=d, _count_nr_dict=counts) as (o, save):
            with c33.printed():
                o.generate_plots()
            m.true('one figure', len(FIGS) == 1)
            files(m, FIGS[0], tmp, save, save['sharpness_subdir'], 'SH')
    finally:
        G.update(old)
    m.true('binned once', sorted(calls) == ['best', 'given', 'given'])
    ax = FIGS[0].ax
    shown = [k for k in n if what != 'nothing' and what != 'no ' + {'isolated': 'isolated', 'not isolated': 'other'}[k]]
    m.true('histograms', len(ax.bars) == len(shown))
    m.true('logarithmic abscissa', ax.scale.get('x') == 'log')
    for k in shown:
        b = [b for b in ax.bars if b.label.startswith('Isolated') == (k == 'isolated')]
        m.true(k + ' is shown once', len(b) == 1)
        if len(b) != 1:
            continue
        b = b[0]
        m.eq(k + ': centres', b.x, [(edges[i] + edges[i + 1]) / 2 for i in range(3)])
        m.eq(k + ': widths', b.w, width)
        m.eq(k + ': percentages', b.h, [100 * p for p in prob[k]])
        num = c33.numbers(re.search(r'\((.*) triads\)', b.label).group(1))
        m.true(k + ': one number', len(num) == 1)
        m.eq(k + ': number of triads', num[0], counts[k][0] + counts[k][1])


def selection(m):
    """Which triads go into the histograms."""
    K = m.entry(MOD, 'QuadraticAEPlotter')
    o = object.__new__(K)
    o._show_plots = False
    pats = [(True, True, False, False), (False, True, False, True), (True, False, True, False), (False, False, False, False)]
    dd, iso, rest = [], [], []
    for j in range(2):
        dd.append({'linear_omega_diff': m.arr(m.reals(f'd{j}', 4)), 'driv_damp_rates': m.arr([-v if k else v for i in range(4) for k, v in enumerate(m.reals(f'g{j}{i}', 3, lo=Fraction(1, 10), hi=5))], (4, 3))})
        iso.append(m.np.array(m.pick(f'iso{j}', pats), dtype=bool))
        rest.append(m.np.array(m.pick(f'rest{j}', pats), dtype=bool))
    o._list_data_dict = dd
    seen = []

    def masks(data_dict=None, **k):
        i = [i for i, d in enumerate(dd) if d is data_dict]
        m.true('masks of a model', len(i) == 1)
        seen.append(i[0])
        return iso[i[0]], rest[i[0]]
    G = m.entry(MOD, 'QuadraticAEPlotter')._generate_plotting_masks_sharpness.__globals__
    old = G['isolated_non_isolated_stable_valid_masking']
    G['isolated_non_isolated_stable_valid_masking'] = masks
    try:
        o._store_resonance_sharpness_factors()
        o._generate_plotting_masks_sharpness()
        o._generate_resonance_sharpness_figure_data()
    finally:
        G['isolated_non_isolated_stable_valid_masking'] = old
    got, cn = o._resonance_sharpness_figure_dict, o._count_nr_dict
    val = lambda j, i: dd[j]['linear_omega_diff'][i] / (dd[j]['driv_damp_rates'][i, 1] + dd[j]['driv_damp_rates'][i, 2])     # noqa: E731
    w = {'isolated': [val(j, i) for j in range(2) for i in range(4) if iso[j][i]], 'not isolated': [val(j, i) for j in range(2) for i in range(4) if rest[j][i]]}
    for k in w:
        m.true(k + ': number', len(got[k]) == len(w[k]))
        m.eq(k, list(got[k]), w[k])
    m.true('all: number', len(got['all']) == len(w['isolated'] + w['not isolated']))
    m.eq('all', list(got['all']), w['isolated'] + w['not isolated'])
    m.true('counts', [int(x) for x in cn['isolated']] == [int(sum(v)) for v in iso] and [int(x) for x in cn['not isolated']] == [int(sum(v)) for v in rest])


def cases(tier):
    T = dict(quick=200, thorough=900)[tier]
    r = [Case('overview ' + '+'.join(map(str, s)), overview(s), stubs, seconds=T, max_paths=4000, bounds='models with ' + ' and '.join(map(str, s)) + ' triads, patterns of classes')
         for s in ([(2,), (2, 1)] if tier == 'quick' else [(1,), (2,), (2, 1), (2, 2), (1, 2, 1)])]
    r.append(Case('resonance sharpness', sharpness, stubs, seconds=T, bounds='2 and 3 triads, 3 bins'))
    r.append(Case('data of the resonance sharpness', selection, stubs, seconds=T, max_paths=4000, bounds='two models of 4 triads'))
    return r
