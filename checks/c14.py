"""C14: what the comparison figures of adiabatic and non-adiabatic modes draw."""
import inspect
import types
from fractions import Fraction

from .common import Case, HarnessGap, StubModule

LEVEL = 'bounded'
NOTE = 'profiles of 3 points with any values; three modes; every panel, line, label and limit of the figures'
ASSUMPTIONS = ['matplotlib replaced by a recorder of the drawing calls (lines, labels, limits, titles); the look of the figures is not claimed']

GP = 'aesolver.ad_nad_comparer.plotting.gyre_plotter'
MP = 'aesolver.ad_nad_comparer.plotting.mesa_plotter'
CO = 'aesolver.ad_nad_comparer.comparer'
FIGS = []


class Any:
    def __getattr__(self, n):
        return lambda *a, **k: None


class Axis:
    def __init__(self):
        self.lines, self.set, self.legends = [], {}, []
        self.xaxis, self.yaxis = Any(), Any()

    def plot(self, x, y, *a, label=None, **k):
        self.lines.append((x, y, label))

    def _lim(self, kind, a, k):
        if a and isinstance(a[0], tuple):
            a = a[0]
        d = dict(zip(('low', 'high'), a))
        for n, v in k.items():
            d[{'left': 'low', 'bottom': 'low', 'right': 'high', 'top': 'high'}[n]] = v
        self.set[kind] = d

    def set_xlim(self, *a, **k): self._lim('xlim', a, k)
    def set_ylim(self, *a, **k): self._lim('ylim', a, k)
    def set_xlabel(self, s, **k): self.set['xlabel'] = s
    def set_ylabel(self, s, **k): self.set['ylabel'] = s
    def set_title(self, s, **k): self.set['title'] = s
    def legend(self, *a, **k): self.legends.append(k)

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return lambda *a, **k: None


class Row(list):
    def __getattr__(self, n):
        raise HarnessGap(f'array of axes: {n}')


def subplots(nrows=1, ncols=1, **k):
    ax = [Axis() for _ in range(nrows * ncols)]
    FIGS.append(ax)
    return Any(), ax[0] if len(ax) == 1 else Row(ax)


def stubs(mode):
    plt = StubModule('matplotlib.pyplot')
    plt.subplots = subplots
    mpl = StubModule('matplotlib')
    tick = StubModule('matplotlib.ticker')
    tick.AutoMinorLocator = Any
    mpl.pyplot, mpl.ticker = plt, tick
    return {'matplotlib': mpl, 'matplotlib.pyplot': plt, 'matplotlib.ticker': tick, 'gyre_unit_converter': None}


K = 3


def vec(m, name, **k):
    return m.arr([m.real(f'{name}{i}', **k) for i in range(K)])


def modes(m, tag, frame='INERTIAL', unit='HZ'):
    out = []
    for j in range(3):
        t = f'{tag}{j}'
        out.append({'x': vec(m, t + 'x'), 'M_r': vec(m, t + 'Mr'), 'M_star': m.real(t + 'M', lo=1, hi=9), 'l': f'L{t}', 'm': f'M{t}', 'n_g': f'N{t}', 'freq': f'F{t}',
                    'freq_units': unit, 'freq_frame': frame,
                    'xi_r': {'re': vec(m, t + 'rr'), 'im': vec(m, t + 'ri')}, 'xi_h': {'re': vec(m, t + 'hr'), 'im': vec(m, t + 'hi')}})
    return out


def line(m, label, got, x, y, name=None):
    m.eq(label + ': abscissa', got[0], x)
    m.eq(label + ': ordinate', got[1], y)
    if name is not None:
        m.true(label + ': legend', got[2] == name)


def mass(d):
    return d['M_r'] / d['M_star']


def pair(m, label, ax, ad, nad, xq, y, part):
    m.true(label + ': one line for each mode', len(ax.lines) == 2)
    for (d, name), ln in zip(((ad, 'adiabatic'), (nad, 'non-adiabatic')), ax.lines):
        line(m, f'{label}, {name}', ln, mass(d) if xq == 'mass' else d[xq], d[y][part] if part else d[y], name)


def comparison(m):
    FIGS.clear()
    unit, text, frame = m.pick('unit', [('HZ', 'Hz', 'INERTIAL'), (b'CYC_PER_DAY', 'd$^{-1}$', b'COROT_I'), ('NONE', '', 'INERTIAL')])
    ad, nad = modes(m, 'a', frame, unit), modes(m, 'n', frame, unit)
    o = m.entry(GP, 'AdNadComparisonGYREPlotter')(ad, nad)
    nr, xq = m.pick('mode', [1, 2, 3]), m.pick('x', ['x', 'mass'])
    y = m.pick('y', ['xi_r', 'xi_h'])
    shape = m.pick('panels', ['real', 'imag', 'both', 'both tuple', 'swapped'])
    bx, by = m.pick('bounds', [(None, (-1, 2)), ((Fraction(1, 4), Fraction(3, 4)), {'bottom': -2, 'top': 3}), ({'left': 0, 'right': 1}, None)])
    kw = dict(x_quantity=xq, y_quantity=y, x_label='XL', mode_nr=nr, x_bounds=bx, y_bounds=by)
    if shape in ('real', 'imag'):
        o.figure_comparison(real_quantity_y=shape == 'real', y_label='YL', **kw)
        parts, ylabels = ['re' if shape == 'real' else 'im'], ['YL']
    else:
        seq = tuple if shape == 'both tuple' else list
        flags = [False, True] if shape == 'swapped' else [True, False]
        o.figure_comparison(real_quantity_y=seq(flags), y_label=seq(['Y1', 'Y2']), **kw)
        parts, ylabels = ['re' if f else 'im' for f in flags], ['Y1', 'Y2']
    m.true('one figure', len(FIGS) == 1 and len(FIGS[0]) == len(parts))
    a, n = ad[nr - 1], nad[nr - 1]
    for ax, part, yl in zip(FIGS[0], parts, ylabels):
        pair(m, f'panel {part}', ax, a, n, xq, y, part)
        m.true('label of the ordinate', ax.set.get('ylabel') == yl)
        for kind, b in (('xlim', bx), ('ylim', by)):
            want = None if b is None else tuple(b.values()) if isinstance(b, dict) else b
            got = ax.set.get(kind)
            m.true(kind, got is None if want is None else got is not None and (got.get('low'), got.get('high')) == want)
    m.true('label of the abscissa on the lowest panel', FIGS[0][-1].set.get('xlabel') == 'XL')
    m.true('a legend on the first panel', len(FIGS[0][0].legends) == 1)
    title = FIGS[0][0].set.get('title', '')
    m.true('quantum numbers in the title', f'({a["l"]},{a["m"]},{a["n_g"]})' in title)
    m.true('frequencies in the title', f'{a["freq"]}/{n["freq"]} {text}' in title)
    m.true('frame in the title', (frame.decode() if isinstance(frame, bytes) else frame).lower() in title)


def plain(m):
    """Quantities without real and imaginary parts."""
    FIGS.clear()
    ad, nad = modes(m, 'a'), modes(m, 'n')
    for d in ad + nad:
        d['V'] = d['xi_r']['im']
    o = m.entry(GP, 'AdNadComparisonGYREPlotter')(ad, nad)
    nr = m.pick('mode', [1, 2, 3])
    cx = m.pick('complex abscissa', [False, True])
    o.figure_comparison(x_quantity='xi_h' if cx else 'x', y_quantity='V', real_quantity_x=True if cx else None, real_quantity_y=None, y_label='V', mode_nr=nr)
    ax = FIGS[0][0]
    m.true('one line for each mode', len(ax.lines) == 2)
    for d, ln, name in zip((ad[nr - 1], nad[nr - 1]), ax.lines, ('adiabatic', 'non-adiabatic')):
        line(m, name, ln, d['xi_h']['re'] if cx else d['x'], d['V'], name)


def profiles(m):
    r = [m.real('r0', lo=Fraction(1, 4), hi=2)]
    for i in range(1, K):
        r.append(r[-1] + m.real(f'dr{i}', lo=0, hi=2))
    d = {q: vec(m, q) for q in ('A', 'B')}
    d['radius'] = m.arr(r[::-1])
    d['W'] = vec(m, 'W', lo=1, hi=3)
    return d, r[-1]


def profile(m):
    FIGS.clear()
    d, top = profiles(m)
    other, _ = profiles_other(m)
    nr = m.pick('model', [0, 1])
    xn = m.pick('x norm', [None, 'W', (max, 'radius')])
    yn = m.pick('y norm', [None, 'W', (max, 'radius')])
    kind = m.pick('kind', ['one', 'one with legend', 'two', 'difference'])
    o = m.entry(MP, 'AdNadComparisonMESAPlotter')([other, d] if nr else [d, other])
    y, leg = {'one': ('A', None), 'one with legend': ('A', 'LA'), 'two': (['A', 'B'], ['LA', 'LB']), 'difference': (['A', 'B'], None)}[kind]
    o.figure_profile(x_quantity='radius', y_quantity=y, x_label='XL', y_label='YL', quantity_diff=kind == 'difference', x_bounds={'left': 0, 'right': 1}, y_bounds=(-1, 1), mode_nr=nr,
                     y_legend_labels=leg, x_normalizing_quantity=xn, y_normalizing_quantity=yn)

    def norm(q, n):
        return d[q] if n is None else d[q] / d['W'] if n == 'W' else d[q] / top
    m.true('one panel', len(FIGS) == 1 and len(FIGS[0]) == 1)
    ax = FIGS[0][0]
    if kind == 'difference':
        want = [(d['A'] - d['B'], None)]
    elif kind == 'two':
        want = [(norm('A', yn), 'LA'), (norm('B', yn), 'LB')]
    else:
        want = [(norm('A', yn), leg)]
    m.true('number of lines', len(ax.lines) == len(want))
    for i, (ln, (y_, l_)) in enumerate(zip(ax.lines, want)):
        line(m, f'line {i}', ln, norm('radius', xn), y_)
        m.true('legend of the line', ln[2] == l_)
    m.true('labels', ax.set.get('xlabel') == 'XL' and ax.set.get('ylabel') == 'YL')
    m.true('limits', ax.set.get('xlim') == {'low': 0, 'high': 1} and ax.set.get('ylim') == {'low': -1, 'high': 1})
    m.true('legend', bool(ax.legends) == (leg is not None))


def profiles_other(m):
    return {q: vec(m, 'o' + q) for q in ('A', 'B', 'radius', 'W')}, None


def conflict(m):
    """Labels that cannot belong to the quantities end the program."""
    FIGS.clear()
    d, _ = profiles(m)
    o = m.entry(MP, 'AdNadComparisonMESAPlotter')([d])
    y, leg = m.pick('conflict', [('A', ['LA']), (['A', 'B'], 'LA'), (['A', 'B'], None)])
    try:
        o.figure_profile(x_quantity='radius', y_quantity=y, x_label='XL', y_label='YL', mode_nr=0, y_legend_labels=leg)
    except SystemExit:
        m.true('refused', True)
        return
    m.true('refused', False)


def comparer(m):
    """The figures of the comparison of a triad and of its stellar model."""
    FIGS.clear()
    K_ = m.entry(CO, 'AdNadComparer')
    o = K_.__new__(K_)
    ad, nad = modes(m, 'a'), modes(m, 'n')
    o._gyre_plotter = m.entry(GP, 'AdNadComparisonGYREPlotter')(ad, nad)
    rad = m.pick('radius', [False, True])
    o.generate_mode_eigenfunction_comparison_figures(radius_profiles=rad)
    m.true('two figures for each of three modes', len(FIGS) == 6 and all(len(f) == 2 for f in FIGS))
    for k, f in enumerate(FIGS):
        q = ('xi_r', 'xi_h')[k % 2]
        for ax, part, name in zip(f, ('re', 'im'), ('Re', 'Im')):
            pair(m, f'mode {k // 2 + 1}, {q}, {part}', ax, ad[k // 2], nad[k // 2], 'x' if rad else 'mass', q, part)
            m.true('label of the ordinate', ax.set['ylabel'] == f'${name}[\\xi_{"R" if k % 2 == 0 else "H"}]$')
            m.true('limits', ax.set['xlim'] == {'low': 0, 'high': 1} and 'ylim' not in ax.set)
        m.true('label of the abscissa', ('r / R' if rad else 'm / M') in f[1].set['xlabel'])


SHOWN = [['h1', 'h2', 'he3', 'he4'], ['brunt_N2', 'brunt_N2_structure_term', 'brunt_N2_composition_term'], ['lamb_S2'], ['csound'], ('hyeq_lhs', 'hyeq_rhs'), ['gamma_1_adDer'],
         ['log_D_mix', 'log_D_conv', 'log_D_ovr', 'log_D_minimum'], ['pressure'], ['logRho'], ['logT'], ['grada', 'gradT', 'gradr']]


def stellar(m):
    FIGS.clear()
    K_ = m.entry(CO, 'AdNadComparer')
    o = K_.__new__(K_)
    d = {q: vec(m, q) for f in SHOWN for q in f}
    top = {}
    for q in ('radius', 'mass'):
        r = [m.real(q + '0', lo=Fraction(1, 4), hi=2)]
        for i in range(1, K):
            r.append(r[-1] + m.real(f'd{q}{i}', lo=0, hi=2))
        d[q], top[q] = m.arr(r[::-1]), r[-1]
    o._mesa_plotter = m.entry(MP, 'AdNadComparisonMESAPlotter')([d])
    rad = m.pick('radius', [False, True])
    o.generate_profile_figures(radius_profiles=rad)
    q = 'radius' if rad else 'mass'
    m.true('the figures of the stellar model', len(FIGS) == len(SHOWN))
    for ax, want in zip([f[0] for f in FIGS], SHOWN):
        ys = [d[want[0]] - d[want[1]]] if isinstance(want, tuple) else [d[w] for w in want]
        m.true(f'{want}: number of lines', len(ax.lines) == len(ys))
        for ln, y in zip(ax.lines, ys):
            line(m, str(want), ln, d[q] / top[q], y)
        m.true('limits', ax.set['xlim'] == {'low': 0, 'high': 1})
        if isinstance(want, list) and len(want) > 1:
            m.true(f'{want}: as many legend labels', len({ln[2] for ln in ax.lines} - {None}) == len(want))
        m.true('label of the abscissa', ('r / R' if rad else 'm / M') in ax.set['xlabel'])


def loading(m):
    """The modes of the wanted combination are loaded from the adiabatic and the non-adiabatic folder."""
    K_ = m.entry(CO, 'AdNadComparer')
    g = K_.load_modes.__globals__
    sig = inspect.signature(m.entry('aesolver.model_handling.load_models', 'ModelLoader').__init__)
    rsig = inspect.signature(m.entry('aesolver.model_handling.load_models', 'ModelLoader').read_data_files)
    made = []

    class Loader:
        def __init__(self, *a, **k):
            b = sig.bind(self, *a, **k)
            b.apply_defaults()
            self.k, self.read, self.ad = b.arguments, None, len(made) == 0
            ds = modes(m, 'n' if 'nad' in str(b.arguments['gyre_output_dir']) else 'a')
            self.gyre_details, self.mesa_profile = ds, [profiles(m)[0]]
            made.append(self)

        def read_data_files(self, *a, **k):
            b = rsig.bind(self, *a, **k)
            b.apply_defaults()
            self.read = b.arguments

    class Info:
        def __init__(self, **k):
            self.gyre_comparison_info = {'base_dir': 'B/', 'mesa_output_dir': 'MD', 'mesa_profile_substrings': ('p',), 'mesa_suffix': 'dat', 'gyre_detail_substring': 'det', 'gyre_summary_substring': 's'}

        def parse_info_directories(self):
            pass
    old = g['ModelLoader'], g['InfoDirHandler']
    g['ModelLoader'], g['InfoDirHandler'] = Loader, Info
    try:
        info = types.SimpleNamespace(mode_l=[2, 2, 2], mode_m=[2, 0, 1], combinations_radial_orders=[[1, 2, 3], [4, 5, 6]])
        given = m.pick('folders', [True, False])
        pc = m.pick('percent', [20, 35])
        o = K_([], pc, info, base_dir='/b/', **(dict(ad_path='xad', nad_path='xnad') if given else {}))
        nr = m.pick('combination', [0, 1])
        o.load_modes(nr)
    finally:
        g['ModelLoader'], g['InfoDirHandler'] = old
    want = ['/b/xad/', '/b/xnad/'] if given else [f'/b/output_rot_{pc}/', f'/b/output_nad_rot_{pc}/']
    m.true('adiabatic and non-adiabatic folders', sorted(x.k['gyre_output_dir'] for x in made) == sorted(want))
    for x in made:
        m.true('the modes of the combination', x.k['search_l'] == [2, 2, 2] and x.k['search_m'] == [2, 0, 1] and x.k['search_n'] == [[1, 2, 3], [4, 5, 6]][nr])
        m.true('the folders and names of the information file', (x.k['base_dir'], x.k['mesa_output_dir'], x.k['mesa_profile_substrings'], x.k['mesa_suffix'], x.k['gyre_detail_substring']) == ('B/', 'MD', ('p',), 'dat', 'det'))
        m.true('modes are read', x.read is not None and x.read['gyre_detail'] and list(x.read['g_modes']) == [True] * 3)
    m.true('the stellar model is read', any(x.read['mesa_profile'] for x in made))
    FIGS.clear()
    o._gyre_plotter.figure_comparison(mode_nr=2, y_label='y')
    ads, nads = ([x for x in made if x.k['gyre_output_dir'] == w][0].gyre_details for w in want)
    pair(m, 'after loading', FIGS[0][0], ads[1], nads[1], 'x', 'xi_r', 're')
    FIGS.clear()
    o._mesa_plotter.figure_profile(x_quantity='radius', y_quantity='A', x_label='', y_label='', mode_nr=0)
    line(m, 'stellar model after loading', FIGS[0][0].lines[0], made[0].mesa_profile[0]['radius'], made[0].mesa_profile[0]['A'])


def cases(tier):
    return [
        Case('comparison figures', comparison, stubs, max_paths=4000, bounds='three modes, radius and mass coordinate, radial and horizontal displacements, one or two panels'),
        Case('quantities without parts', plain, stubs, bounds='three modes'),
        Case('profile figures', profile, stubs, max_paths=4000, bounds='two models, all normalisations, one or more lines, differences'),
        Case('conflicting labels', conflict, stubs, bounds='three conflicts'),
        Case('figures of a triad', comparer, stubs, bounds='six figures of two panels'),
        Case('figures of the stellar model', stellar, stubs, max_paths=4000, bounds='eleven figures'),
        Case('loading the modes', loading, stubs, bounds='two combinations; given and default folders'),
    ]
