"""C33: coupling profiles adjusted for the validity of the traditional approximation."""
import contextlib
import io
import os
import re
import shutil
import tempfile
import types
from fractions import Fraction

import numpy as np

from vlib import sym

from .common import Case, HarnessGap, Obj, StubModule

LEVEL = 'bounded'
NOTE = ('every pattern of valid and invalid zones of up to 6 radii (thorough: 8), any profiles; single profiles and lists of four contributions; the zones come from the real '
        'method (C26); figures are recorded where they reach matplotlib, texts where they are printed.')
ASSUMPTIONS = ['matplotlib replaced by a recorder of lines, labels and files', 'stationary solution, coupling profile, jacobian and hyperbolicity test are stand-ins (C11, C12, C17)',
               'a triad that is valid everywhere raises an error (known finding of C26)']
MOD = {'profile': ('aesolver.solver.quadratic_profile', 'quadratic_profile'), 'solver': ('aesolver.solver.quadratic_solver', 'quadratic_solver')}
TP = 'aesolver.solver.profile_plot_classes.coupling_coefficient_plots.plot_template'
FIGS = []


class Any:
    def __init__(self, *a, **k):
        pass

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return lambda *a, **k: None


class Axis:
    def __init__(self):
        self.lines, self.set, self.twins, self.shade = [], {}, [], []
        self.xaxis, self.yaxis = Any(), Any()

    def plot(self, x, y, *a, label=None, **k):
        self.lines.append((x, y, label))
        return (Any(),)

    def fill_between(self, x, *a, where=None, **k):
        self.shade.append((x, where))

    def set_xlabel(self, s, **k): self.set['x'] = s
    def set_ylabel(self, s, **k): self.set['y'] = s
    def set_title(self, s, **k): self.set['title'] = s

    def twinx(self):
        a = Axis()
        self.twins.append(a)
        return a

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return lambda *a, **k: None


class Grid:
    def __init__(self, *a, **k):
        pass

    def __getitem__(self, i):
        return i

    def update(self, **k): pass
    def tight_layout(self, *a, **k): pass


class Figure:
    def __init__(self, **k):
        self.axes, self.saved, self.legends = [], [], []
        FIGS.append(self)

    def add_subplot(self, pos=None, **k):
        a = Axis()
        a.pos = pos
        self.axes.append(a)
        return a

    def legend(self, handles=None, labels=None, **k):
        self.legends.append(labels)

    def savefig(self, path, **k):
        self.saved.append(str(path))

    def text(self, *a, **k): pass

    def add_gridspec(self, rows=1, cols=1, **k):
        fig = self

        class Own(Grid):
            def subplots(self, **k):
                new = [fig.add_subplot((i,)) for i in range(rows * cols)]
                return new[0] if len(new) == 1 else new
        return Own()

    def __getattr__(self, n):
        raise HarnessGap(f'figure: {n}')


def stubs(mode):
    plt = StubModule('matplotlib.pyplot')
    plt.show = lambda *a, **k: None
    plt.figure = lambda *a, **k: Figure()
    plt.rcParams = {'axes.prop_cycle': types.SimpleNamespace(by_key=lambda: {'color': list('abcdefghij')})}
    plt.style = types.SimpleNamespace(context=lambda *a, **k: contextlib.nullcontext())
    plt.close = lambda *a, **k: None
    mpl = StubModule('matplotlib')
    tick = StubModule('matplotlib.ticker')
    tick.AutoMinorLocator = Any
    grid = StubModule('matplotlib.gridspec')
    grid.GridSpec = Grid
    axs = StubModule('matplotlib.axes')
    axs.Axes = Axis
    tick.MaxNLocator = Any
    mpl.pyplot, mpl.ticker, mpl.gridspec, mpl.axes = plt, tick, grid, axs
    return {'matplotlib': mpl, 'matplotlib.axes': axs, 'matplotlib.pyplot': plt, 'matplotlib.ticker': tick, 'matplotlib.gridspec': grid}


def coupler(m, pat, extra=None):
    """A star whose zones have the wanted pattern of validity."""
    return Obj(_brunt_N2_profile=m.arr([m.const(10 ** 4) if v else m.const(Fraction(1, 4)) for v in pat]),
               _freq_handler=Obj(_quality_factors=m.arr([m.const(x) for x in (100, 200, 300)]), quality_factors=m.arr([m.const(x) for x in (100, 200, 300)]),
                                 surf_rot_angular_freq_rps=m.const(Fraction(1, 4)), angular_conv_factor_from_rps=m.const(1),
                                 _corot_mode_omegas=m.arr([m.const(x) for x in (2, -1, 1)]), corot_mode_omegas=m.arr([m.const(x) for x in (2, -1, 1)])), **(extra or {}))


def owner(m, which):
    mod, _ = MOD[which]
    ns = m.entry(mod)
    for c in vars(ns).values():
        if isinstance(c, type) and 'get_masking_info_tar_validity' in vars(c):
            return c
    m.gap(f'no class of {mod} has the zone method')


def pattern(m, n):
    """Alternating zones: the first is valid or not, the borders are picked."""
    pat = []
    for i in range(n):
        pat.append(m.pick(f'valid{i}', [True, False]))
    if all(pat):
        m.skip('valid everywhere')
    return pat


def adjusted(y, pat):
    out, a = [], 0
    for j in range(len(pat)):
        out.append(y[j] - a)
        if not pat[j] and j + 1 < len(pat):
            a = a + (y[j + 1] - y[j])
    return out, a


def changes(y, pat):
    """Change of the profile over each invalid zone, up to the next valid radius."""
    out, i, n = [], 0, len(pat)
    while i < n:
        if pat[i]:
            i += 1
            continue
        j = i
        while j < n and not pat[j]:
            j += 1
        out.append(y[min(j, n - 1)] - y[i])
        i = j
    return out


def axes(m, fig, k):
    ax = sorted(fig.axes, key=lambda a: a.pos[0])
    m.true('panels', len(ax) == k)
    return ax


def panel(m, label, ax, x, ys, name, valid=None, legends=None):
    m.true(label + ': lines', len(ax.lines) == len(ys))
    m.true(label + ': name', ax.set.get('y') == name)
    for i, ((gx, gy, lab), y) in enumerate(zip(ax.lines, ys)):
        m.eq(label + ': abscissa', gx, x)
        m.eq(label + ': ordinate', gy, y)
        if legends is not None:
            m.true(label + ': legend', lab == legends[i])
    if valid is not None:
        m.true(label + ': shaded', len(ax.shade) == 1)
        m.eq(label + ': shaded radii', ax.shade[0][0], x)
        m.true(label + ': shaded where valid', [bool(v) for v in ax.shade[0][1]] == list(valid))


def masks(m, which, pat):
    K = owner(m, which)
    o = object.__new__(K)
    o._coupler = coupler(m, pat)
    with contextlib.redirect_stdout(io.StringIO()):
        return o.get_masking_info_tar_validity()


def template(which, n, many):
    def f(m):
        FIGS.clear()
        pat = pattern(m, n)
        x = m.arr([m.real(f'x{i}') for i in range(n)])
        br = m.arr([m.real(f'b{i}') for i in range(n)])
        k = 3 if many else 1
        ys = [m.arr([m.real(f'y{j}{i}') for i in range(n)]) for j in range(k)]
        valid, idx, vm, nm, inv = masks(m, which, pat)
        fn = m.entry(TP, 'double_masking_integrated_radial_profile_figure_template_function')
        leg = ['L0', 'L1', 'L2'] if many else None
        got = fn(radial_coordinate=x, y_ax_data=list(ys) if many else ys[0], y_ax_label=['Y', 'Yadj'], convection_zone_selection_indices=idx, fully_invalid=inv, convection_zone_masks=nm,
                 validity_zone_masks=vm, tar_validity_mask=valid, my_brunt=None if many else br, **({'use_legend': True, 'y_legend_entries': leg} if many else {}))
        tot, adj, fig, con = got
        if not many:
            tot, adj, con = [tot], [adj], [con]
        top, low = axes(m, fig, 2)
        panel(m, 'profile', top, x, ys, 'Y', pat, leg)
        want = []
        for y, t, a, c in zip(ys, tot, adj, con):
            p, off = adjusted(y, pat)
            m.eq('total', t, y[n - 1])
            m.eq('adjusted total', a, y[n - 1] - off)
            m.eq('contributions of the invalid zones', list(c), changes(y, pat))
            want.append(p if any(pat) else [0] * n)
        m.true('results', len(tot) == len(adj) == len(con) == k)
        panel(m, 'adjusted profile', low, x, want, 'Yadj', pat, leg)
        m.true('legend', fig.legends == ([leg] if many else []))
        if not many:
            for a in (top, low):
                m.true('frequency profile', len(a.twins) == 1)
                m.eq('frequency profile: radius', a.twins[0].lines[0][0], x)
                m.eq('frequency profile: values', a.twins[0].lines[0][1], br)
    return f


def single(m):
    FIGS.clear()
    n = 3
    x = m.arr([m.real(f'x{i}') for i in range(n)])
    ys = [m.arr([m.real(f'y{j}{i}') for i in range(n)]) for j in range(5)]
    b = m.arr([m.real(f'b{i}') for i in range(n)])
    fn = m.entry(TP, 'single_integrated_radial_profile_figure_template_function')
    kind = m.pick('kind', ['one', 'one with frequency', 'list', 'list with legend'])
    if kind.startswith('one'):
        fig = fn(x, ys[0], 'Y', **({'my_brunt_profile': b} if 'freq' in kind else {}))
        ax, = axes(m, fig, 1)
        panel(m, 'profile', ax, x, ys[:1], 'Y')
        m.true('frequency panel', len(ax.twins) == (1 if 'freq' in kind else 0))
        if ax.twins:
            m.eq('frequency', ax.twins[0].lines[0][1], b)
    else:
        leg = list('PQRST') if 'legend' in kind else None
        fig = fn(x, ys, 'Y', plot_legend=leg is not None, legend_entries=leg)
        ax, = axes(m, fig, 1)
        panel(m, 'profiles', ax, x, ys, 'Y', None, leg)
        m.true('legend', fig.legends == ([leg] if leg else []))


TOK = re.compile('\u27e6([^#]*)#(\\d+)\u27e7')


@contextlib.contextmanager
def printed():
    old = sym.SV.__repr__
    sym.SV.__repr__ = sym.SV.__str__
    buf = io.StringIO()
    here, tmp = os.getcwd(), tempfile.mkdtemp()
    os.chdir(tmp)
    try:
        with contextlib.redirect_stdout(buf), np.printoptions(precision=17, floatmode='unique'):
            yield buf
    finally:
        sym.SV.__repr__ = old
        os.chdir(here)
        shutil.rmtree(tmp, ignore_errors=True)


NUM = re.compile('\u27e6[^#]*#\\d+\u27e7|[-+]?(?:\\d+\\.?\\d*(?:[eE][-+]?\\d+)?|\\.\\d+)|nan|inf')


def numbers(text):
    out = []
    for t in NUM.findall(text):
        k = TOK.match(t)
        out.append(sym.TOKENS[int(k.group(2))] if k else float(t))
    return out


def told(m, lines, start, groups, after='after adjustment'):
    """The numbers that the only line starting like this gives before and after the adjustment."""
    hit = [ln for ln in lines if ln.startswith(start)]
    m.true(f'"{start}" is printed once', len(hit) == 1)
    if len(hit) != 1:
        return
    body = hit[0][len(start):]
    parts = re.split(after, body, maxsplit=1) if after else [body]
    m.true(f'{start}: parts', len(parts) == len(groups))
    for p, g in zip(parts, groups):
        p = re.sub(r'\(ppm\)|\(eta\)', '', p)
        got = numbers(p)
        m.true(f'{start}: how many numbers', len(got) == len(g))
        for a, b in zip(got, g):
            m.eq(start, a, b)


def whole(which, terms, kernels=None):
    """The whole profile program; kernels: (more attributes of the coupler, judge of the figures of kernels)."""
    def f(m):
        FIGS.clear()
        n = 3
        pat = m.pick('pattern', [(True, False, True), (False, True, False), (False, False, True), (True, True, False), (False, False, False)] if not terms else [(True, False, True), (False, True, False)])
        K = owner(m, which)
        G = K.compute_mode_triad_profile.__globals__
        x = m.arr([m.real(f'x{i}') for i in range(n)])
        y = m.arr([m.real(f'y{i}') for i in range(n)])
        parts = [m.arr([m.real(f't{j}{i}') for i in range(n)]) for j in range(4)]
        raw = m.arr([m.real(f'raw{i}') for i in range(n)])
        m.assume(abs(y[n - 1]) > Fraction(1, 100))
        adj, off = adjusted(y, pat)
        m.assume(abs(y[n - 1] - off) > Fraction(1, 100))
        st = {'equilibrium amplitudes': m.arr([m.real(f'A{i}', lo=1, hi=9) for i in range(3)]), 'critical parent amplitude': m.real('thr', lo=1, hi=9),
              'surface flux variations': m.arr([m.real(f'F{i}', lo=1, hi=9) for i in range(3)])}
        cp = coupler(m, pat, {'_x': x, 'x': x, 'coupling_coefficient_profile': raw, **(kernels[0](m, n) if kernels else {})})
        calls, seen = [], {}

        def prof(progress_bar=False):
            calls.append('profile')
            cp.normed_coupling_coefficient_profile = y
            cp.normed_contributions_coupling_coefficient_profile = parts
        cp.adiabatic_coupling_rot_profile = prof
        fh = Obj(driving_rates='rates', corot_mode_omegas='omegas', q_factor='q', surf_rot_angular_freq_rps=1)

        class Stat:
            def __init__(self, precheck_satisfied=None, freq_handler=None, hyperbolic=None, solver_object=None, **k):
                m.true('stationary solution of this triad', precheck_satisfied is True and freq_handler is fh and hyperbolic == 'HYP' and solver_object is o)

            def __call__(self):
                return dict(st)

        def one(self):
            calls.append('coupling')
            self._coupler, self._freq_handler = cp, fh
            self._hyperbolicity_info = ['HYP']
            self._rad_tup_profile = (-11, -12, -13)

        def jac(kind):
            def g(rates, omegas, q, eta=None, **k):
                m.true('jacobian of this triad', (rates, omegas, q) == ('rates', 'omegas', 'q'))
                m.eq('adjusted coupling of the jacobian', eta, y[n - 1] - off)
                return kind
            return g
        two = m.pick('two modes', [False, True])
        K2 = type('Probe', (K,), {'compute_coupling_one_triad': one, 'check_two_mode_sum_resonance': lambda self, x: (m.true('modes of the check', x == 'modes'), two)[1]})
        o = object.__new__(K2)
        for a, v in {'_coupler': None, '_coupling_profile': None, '_cc_profile_selection_dict': {'mode_l': [1, 2, 3], 'mode_m': [4, -5, 6]}, '_save_name': 'SN', '_rot_pct': 37,
                     '_info_dict_info_dirs': {'mesa_profile_substrings': ['one', 'two', 'three']}, '_view_term_by_term': terms, '_view_kernels': kernels is not None,
                     '_display_progress_bars': False, '_gyre_ad': 'modes'}.items():
            setattr(o, a, v)
        P = G['print_check_hyperbolic'].__globals__
        new = {'ThreeModeStationary': Stat}
        newP = {'hyper_jac': jac('four'), 'hyper_jac_three': jac('three'), 'check_hyper': lambda my_jac=None, **k: (seen.__setitem__('jac', my_jac), 'ADJHYP')[1]}
        old, oldP = {k: G[k] for k in new}, {k: P[k] for k in newP}
        G.update(new)
        P.update(newP)
        try:
            with printed() as buf, contextlib.suppress(SystemExit):
                if which == 'profile':
                    o.compute_mode_triad_profile()
                else:
                    o.compute_mode_triad_profile(view_term_by_term=terms, view_kernels=kernels is not None)
        finally:
            G.update(old)
            P.update(oldP)
        m.true('coupling, then profile', calls == ['coupling', 'profile'])
        m.true('jacobian', seen.get('jac') == ('three' if two else 'four'))
        figs = {}
        for g in FIGS:
            m.true('each figure is saved once', len(g.saved) == 1)
            m.true('each figure has its own file', g.saved[0] not in figs)
            figs[g.saved[0]] = g
        if kernels:
            kernels[1](m, cp, pat, {k: figs.pop(k) for k in list(figs) if '_kernels/' in k})
            return
        base = 'figure_output/profiles_isolated_mode_triads/one/two/rot_37/'
        tail = '_SN_n-11_-12_-13_l1_2_3_m4_-5_6'
        names = ['coupling_coefficient/cc_profile_single' + tail + '.pdf', 'coupling_coefficient/cc_profile' + tail + '.png'] + \
                (['coupling_coefficient_contributions/cc_contributions_profile' + tail + '.png'] if terms else [])
        m.true('files', sorted(figs) == sorted(base + s for s in names))
        if sorted(figs) != sorted(base + s for s in names):
            return
        brunt = cp._brunt_N2_profile
        ax, = axes(m, figs[base + names[0]], 1)
        panel(m, 'profile', ax, x, [y], r'$\eta_1\,(r)$')
        top, low = axes(m, figs[base + names[1]], 2)
        panel(m, 'profile', top, x, [y], r'$\eta_1\,(r)$', pat)
        panel(m, 'adjusted profile', low, x, [adj if any(pat) else [0] * n], r'$\eta_{1,\,{\rm adj}}\,(r)$', pat)
        for a in (ax, top, low):
            m.eq('frequency profile', a.twins[0].lines[0][1], brunt)
        lines = [ln.strip() for ln in buf.getvalue().splitlines()]
        tot = y[n - 1] - off
        r = tot / y[n - 1]
        mil = 10 ** 6
        A, F, T = st['equilibrium amplitudes'], st['surface flux variations'], st['critical parent amplitude']
        told(m, lines, 'Normed coupling coefficient eta:', [[y[n - 1]], [tot]])
        told(m, lines, 'Stationary amplitudes', [[a * mil for a in A], [a * mil / r for a in A]])
        told(m, lines, 'Parent threshold amplitude for parametric resonance', [[T * mil], [T * mil / r]])
        told(m, lines, 'Surface luminosity fluctuations', [[a * mil for a in F], [a * mil / r for a in F]])
        told(m, lines, 'Parent threshold luminosity fluctuation for parametric resonance', [[T * mil * F[0] / A[0]], [T * mil * F[0] / A[0] / r]])
        hit = [ln for ln in lines if ln.startswith('Contributions to the normed coupling coefficient due')]
        m.true('contributions are printed once', len(hit) == 1)
        if hit:
            got = numbers(hit[0].split('zones:')[1].split('These')[0].rstrip().rstrip('.'))
            m.eq('contributions', got, changes(y, pat))
        m.true('hyperbolicity', 'Hyperbolicity check: HYP, after adjustment for TAR validity: ADJHYP' in lines)
        if terms:
            top, low = axes(m, figs[base + names[2]], 2)
            panel(m, 'contributions', top, x, parts, r'$\eta_1^{(i)}(r)$', pat)
            panel(m, 'adjusted contributions', low, x, [adjusted(t, pat)[0] if any(pat) else [0] * n for t in parts], r'$\eta_{1,\,{\rm adj}}^{(i)}(r)$', pat)
            for w, t in zip(('First', 'Second', 'Third', 'Fourth'), parts):
                told(m, lines, f'{w} normed coupling coefficient (eta) contribution:', [[t[n - 1]], [t[n - 1] - adjusted(t, pat)[1]]])
                hit = [ln for ln in lines if ln.startswith(f'Contributions to the {w.lower()} normed')]
                m.true('zones of the contribution are printed once', len(hit) == 1)
                if hit:
                    m.eq('zones of the contribution', numbers(hit[0].split('zones:')[1].split('These')[0].rstrip().rstrip('.')), changes(t, pat))
    return f


def cases(tier):
    T = dict(quick=150, thorough=900)[tier]
    N = dict(quick=[2, 4, 6], thorough=[2, 3, 4, 5, 6, 7, 8])[tier]
    r = []
    for which in ('solver', 'profile'):
        for n in N:
            r.append(Case(f'{which}, {n} zones', template(which, n, False), stubs, seconds=T, max_paths=3000, bounds=f'every pattern of {n} radii'))
        r.append(Case(f'{which}, three profiles', template(which, 4 if tier == 'quick' else 5, True), stubs, seconds=T, max_paths=3000, bounds='every pattern of 4 (thorough: 5) radii'))
        r.append(Case(f'{which}, whole profile', whole(which, False), stubs, seconds=T, bounds='3 radii'))
        r.append(Case(f'{which}, whole profile with contributions', whole(which, True), stubs, seconds=T, bounds='3 radii'))
    r.append(Case('single figure', single, stubs, seconds=T, bounds='3 radii, up to 5 profiles'))
    return r
