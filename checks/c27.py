"""Result files: every saved value is the one computed for the quantity and triad whose name it carries."""
import contextlib
import io
import re
import tempfile
from fractions import Fraction

from .common import Case, HarnessGap, Obj
from .fakeh5 import make

LEVEL = 'model_checking'
NOTE = ('Model loading, frequency handling, pre-check, coupling coefficient and stationary solution are replaced by stand-ins that return distinct symbolic values per triad, mode and quantity '
        '(their values are covered by other checks); files by an in-memory stand-in. Trusts the symbolic interpreter in vlib.')
ASSUMPTIONS = ['real coupling coefficients']
BASE = 'aesolver.solver.solver_base_classes.quadratic_solver'
FREQ = {'inert_mode_freqs': 'inert_mode_freqs', 'corot_mode_freqs': 'corot_mode_freqs', 'inert_mode_omegas': 'inert_mode_omegas', 'corot_mode_omegas': 'corot_mode_omegas',
        'inert_dimless_mode_freqs': 'dimless_inert_freqs', 'corot_dimless_mode_freqs': 'dimless_corot_freqs',
        'inert_dimless_mode_omegas': 'dimless_inert_omegas', 'corot_dimless_mode_omegas': 'dimless_corot_omegas'}
STAT = {'detunings': 'detunings', 'gammas': 'gamma', 'critical_parent_amplitudes': 'critical parent amplitude', 'stationary_relative_phases': 'stationary relative phase',
        'stationary_relative_luminosity_phases': 'stationary relative luminosity phase', 'q_factors': 'q factor', 'critical_q_factors': 'critical q factor',
        'equilibrium_theoretical_amplitudes': 'equilibrium amplitudes', 'surface_flux_variations': 'surface flux variations'}


def stubs(mode):
    return {'h5py': make()}


class Dict(dict):
    def __missing__(self, k):
        raise HarnessGap(f'the code reads {k!r} of a harness dictionary')


class Modes(list):
    """The three modes of a triad."""


def models(kind, n, ls, ms):
    return Modes(Dict(kind=kind, n_pg=n[i], l=ls[i], m=ms[i], orders=tuple(n)) for i in range(3))


class Run:
    """One run of the grid solver with stand-ins for its parts."""

    def __init__(self, m, orders, ls, ms, polytropic=False, adiabatic=True, fails=(), stat=True, units='HZ', complex_=False, conj=None, settings=None, shift=0):
        self.shift = shift
        self.m, self.ls, self.ms = m, ls, ms
        self.poly, self.ad, self.fails, self.stat, self.units = polytropic, adiabatic, fails, stat, units
        self.fh, self.cc, self.sol, self.hyp = {}, {}, {}, {}
        self.orders = orders
        K = m.entry('aesolver.solver.quadratic_grid', 'QuadraticAEGridSolver')
        self.K = K
        base = m.entry(BASE, 'QuadraticAESolver')
        g, gg = base.compute_coupling_one_triad.__globals__, K._call_grid_computations.__globals__
        for d, names in ((g, ('InfoDirHandler', 'ModelLoader', 'FH', 'QCCR', 'PreThreeQuad', 'PreCheckQuadratic', 'hyper_jac', 'hyper_jac_three', 'check_hyper')),
                         (gg, ('ThreeModeStationary',))):
            for n in names:
                if n not in d:
                    m.gap(f'the solver does not use {n}')
                d[n] = getattr(self, 'make_' + n)
        r = self

        class Solver(K):
            def compute_additional_mode_info(self, *a, **k):
                pass                                   # surface terms, not saved

        self.settings = dict(numerical_integration_method='simpson', use_cheby_integration=True, cheby_order_multiplier=7, cheby_blow_up_protection=False, cheby_blow_up_factor=12.5)
        self.settings.update(settings or {})
        lo = {'damped_n_low1': orders[1][0], 'damped_n_high1': orders[1][1], 'driven_n_low': orders[0][0], 'driven_n_high': orders[0][1], 'mode_l': ls, 'mode_m': ms}
        if len(orders) > 2:
            lo.update(damped_n_low2=orders[2][0], damped_n_high2=orders[2][1])
        self.solver = Solver([], base_dir='b/', use_complex=complex_, adiabatic=adiabatic, polytrope_comp=polytropic, stationary_solving=stat, mode_selection_dict=lo,
                             terms_cc_conj=conj, **self.settings)
        self.conj = conj
        with contextlib.redirect_stdout(io.StringIO()):
            self.solver()

    # -- stand-ins
    def make_InfoDirHandler(self, **k):
        full = {x: x for x in ('gyre_base_dir', 'gyre_output_dir', 'base_dir', 'poly_base_dir', 'poly_struct_dir', 'poly_struct_substrings', 'poly_struct_suffix',
                               'poly_mode_base_dir', 'poly_mode_dir', 'poly_mode_substrings', 'poly_summary_substring')}
        return Obj(parse_info_directories=lambda: None, full_info=full)

    def make_ModelLoader(self, **k):
        n = list(k['search_n'])
        self.m.true('degrees and orders that are searched', (list(k['search_l']), list(k['search_m'])) == (self.ls, self.ms))
        o = Obj(read_data_files=lambda **kk: None)
        if self.poly:
            o.polytrope_oscillation_models = models('poly', n, self.ls, self.ms)
            o.polytrope_model = ['structure']
        else:
            kind = {'b/output_rot_20/': 'ad', 'b/output_nad_rot_20/': 'nad'}.get(k['gyre_output_dir'])
            if kind is None:
                self.m.gap('models are loaded from ' + str(k['gyre_output_dir']))
            o.gyre_details = models(kind, n, self.ls, self.ms)
            o.mesa_profile = ['structure']
        return o

    def key(self, ds):
        ds = list(ds)
        k = ds[0]['orders']
        if [d['n_pg'] for d in ds] != list(k) or any(d['orders'] != k for d in ds):
            self.m.true('the modes of one triad, in their order', False)
        return k, ds[0]['kind']

    def vec(self, tag, n=3, **kw):
        return self.m.arr([self.m.real(f'{tag}{i}', lo=-3, hi=3) for i in range(n)])

    def make_FH(self, *ds, **kw):
        if kw:
            self.m.gap('settings of the frequency handler')
        k, kind = self.key(ds)
        self.m.true('the frequencies are those of the chosen models', kind == ('poly' if self.poly else 'ad' if self.ad else 'nad'))
        t = 'f' + ''.join(map(str, k))
        o = Obj(orders=k, kind=kind)
        for n in sorted(FREQ.values()):
            setattr(o, n, self.vec(t + n))
        o.spin_factors = self.vec(t + 'spin')
        o.surf_rot_freq = self.m.real(t + 'rot', lo=-3, hi=3)
        o.requested_units = self.units
        det = self.vec(t + 'det', 2)
        o.get_detunings = lambda: (det, det)
        o.get_inert_corot_f = lambda: det
        o.get_dimless_omegas = lambda: det
        o.get_detunings = lambda: det

        def nonad(*nd):
            kk, kd = self.key(nd)
            self.m.true('non-adiabatic models of the same triad', kk == k and kd == 'nad')
            for n in sorted(FREQ.values()):
                setattr(o, n + '_nad', self.vec(t + n + 'N'))
            o.quality_factors = self.vec(t + 'Q')
            o.driving_rates = self.vec(t + 'g')
            o.q_factor = self.m.real(t + 'q', lo=-3, hi=3)
        o.set_mode_nonadiabatic_info = nonad
        self.fh[k] = o
        return o

    def make_PreThreeQuad(self, ds, fh, triads=None, conjugation=None, two_mode_harmonic=False):
        k, kind = self.key(ds)
        self.m.true('pre-check of the triad', (k, kind) == (fh.orders, 'ad') and triads == [(1, 2, 3)])
        self.m.true('conjugation of the pre-check', conjugation == (None if self.conj is None else [self.conj]))
        return Obj(check=lambda: k not in self.fails, l_list=[self.ls], m_list=[self.ms])

    def make_PreCheckQuadratic(self, ds, triads=None, conjugation=None):
        k, kind = self.key(ds)
        return Obj(generic_check=lambda: k not in self.fails, l_list=[self.ls], m_list=[self.ms])

    def make_QCCR(self, *ds, **kw):
        k, kind = self.key(ds)
        self.m.true('the coupling is that of the chosen models', kind == ('poly' if self.poly else 'ad' if self.ad else 'nad'))
        want = {'freq_handler': self.fh[k], 'l_list': self.ls, 'm_list': self.ms, 'polytropic': self.poly, 'conj_cc': self.conj, 'additional_profile_information': 'structure',
                **self.settings_of_coupler()}
        for n, v in want.items():
            self.m.true('setting of the coupling: ' + n, n in kw and (kw[n] is v if n == 'freq_handler' else kw[n] == v))
        t = 'c' + ''.join(map(str, k))
        o = Obj(**{n: self.m.real(t + n[:3], lo=-3, hi=3) for n in ('coupling_coefficient', 'normed_coupling_coefficient', 'eta_lee_coupling_coefficient')})
        for v in (o.coupling_coefficient, o.normed_coupling_coefficient, o.eta_lee_coupling_coefficient):
            self.m.assume(v > 0)
        o.normalization_factors = self.vec(t + 'norm')
        o.coupling_terms_quadratic = self.vec(t + 'terms', 4)
        o.adiabatic_coupling_rot = lambda: None
        self.cc[k] = o
        return o

    def settings_of_coupler(self):
        s = self.settings
        return {'numerical_integration_method': s['numerical_integration_method'], 'use_cheby_integration': s['use_cheby_integration'], 'cheby_order_multiplier': s['cheby_order_multiplier'],
                'cheby_blow_up_protection': s['cheby_blow_up_protection'], 'cheby_blow_up_factor': s['cheby_blow_up_factor']}

    def make_hyper_jac(self, g, om, q, ncc, three=False):
        for k, f in self.fh.items():
            if f.__dict__.get('driving_rates') is g:
                self.m.true('arguments of the jacobian', om is f.corot_mode_omegas and q is f.q_factor and ncc is self.cc[k].normed_coupling_coefficient)
                self.m.true('harmonic jacobian', three == (k[1] == k[2] and self.ls[1] == self.ls[2] and self.ms[1] == self.ms[2]))
                return k
        self.m.gap('rates handed to the jacobian')

    def make_hyper_jac_three(self, *a):
        return self.make_hyper_jac(*a, three=True)

    def make_check_hyper(self, k):
        self.hyp[k] = sum(k) % 2 == 0
        return self.hyp[k]

    def make_ThreeModeStationary(self, pre, fh, hyperbolic, solver_object=None, **kw):
        k = fh.orders
        m = self.m
        m.true('pre-check handed to the stationary solution', bool(pre) == (k not in self.fails))
        m.true('hyperbolicity handed to the stationary solution', bool(hyperbolic) == self.hyp.get(k, False))
        m.true('solver handed to the stationary solution', solver_object is self.solver if hasattr(self, 'solver') else True)
        t = 's' + ''.join(map(str, k))
        d = Dict({n: m.real(t + n.replace(' ', ''), lo=-3, hi=3) for n in STAT.values() if n not in ('equilibrium amplitudes', 'surface flux variations', 'gamma')})
        # rates by their signs, so that the kind of resonance is fixed
        kind = ['parametric', 'direct', 'driven', 'other'][(len(self.sol) + self.shift) % 4]
        s = {'parametric': (1, -1, -1), 'direct': (-1, 1, 1), 'driven': (1, 1, 1), 'other': (1, -1, 1)}[kind]
        mag = [m.real(f'{t}rate{i}', lo=Fraction(1, 10), hi=3) for i in range(3)]
        d['linear driving rates'] = m.arr([s[i] * mag[i] for i in range(3)])
        d['gamma'] = m.real(t + 'gamma', lo=-3, hi=3)
        d['kind'] = kind
        d['hyperbolic'] = hyperbolic
        d['linearly stable'] = bool(pre)
        for n in ('equilibrium amplitudes', 'surface flux variations'):
            d[n] = self.vec(t + n[:4])
        if not pre:
            for n in ('critical parent amplitude', 'stationary relative phase', 'stationary relative luminosity phase'):
                d[n] = None
        self.sol[k] = d
        return lambda: d


def save(m, run, name='res', save_dir='', extra='', **kw):
    """Save the solutions; returns the saved file."""
    S = m.entry('aesolver.data_handling.storer', 'NumericalSaver')
    H = m.entry('aesolver.data_handling.data_specific.hdf5_saver', 'h5')
    H.files.clear()
    with tempfile.TemporaryDirectory() as tmp:
        s = S(name, run.solver, base_dir=tmp, save_dir=save_dir, extra_specifier=extra, polytropic=run.poly, **kw)
        s()
        files = {re.sub('/+', '/', f.replace(tmp, '', 1)): v for f, v in H.files.items()}
    return files


def expect(run):
    m = run.m
    O = [tuple(x) for x in run.solver._mode_info_object.combinations_radial_orders]
    n = len(O)
    nan = float('nan')
    mat = lambda rows: m.arr([x for r in rows for x in r], (n, len(rows[0])))
    vec = lambda xs: m.arr(list(xs))
    e = {'quantum_numbers/n': m.np.array(O)}
    e['mode_statistics/wu'] = m.np.array([t[0] - abs(t[1] - t[2]) for t in O])
    fh = [run.fh[t] for t in O]
    for p, a in FREQ.items():
        e['mode_frequency_info/' + p] = mat([list(getattr(f, a)) for f in fh])
        if not run.poly:
            e['nad_mode_frequency_info/' + p] = mat([list(getattr(f, a + '_nad')) for f in fh])
    e['rotation/spin_factors'] = mat([list(f.spin_factors) for f in fh])
    e['rotation/surface_rotation_frequency'] = vec(f.surf_rot_freq for f in fh)
    for p, a in (('|kappa|', 'coupling_coefficient'), ('|kappa_norm|', 'normed_coupling_coefficient'), ('|eta|', 'eta_lee_coupling_coefficient')):
        e['coupling/generic/' + p] = vec(getattr(run.cc[t], a) if t in run.cc else 0 for t in O)
    e['coupling/generic/adiabatic'] = [run.ad] * n
    e['coupling/generic/quadratic_terms'] = mat([list(run.cc[t].coupling_terms_quadratic) if t in run.cc else [0] * 4 for t in O])
    e['normalization/radial'] = mat([list(run.cc[t].normalization_factors) if t in run.cc else [0] * 3 for t in O])
    if not run.poly:
        s = [run.sol[t] for t in O]
        e['linear_driving/driving_rates'] = mat([list(d['linear driving rates']) for d in s])
        e['linear_driving/quality_factors'] = mat([list(f.quality_factors) for f in fh])
        for p, a in STAT.items():
            if p in ('equilibrium_theoretical_amplitudes', 'surface_flux_variations'):
                e['coupling/stationary_three_mode/' + p] = mat([list(d[a]) for d in s])
            else:
                e['coupling/stationary_three_mode/' + p] = vec(nan if d[a] is None else d[a] for d in s)
    return e, O


def compare(m, run, f):
    e, O = expect(run)
    n = len(O)
    for p, v in e.items():
        if p not in f:
            m.true(f'{p} is saved', False)
            continue
        got = f[p].data
        if p == 'coupling/generic/adiabatic':
            m.true(p, len(got) == n and all(bool(x) == y for x, y in zip(got, v)))
        else:
            m.eq(p, got, v)
    if run.poly:
        for p in f:
            m.true('polytropes have no non-adiabatic data', not p.startswith(('nad_', 'checks', 'linear_driving', 'coupling/stationary')))
    else:
        c = f['checks/pre_checks'].data
        for i, t in enumerate(O):
            d = run.sol[t]
            for j, k in enumerate(('parametric', 'direct', 'driven')):
                m.true(f'check: {k}', c[i][j] if d['kind'] == k else m.Not(c[i][j]))
            m.eq('check: summed rates', m.num(c[i][3]), m.num(d['gamma'] < 0))
            m.true('check: linear stability', bool(c[i][4]) == (t not in run.fails))
            m.true('check: hyperbolicity', bool(c[i][5]) == run.hyp.get(t, False))
    q = f['@quantum_numbers']
    for a, v in (('l', run.ls), ('m', run.ms), ('k', [a - abs(b) for a, b in zip(run.ls, run.ms)])):
        m.true(f'quantum number {a}', [int(x) for x in q[a]] == v)
    for a, s in (('num_int_method', 'numerical_integration_method'), ('use_cheby', 'use_cheby_integration'), ('cheby_order_mul', 'cheby_order_multiplier'),
                 ('cheby_blow_up', 'cheby_blow_up_protection'), ('cheby_blow_up_fac', 'cheby_blow_up_factor')):
        m.true(f'setting {a}', f['@'].get(a) == run.settings[s])
    for g in ['mode_frequency_info'] + ([] if run.poly else ['nad_mode_frequency_info']):
        u = f['@' + g].get('frequency_units')
        m.true('units of ' + g, (u.decode() if isinstance(u, bytes) else str(u)) == run.units)


def one(f, m):
    m.true('one file', len(f) == 1)
    return next(iter(f.values()))


def shapes(orders, ls, ms, **kw):
    def f(m):
        run = Run(m, orders, ls, ms, **kw)
        compare(m, run, one(save(m, run), m))
    return f


NAMES = [([2, 1, 1], [2, 1, 1], 'res', '', '', False), ([3, 2, 2], [-1, 0, -1], 'res-1', 'sub', '', True), ([2, 1, 1], [0, 0, 0], 'res_1.5', 'sub/', '_x', False),
         ([3, 2, 1], [-2, -1, -1], 'a.b-c d', '', '_x', True), ([3, 2, 2], [3, 1, 2], 'res+', 'sub', '_x', False), ([10, 5, 5], [10, 5, 5], 'r', 'sub/', '', False)]


def names(m):
    """Files are saved under the name by which the analysis looks for them."""
    ls, ms, name, sub, extra, many = m.pick('names', NAMES)
    run = Run(m, ((4, 4), (6, 7)), ls, ms, polytropic=True)
    f = save(m, run, name, save_dir=sub, extra=extra)
    look = m.entry('aesolver.read_load_info.load_name_plots', 'generate_load_file_path_list')
    sub = sub.rstrip('/') + extra
    one_ = lambda x: [x] if many else x
    paths = look({'nr_files': 1, 'base_dir': '', 'output_dir': 'hdf5_output' + ('/' + sub if sub else ''), 'use_standard_format': False, 'base_file_names': [one_(name)],
                  'specification_names': [one_('')], 'file_suffix': [one_('h5')], 'meridional_degrees': [[a - abs(b) for a, b in zip(ls, ms)]], 'azimuthal_orders': [list(ms)]})
    paths = [paths[0]] if isinstance(paths[0], str) else list(paths[0])
    m.true('name of the file', list(f) == paths and len(paths) == 1)


def cases(tier):
    kw = dict(stubs=stubs, max_paths=2000, seconds=300)
    ls, ms = [2, 1, 1], [2, 1, 1]
    two, four, har = ((4, 4), (6, 7)), ((4, 5), (6, 7), (7, 7)), ((4, 4), (6, 7), (7, 7))
    l = [Case('adiabatic, four triads', shapes(four, ls, ms), **kw),
         Case('non-adiabatic', shapes(two, [3, 2, 1], [-1, 0, -1], adiabatic=False, units='CYC_PER_DAY', conj=(True, False, False)), **kw),
         Case('failed pre-check of the first', shapes(har, ls, ms, fails=((4, 6, 7),), shift=1), **kw),
         Case('failed pre-check of the last', shapes(har, ls, ms, fails=((4, 7, 7),), shift=3), **kw),
         Case('polytrope', shapes(((4, 5), (6, 8)), ls, ms, polytropic=True), **kw),
         Case('names', names, **kw)]
    if tier != 'quick':
        for sh in range(4):
            for fails in ((), ((4, 6, 7), (5, 7, 7)), ((4, 7, 7), (5, 6, 7), (5, 7, 7)), ((4, 6, 7), (4, 7, 7), (5, 6, 7), (5, 7, 7))):
                for ad in (True, False):
                    l.append(Case(f'shift {sh}, {len(fails)} failed, {"" if ad else "non-"}adiabatic', shapes(four, ls, [-1, 0, -1], fails=fails, shift=sh, adiabatic=ad), **kw))
        l.append(Case('without stationary selection', shapes(two, ls, ms, stat=False), **kw))
        l.append(Case('nine triads', shapes(((4, 6), (6, 8)), ls, ms, fails=((5, 6, 8),)), **kw))
    return l
