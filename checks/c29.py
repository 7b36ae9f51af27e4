"""Parameters of the input list reach the part of the program that they are meant for."""
import contextlib
import io
import os
import sys
import tempfile
import types

from .common import Case, HarnessGap, Obj
from .fakeh5 import make

LEVEL = 'model_checking'
NOTE = ('The TOML parser is replaced by one that returns an input list of symbolic values; solver, saver, analyzer and plotter (first stage) or model loading, frequency handling, '
        'coupling and stationary solution (second stage) by recorders. File selection by regular expressions over directory listings is outside. Trusts the symbolic interpreter in vlib.')
ASSUMPTIONS = ['the input list has the entries of the default input list']
BASE = 'aesolver.solver.solver_base_classes.quadratic_solver'


class Tree(dict):
    """Input list from dotted paths."""

    def put(self, path, v):
        d = self
        *a, b = path.split('.')
        for x in a:
            d = d.setdefault(x, {})
        d[b] = v


def inlist(m, flags=None, free=True):
    """An input list with a value of its own for every entry, and the values by path."""
    v = {}
    num = lambda p: v.__setitem__(p, m.real(p, lo=-50, hi=50))
    whole = lambda p: v.__setitem__(p, m.integer(p, -50, 50))
    text = lambda p: v.__setitem__(p, '<' + p + '>')
    flag = lambda p: v.__setitem__(p, m.boolean(p) if free else False)
    words = lambda p: v.__setitem__(p, ['<' + p + '.1>', '<' + p + '.2>'])
    for p in ('computation.angular.use_cheby', 'computation.angular.blow_up_protect', 'computation.parallel_mode_coupling', 'computation.parallel_pre_check', 'verbosity-debug.get_debug_info',
              'coupling_coefficient.symbolic_profiles', 'coupling_coefficient.brunt_def_profiles', 'plotting.profile.show_kernels',
              'plotting.profile.show_term_by_term', 'plotting.load.use_custom_name'):
        flag(p)
    for p in ('computation.angular.blow_up_fac', 'POLY_model.mass', 'POLY_model.radius'):
        num(p)
    for p in ('computation.angular.cheby_mul', 'rotation.rot_percent', 'mode_info.coupling.parent.n', 'mode_info.coupling.daughter_1.n', 'mode_info.coupling.daughter_2.n',
              *(f'mode_info.{x}.{k}' for x in ('parent', 'daughter_1', 'daughter_2') for k in 'lm'), *(f'mode_info.{x}.n.{k}' for x in ('parent', 'daughter_1', 'daughter_2') for k in ('low', 'high')),
              'plotting.load.nr_files', 'plotting.figure.dpi', 'plotting.labels.ax_label.size', 'plotting.labels.tick_label.size', 'plotting.labels.tick_label.pad', 'plotting.ticks.size',
              'plotting.misc.rad_nr', 'computation.nr_parallel_processes'):
        whole(p)
    for p in ('computation.integration_method', 'GYRE_selection.gyre_dir_path', 'GYRE_selection.specifier.adiabatic', 'GYRE_selection.specifier.nonadiabatic', 'GYRE_selection.alternative.directory_path',
              'GYRE_selection.alternative.file_name', 'POLY_selection.mode_path', 'POLY_selection.specifier.modes', 'POLY_selection.alternative.directory_path', 'POLY_selection.alternative.file_name',
              *(f'saving.solve.{x}' for x in ('base_dir', 'save_dir', 'extra_specifier', 'save_format')), *(f'saving.plot.{x}' for x in ('base_dir', 'save_dir', 'extra_specifier')),
              'saving.plot.sharpness.save_name', 'saving.plot.sharpness.save_subdir', 'saving.plot.overview.save_name', 'saving.plot.overview.save_subdir',
              'plotting.load.base_dir', 'plotting.load.output_dir', 'plotting.colors.matplotlib_color_map',
              'information_folders.MESA.default.base_dir', 'information_folders.MESA.default.output_dir', 'information_folders.MESA.selection.suffix',
              'information_folders.GYRE.default.base_dir', 'information_folders.GYRE.default.output_dir', 'information_folders.GYRE.selection.summary_substring',
              'information_folders.POLY.structure.default.base_dir', 'information_folders.POLY.structure.default.output_dir', 'information_folders.POLY.structure.selection.suffix',
              'information_folders.POLY.modes.default.base_dir', 'information_folders.POLY.modes.default.output_dir', 'information_folders.POLY.modes.selection.summary_substring'):
        text(p)
    for p in ('saving.plot.save_formats', 'plotting.load.base_file_names', 'plotting.load.specification_names', 'plotting.load.file_suffix', 'plotting.load.masses', 'plotting.load.Xcs',
              'plotting.load.triple_pairs', 'plotting.load.meridional_degrees', 'plotting.load.azimuthal_orders', 'plotting.figure.size',
              'information_folders.MESA.selection.substrings', 'information_folders.GYRE.selection.detail_substrings', 'information_folders.POLY.structure.selection.substrings',
              'information_folders.POLY.modes.selection.detail_substrings'):
        words(p)
    v['coupling_coefficient.terms_cc_conj'] = [True, False, False]
    for p, x in {'computation.compute_grid_models': True, 'computation.compute_coefficient_profile': False, 'computation.display_progress': False, 'verbosity-debug.verbose': True,
                 'verbosity-debug.debug': False, 'rotation.rotating_formalism': True, 'coupling_coefficient.use_complex': False, 'coupling_coefficient.adiabatic': True,
                 'coupling_coefficient.compute_for_polytrope': False, 'coupling_coefficient.analytic_polytrope': False, 'plotting.plot.show': False, 'plotting.plot.overview': True,
                 'plotting.plot.coefficient_profile': False, 'plotting.plot.resonance_sharpness': True, 'plotting.misc.plot_cyclic_fs': True,
                 **{'analysis.' + x: False for x in ('numbers_categories', 'q_Q1_condition', 'isolated_mode_properties', 'isolated_stability_validity_estimators', 'isolated_triad_observables')},
                 **{f'information_folders.{x}_to_tuple': True for x in ('MESA.selection.substrings', 'GYRE.selection.detail_substrings', 'POLY.structure.selection.substrings', 'POLY.modes.selection.detail_substrings')}}.items():
        v[p] = x
    v.update(flags or {})
    t = Tree()
    for p, x in v.items():
        t.put(p, list(x) if isinstance(x, list) else x)
    return t, v


class Toml:
    tree = None


def stubs(mode):
    t = types.ModuleType('tomllib')
    store = Toml()
    import copy

    def load(fp):
        if store.tree is None:
            raise HarnessGap('no input list')

        def cp(d):
            return {k: cp(x) if isinstance(x, dict) else list(x) if isinstance(x, list) else x for k, x in d.items()}
        return cp(store.tree)
    t.load, t.store = load, store
    return {'tomllib': t, 'h5py': make(), 'generic_parser': None, 'log_formatter': None, 'path_resolver': None, 'inlist_handler': None}


@contextlib.contextmanager
def arguments(args):
    """A directory with an (empty) input list, and the command line."""
    old, cwd = sys.argv, os.getcwd()
    with tempfile.TemporaryDirectory() as tmp:
        d = os.path.join(tmp, 'AESolver', 'inlists')
        os.makedirs(d)
        os.makedirs(os.path.join(tmp, 'AESolver', 'run_scripts'))
        open(os.path.join(d, 'mine.toml'), 'w').close()
        open(os.path.join(d, 'inlist.toml'), 'w').close()
        sys.argv = [os.path.join(tmp, 'AESolver', 'run_scripts', 'run.py')] + args
        try:
            os.chdir(os.path.join(tmp, 'AESolver'))
            with contextlib.redirect_stdout(io.StringIO()):
                yield os.path.join(tmp, 'AESolver')
        finally:
            sys.argv = old
            os.chdir(cwd)


def logger():
    lv = types.SimpleNamespace(level=20)
    h = types.SimpleNamespace(setLevel=lambda x: None)
    return types.SimpleNamespace(getEffectiveLevel=lambda: lv.level, setLevel=lambda x: setattr(lv, 'level', x), handlers=[h], info=lambda *a: None, error=lambda *a: None, debug=lambda *a: None,
                                 warning=lambda *a: None, lv=lv)


def symbolic(x):
    from vlib.sym import SymBool, SV
    return isinstance(x, (SymBool, SV))


def same(m, label, got, want):
    if isinstance(want, (list, tuple)):
        ok = isinstance(got, (list, tuple)) and len(got) == len(want)
        m.true(label, ok)
        if ok:
            for a, b in zip(got, want):
                same(m, label, a, b)
    elif isinstance(want, (str, type(None))):
        m.true(label, got == want if isinstance(got, (str, type(None))) else False)
    elif got is None or isinstance(got, (str, list, tuple, dict)):
        m.true(label, False)
    else:
        m.true(label, m.num(got) == m.num(want))


def check_dict(m, label, got, want):
    m.true(f'{label}: names', set(got) == set(want))
    for k, x in want.items():
        if k in got:
            same(m, f'{label}: {k}', got[k], x)


def path_in(v, p):
    return v[p]


SOLVER = {'rot_pct': 'rotation.rot_percent', 'base_dir': 'GYRE_selection.gyre_dir_path', 'alternative_directory_path': 'GYRE_selection.alternative.directory_path',
          'alternative_file_name': 'GYRE_selection.alternative.file_name', 'adiabatic': 'coupling_coefficient.adiabatic', 'use_complex': 'coupling_coefficient.use_complex',
          'use_symbolic_profiles': 'coupling_coefficient.symbolic_profiles', 'use_brunt_def': 'coupling_coefficient.brunt_def_profiles', 'use_rotating_formalism': 'rotation.rotating_formalism',
          'terms_cc_conj': 'coupling_coefficient.terms_cc_conj', 'polytrope_comp': 'coupling_coefficient.compute_for_polytrope', 'analytic_polytrope': 'coupling_coefficient.analytic_polytrope',
          'polytrope_mass': 'POLY_model.mass', 'polytrope_radius': 'POLY_model.radius', 'numerical_integration_method': 'computation.integration_method',
          'use_cheby_integration': 'computation.angular.use_cheby', 'cheby_order_multiplier': 'computation.angular.cheby_mul', 'cheby_blow_up_protection': 'computation.angular.blow_up_protect',
          'cheby_blow_up_factor': 'computation.angular.blow_up_fac', 'ad_path': 'GYRE_selection.specifier.adiabatic', 'nad_path': 'GYRE_selection.specifier.nonadiabatic',
          'use_parallel': 'computation.parallel_mode_coupling', 'get_debug_info': 'verbosity-debug.get_debug_info', 'progress_bars': 'computation.display_progress'}
SELECT = {'driven_n_low': 'parent.n.low', 'driven_n_high': 'parent.n.high', 'damped_n_low1': 'daughter_1.n.low', 'damped_n_high1': 'daughter_1.n.high', 'damped_n_low2': 'daughter_2.n.low',
          'damped_n_high2': 'daughter_2.n.high'}


def names3(v, k):
    return [v[f'mode_info.{x}.{k}'] for x in ('parent', 'daughter_1', 'daughter_2')]


def runner(which):
    """The arguments with which solver and saver are called."""
    def f(m):
        grid = which != 'profile'
        flags = {'computation.compute_grid_models': grid, 'computation.compute_coefficient_profile': not grid, 'coupling_coefficient.compute_for_polytrope': which == 'polytrope'}
        for p in ('coupling_coefficient.use_complex', 'coupling_coefficient.adiabatic', 'coupling_coefficient.analytic_polytrope', 'computation.display_progress', 'rotation.rotating_formalism'):
            flags[p] = m.boolean(p)
        if m.pick('second range', [True, False]):
            flags['mode_info.daughter_2.n.low'] = flags['mode_info.daughter_2.n.high'] = {}
            flags['GYRE_selection.alternative.file_name'] = {}
        t, v = inlist(m, flags)
        v = {k: None if x == {} and isinstance(x, dict) else x for k, x in v.items()}
        run = m.entry('aerunners.solve_quadratic', 'perform_complete_solve_run')
        g = run.__globals__
        m.entry('inlist_handler.toml_inlist_handler', 'tomllib').store.tree = t
        rec = []

        def solver(name):
            def init(args, **k):
                rec.append((name, k))
                return lambda: rec.append(('run', {}))
            return init

        def saver(**k):
            rec.append(('save', k))
            return lambda: rec.append(('saved', {}))
        for n in ('QuadraticAEGridSolver', 'QuadraticAEProfileSolver'):
            if n not in g:
                m.gap('the runner does not use ' + n)
            g[n] = solver(n)
        if 'NumericalSaver' not in g:
            m.gap('the runner does not use NumericalSaver')
        g['NumericalSaver'] = saver
        args = m.pick('command line', [['--save_file_name', 'out'], ['mine', 'toml', './inlists', '--save_file_name', 'out']])
        with arguments(args) as base:
            run(logger=logger())
        m.true('steps of the run', [r[0] for r in rec] == [('QuadraticAEGridSolver' if grid else 'QuadraticAEProfileSolver'), 'run'] + (['save', 'saved'] if grid else []))
        got = dict(rec[0][1])
        want = {k: v[p] for k, p in SOLVER.items()}
        if which == 'polytrope':
            want.update({'base_dir': v['POLY_selection.mode_path'], 'alternative_directory_path': v['POLY_selection.alternative.directory_path'],
                         'alternative_file_name': v['POLY_selection.alternative.file_name'], 'ad_path': v['POLY_selection.specifier.modes'], 'nad_path': None})
        m.true('input list handed to the solver', got.pop('toml_use', None) is True and
               os.path.realpath(str(got.pop('inlist_path', ''))) == os.path.realpath(os.path.join(base, 'inlists', ('mine' if len(args) > 2 else 'inlist') + '.toml')))
        if grid:
            check_dict(m, 'mode selection', got.pop('mode_selection_dict', {}), {**{k: v['mode_info.' + p] for k, p in SELECT.items()}, 'mode_l': names3(v, 'l'), 'mode_m': names3(v, 'm')})
        else:
            check_dict(m, 'selected triad', got.pop('cc_profile_selection_dict', {}), {**{f'{x}_n': v[f'mode_info.coupling.{x}.n'] for x in ('parent', 'daughter_1', 'daughter_2')},
                                                                                       'mode_l': names3(v, 'l'), 'mode_m': names3(v, 'm')})
            want.update({'save_name': 'out', 'view_kernels': v['plotting.profile.show_kernels'], 'view_term_by_term': v['plotting.profile.show_term_by_term']})
        check_dict(m, 'solver', got, want)
        if grid:
            k = dict(rec[2][1])
            m.true('solver handed to the saver', callable(k.pop('solving_object', None)))
            check_dict(m, 'saver', k, {'save_name': 'out', 'polytropic': which == 'polytrope', 'nr_modes': 3, 'base_dir': v['saving.solve.base_dir'], 'save_dir': v['saving.solve.save_dir'],
                                       'extra_specifier': v['saving.solve.extra_specifier'], 'initial_save_format': v['saving.solve.save_format']})
    return f


def solver(polytropic, adiabatic=True, complex_=False, profile=False):
    """From the input list through the real solver to the calls of its parts."""
    def f(m):
        flags = {'coupling_coefficient.compute_for_polytrope': polytropic, 'coupling_coefficient.adiabatic': adiabatic, 'coupling_coefficient.use_complex': complex_,
                 **{f'mode_info.{x}.n.{k}': n for x, k, n in (('parent', 'low', 4), ('parent', 'high', 4), ('daughter_1', 'low', 6), ('daughter_1', 'high', 6), ('daughter_2', 'low', 7), ('daughter_2', 'high', 7))}}
        if profile:
            flags.update({'computation.compute_grid_models': False, 'computation.compute_coefficient_profile': True,
                          **{f'mode_info.coupling.{x}.n': n for x, n in (('parent', 4), ('daughter_1', 6), ('daughter_2', 7))}})
        flags['coupling_coefficient.analytic_polytrope'] = m.boolean('coupling_coefficient.analytic_polytrope')
        t, v = inlist(m, flags)
        run = m.entry('aerunners.solve_quadratic', 'perform_complete_solve_run')
        m.entry('inlist_handler.toml_inlist_handler', 'tomllib').store.tree = t
        kind = 'QuadraticAEProfileSolver' if profile else 'QuadraticAEGridSolver'
        K = m.entry('aesolver.solver.quadratic_profile' if profile else 'aesolver.solver.quadratic_grid', kind)
        B = m.entry(BASE, 'QuadraticAESolver')
        g, gg = B.compute_coupling_one_triad.__globals__, {} if profile else K._call_grid_computations.__globals__
        load, couple, stat = [], [], []

        def mode(kind, i):
            return {'kind': kind, 'i': i, 'n_pg': (4, 6, 7)[i], 'l': names3(v, 'l')[i], 'm': names3(v, 'm')[i]}

        def loader(**k):
            def read(**kk):
                load.append((k, kk))
            kind = 'poly' if polytropic else 'ad' if len(load) == 0 else 'nad'
            ms = [mode(kind, i) for i in range(3)]
            return Obj(read_data_files=read, gyre_details=ms, mesa_profile=['structure'], polytrope_oscillation_models=ms, polytrope_model=['structure'])

        def fh(*ds, **k):
            z = m.arr([m.real(f'z{i}', lo=1, hi=2) for i in range(3)])
            o = Obj(set_mode_nonadiabatic_info=lambda *a: None, get_inert_corot_f=lambda: z, get_dimless_omegas=lambda: z, get_detunings=lambda: z, driving_rates=z, q_factor=z[0],
                    spin_factors=z, surf_rot_freq=z[0], requested_units='HZ', quality_factors=z)
            for n in ('inert', 'corot'):
                for s in ('', '_nad'):
                    for a in (f'{n}_mode_freqs', f'{n}_mode_omegas', f'dimless_{n}_freqs', f'dimless_{n}_omegas'):
                        setattr(o, a + s, z)
            return o

        def pre(ds, f, triads=None, conjugation=None, two_mode_harmonic=False):
            m.true('conjugation of the pre-check', conjugation == [(True, False, False)])
            return Obj(check=lambda: True, l_list=[names3(v, 'l')], m_list=[names3(v, 'm')])

        def qccr(*ds, **k):
            couple.append((ds, k))
            z = m.arr([m.real(f'y{i}', lo=1, hi=2) for i in range(4)])
            return Obj(adiabatic_coupling_rot=lambda: None, coupling_coefficient=z[0], normed_coupling_coefficient=z[1], eta_lee_coupling_coefficient=z[2], normalization_factors=z[:3],
                       coupling_terms_quadratic=z)
        saved = []

        class Solver(K):
            def compute_additional_mode_info(self, *a, **k):
                pass

            if profile:         # the profile itself is decided by other checks
                def compute_mode_triad_profile(self):
                    self.compute_coupling_one_triad()
                    saved.append(self)
        for d, new in ((g, {'ModelLoader': loader, 'FH': fh, 'PreThreeQuad': pre, 'QCCR': qccr, 'hyper_jac': lambda *a: None, 'hyper_jac_three': lambda *a: None, 'check_hyper': lambda j: True}),
                       (gg, {} if profile else {'ThreeModeStationary': lambda *a, **k: lambda: {}}),
                       (run.__globals__, {kind: Solver, 'NumericalSaver': lambda **k: lambda: saved.append(k['solving_object'])})):
            for n, x in new.items():
                if n not in d:
                    m.gap('the solver does not use ' + n)
                d[n] = x
        with arguments(['--save_file_name', 'out']):
            run(logger=logger())
        F = 'information_folders.'
        common = {'infer_dir': False, 'search_l': names3(v, 'l'), 'search_m': names3(v, 'm'), 'search_n': [4, 6, 7]}
        if polytropic:
            m.true('one set of models', len(load) == 1)
            k, r = load[0]
            k = {x: list(y) if isinstance(y, tuple) else y for x, y in k.items()}
            check_dict(m, 'models', k, {**common, 'base_dir': v[F + 'MESA.default.base_dir'], 'polytrope_model_output_dir': v[F + 'POLY.structure.default.output_dir'],
                                        'polytrope_oscillation_output_dir': v[F + 'POLY.modes.default.output_dir'], 'use_polytrope_data': True,
                                        'polytrope_model_suffix': v[F + 'POLY.structure.selection.suffix'], 'polytrope_model_substrings': v[F + 'POLY.structure.selection.substrings'],
                                        'polytrope_oscillation_substrings': v[F + 'POLY.modes.selection.detail_substrings']})
            from astropy.constants import M_sun, R_sun
            m.eq('mass of the polytrope', r['polytrope_mass'], v['POLY_model.mass'] * float(M_sun.cgs.value))
            m.eq('radius of the polytrope', r['polytrope_radius'], v['POLY_model.radius'] * float(R_sun.cgs.value))
        else:
            m.true('adiabatic and non-adiabatic models', len(load) == 2)
            for (k, r), ad in zip(load, ('adiabatic', 'nonadiabatic')):
                check_dict(m, ad, k, {**common, 'base_dir': v[F + 'MESA.default.base_dir'], 'mesa_output_dir': v[F + 'MESA.default.output_dir'],
                                      'mesa_profile_substrings': v[F + 'MESA.selection.substrings'], 'mesa_suffix': v[F + 'MESA.selection.suffix'],
                                      'gyre_output_dir': v['GYRE_selection.gyre_dir_path'] + v['GYRE_selection.specifier.' + ad] + '/',
                                      'gyre_detail_substring': v[F + 'GYRE.selection.detail_substrings'], 'gyre_summary_substring': v[F + 'GYRE.selection.summary_substring']})
                m.true('what is read', bool(r.get('gyre_detail')) and bool(r.get('mesa_profile', False)) == (ad == 'adiabatic'))
        m.true('one coupling coefficient', len(couple) == 1)
        ds, k = couple[0]
        m.true('modes of the coupling', [(d['kind'], d['i']) for d in ds] == [('poly' if polytropic else 'ad' if adiabatic else 'nad', i) for i in range(3)])
        want = {'additional_profile_information': 'structure', 'polytropic': polytropic, 'use_complex': complex_ and not adiabatic and not polytropic,
                'use_brunt_def': v['coupling_coefficient.brunt_def_profiles'], 'use_symbolic_derivatives': v['coupling_coefficient.symbolic_profiles'], 'use_parallel': v['computation.parallel_mode_coupling'],
                'numerical_integration_method': v['computation.integration_method'], 'store_debug': v['verbosity-debug.get_debug_info'], 'use_cheby_integration': v['computation.angular.use_cheby'],
                'cheby_order_multiplier': v['computation.angular.cheby_mul'], 'cheby_blow_up_protection': v['computation.angular.blow_up_protect'],
                'cheby_blow_up_factor': v['computation.angular.blow_up_fac'], 'conj_cc': (True, False, False), 'l_list': names3(v, 'l'), 'm_list': names3(v, 'm')}
        if polytropic:
            want['analytic_polytrope'] = v['coupling_coefficient.analytic_polytrope']
        for n, x in want.items():
            if n in k:
                same(m, 'coupling: ' + n, k[n], x)
            else:
                m.true(f'coupling: {n} is given', False)
        m.true('the solver has run and is saved', len(saved) == 1)
    return f


SAVE = {'save_base_dir': 'base_dir', 'save_dir': 'save_dir', 'extra_specifier_save': 'extra_specifier', 'save_formats': 'save_formats', 'sharpness_save_name': 'sharpness.save_name',
        'sharpness_subdir': 'sharpness.save_subdir', 'overview_save_name': 'overview.save_name', 'overview_subdir': 'overview.save_subdir'}
PLOT = {'plot_overview': 'plotting.plot.overview', 'verbose': 'verbosity-debug.verbose', 'plot_coefficient_profile': 'plotting.plot.coefficient_profile',
        'plot_resonance_sharpness': 'plotting.plot.resonance_sharpness', 'fig_size': 'plotting.figure.size', 'fig_dpi': 'plotting.figure.dpi', 'ax_label_size': 'plotting.labels.ax_label.size',
        'tick_label_size': 'plotting.labels.tick_label.size', 'tick_size': 'plotting.ticks.size', 'rad_nr': 'plotting.misc.rad_nr', 'show_plots': 'plotting.plot.show',
        'cmap': 'plotting.colors.matplotlib_color_map', 'tick_label_pad': 'plotting.labels.tick_label.pad'}
LOAD = ('base_file_names', 'specification_names', 'masses', 'Xcs', 'triple_pairs', 'meridional_degrees', 'azimuthal_orders', 'file_suffix', 'nr_files', 'output_dir', 'base_dir')
STEPS = {'numbers_categories': 'generate_mode_triad_numbers_per_model', 'q_Q1_condition': 'generate_counts_q_quality_factor_1_condition',
         'isolated_mode_properties': 'generate_isolated_triad_mode_properties', 'isolated_stability_validity_estimators': 'generate_isolated_triad_stab_val_estimators',
         'isolated_triad_observables': 'generate_isolated_triad_observables'}


def program(which):
    """The analysis and plotting programs."""
    def f(m):
        flags = {'analysis.' + a: m.boolean('analysis.' + a) for a in STEPS} if which == 'analyze' else {}
        if which == 'plot':
            flags.update({p: m.boolean(p) for p in PLOT.values() if p.startswith('plotting.plot.')})
        t, v = inlist(m, flags)
        name, cls = {'analyze': ('perform_complete_analysis_run', 'QuadraticAEStationaryAnalyzer'), 'plot': ('perform_complete_plotting_run', 'QuadraticAEPlotter')}[which]
        run = m.entry(f'aerunners.{which}_quadratic', name)
        m.entry('inlist_handler.toml_inlist_handler', 'tomllib').store.tree = t
        g = run.__globals__
        rec, steps = [], []

        class Tool:
            def __init__(self, **k):
                rec.append(k)

            def __getattr__(self, n):
                if n.startswith('__'):
                    raise AttributeError(n)
                return lambda *a, **k: steps.append(n)
        if cls not in g:
            m.gap('the runner does not use ' + cls)
        g[cls] = Tool
        if 'plt' in g:
            g['plt'] = types.SimpleNamespace(show=lambda *a, **k: steps.append('show'))
        args = m.pick('command line', [[], ['mine', 'toml', './inlists']])
        with arguments(args):
            run(logger=logger())
        m.true('one object', len(rec) == 1)
        k = dict(rec[0])
        check_dict(m, 'saving', k.pop('save_information', {}), {a: v['saving.plot.' + p] for a, p in SAVE.items()})
        check_dict(m, 'plots', k.pop('analysis_dict' if which == 'analyze' else 'plotting_dict', {}), {a: v[p] for a, p in PLOT.items()})
        load = dict(k.pop('load_information', {}))
        std = load.pop('use_standard_format', None)
        m.true('standard names are used unless custom names are', m.num(std) == 1 - m.num(v['plotting.load.use_custom_name']))
        check_dict(m, 'loading', load, {a: v['plotting.load.' + a] for a in LOAD})
        m.true('nothing else', not k)
        if which == 'analyze':
            for a, s in STEPS.items():
                m.true(f'{a} is done if asked for', m.num(v['analysis.' + a]) == steps.count(s))
            m.true('steps', set(steps) <= set(STEPS.values()))
        else:
            m.true('plots are generated once', steps.count('generate_plots') == 1 and set(steps) <= {'generate_plots', 'show'})
            m.true('plots are shown if asked for', m.num(v['plotting.plot.show']) == steps.count('show'))
    return f


def verbosity(m):
    t, v = inlist(m, {'verbosity-debug.verbose': m.boolean('verbose'), 'verbosity-debug.debug': m.boolean('debug')})
    adj = m.entry('log_formatter.log_formatter', 'adjust_root_logger_level')
    d = {'verbose': v['verbosity-debug.verbose'], 'debug': v['verbosity-debug.debug'], 'other': 1}
    lg = logger()
    adj(lg, d)
    want = m.ite(v['verbosity-debug.debug'], 10, m.ite(v['verbosity-debug.verbose'], 20, 30))
    m.eq('level', lg.lv.level, want)
    m.true('the rest is kept', list(d) == ['other'])


def cases(tier):
    kw = dict(stubs=stubs, max_paths=3000, seconds=250)
    l = [Case(f'solve, {w}', runner(w), **kw) for w in ('grid', 'profile', 'polytrope')]
    l += [Case('solver, adiabatic', solver(False), **kw), Case('solver, non-adiabatic', solver(False, adiabatic=False, complex_=True), **kw), Case('solver, polytrope', solver(True), **kw),
          Case('solver, profile', solver(False, profile=True), **kw), Case('solver, profile of a polytrope', solver(True, profile=True), **kw)]
    l += [Case(w, program(w), **kw) for w in ('analyze', 'plot')]
    l += [Case('verbosity', verbosity, **kw)]
    if tier != 'quick':
        l += [Case('solver, adiabatic, complex asked for', solver(False, complex_=True), **kw), Case('solver, non-adiabatic, real', solver(False, adiabatic=False), **kw)]
    return l
