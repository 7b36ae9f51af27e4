"""Grid computations: every triad of a grid gets the results of its own parts."""
import contextlib
import io

from .common import Case, HarnessGap, Obj

LEVEL = 'model_checking'
NOTE = ('Model loading, frequency handling, pre-checks, coupling coefficient, disc integrals, jacobians and stationary solution are stand-ins that return distinct symbolic values per triad, mode and '
        'quantity and check what they are given (other checks decide their values); everything between them is the real code, in both classes that compute grids. Trusts the symbolic interpreter in vlib.')
ASSUMPTIONS = ['coupling coefficients that are not zero']
NEW = ('aesolver.solver.quadratic_grid', 'QuadraticAEGridSolver', 'aesolver.solver.solver_base_classes.quadratic_solver')
OLD = ('aesolver.solver.quadratic_solver', 'QuadraticAESolver', 'aesolver.solver.quadratic_solver')
FREQS = [f + s for s in ('', '_nad') for f in ('inert_mode_freqs', 'corot_mode_freqs', 'inert_mode_omegas', 'corot_mode_omegas', 'dimless_inert_freqs', 'dimless_corot_freqs', 'dimless_inert_omegas',
                                              'dimless_corot_omegas')]
HOUGH = ('_hr_mode_{}', '_theta_der_hr_mode_{}', '_theta_der2_hr_mode_{}')


def stubs(mode):
    import types
    d = types.ModuleType('disc_integrator')
    d.di = None
    return {'disc_integrator': d, 'carr_conv': None}


class Dict(dict):
    def __missing__(self, k):
        raise HarnessGap(f'the code reads {k!r} of a harness dictionary')


class Run:
    def __init__(self, m, which, orders, ls, ms, poly=False, ad=True, stat=True, conj=None, complex_=False, symbolic_checks=True):
        self.m, self.poly, self.ad, self.stat, self.conj, self.ls, self.ms = m, poly, ad, stat, conj, ls, ms
        self.complex = complex_
        self.symbolic_checks = symbolic_checks
        mod, cls, base = which
        K = m.entry(mod, cls)
        B = m.entry(base, 'QuadraticAESolver')
        g, gg = B.compute_coupling_one_triad.__globals__, K._call_grid_computations.__globals__
        self.mode, self.fh, self.cc, self.hyp, self.sol, self.pre = {}, {}, {}, {}, {}, {}
        for d, names in ((g, ('InfoDirHandler', 'ModelLoader', 'FH', 'QCCR', 'PreThreeQuad', 'PreCheckQuadratic', 'hyper_jac', 'hyper_jac_three', 'check_hyper')), (gg, ('ThreeModeStationary',))):
            for n in names:
                if n not in d:
                    m.gap(f'the solver does not use {n}')
                d[n] = getattr(self, n)
        if 'di' not in g:
            m.gap('the solver does not use di')
        g['di'] = Obj(get_integrals=self.get_integrals)
        sel = {'driven_n_low': orders[0][0], 'driven_n_high': orders[0][1], 'damped_n_low1': orders[1][0], 'damped_n_high1': orders[1][1], 'mode_l': ls, 'mode_m': ms}
        if len(orders) > 2:
            sel.update(damped_n_low2=orders[2][0], damped_n_high2=orders[2][1])
        kw = {'base_dir': 'b/', 'rot_pct': 35, 'use_complex': complex_, 'adiabatic': ad, 'polytrope_comp': poly, 'stationary_solving': stat, 'mode_selection_dict': sel, 'terms_cc_conj': conj,
              'ld_function': 'the law', 'numerical_integration_method': 'the rule', 'nr_omp_threads': 3, 'use_parallel': True, 'polytrope_mass': 2., 'polytrope_radius': 3.}
        self.what = None
        with contextlib.redirect_stdout(io.StringIO()):
            if which is OLD:
                self.s = K([], {}, compute_grid=True, **kw)
            else:
                self.s = K([], **kw)
            self.combos = [tuple(x) for x in self.s._mode_info_object.combinations_radial_orders]
            self.s()
        m.true('triads', len(self.combos) > 0)

    # -- values
    def real(self, k, name):
        return self.m.real('t' + ''.join(map(str, k)) + name, lo=1, hi=3)

    def vec(self, k, name, n=3):
        return self.m.arr([self.real(k, f'{name}{i}') for i in range(n)])

    # -- stand-ins
    def InfoDirHandler(self, **k):
        full = {x: 'the ' + x for x in ('gyre_base_dir', 'gyre_output_dir', 'base_dir', 'mesa_output_dir', 'poly_base_dir', 'poly_struct_dir', 'poly_struct_substrings', 'poly_struct_suffix',
                                        'poly_mode_base_dir', 'poly_mode_dir', 'poly_mode_substrings', 'poly_summary_substring')}
        return Obj(parse_info_directories=lambda: None, full_info=full)

    def ModelLoader(self, **k):
        m = self.m
        n = tuple(k['search_n'])
        m.true('modes of the triad are loaded', n in self.combos and list(k['search_l']) == self.ls and list(k['search_m']) == self.ms and k['infer_dir'] is False and k['base_dir'] == 'the base_dir')
        if self.poly:
            kind = 'poly'
            m.true('files of the polytropes', [k.get(x) for x in ('polytrope_model_output_dir', 'polytrope_oscillation_output_dir', 'use_polytrope_data', 'polytrope_model_suffix', 'polytrope_model_substrings',
                                                                  'polytrope_oscillation_substrings')] ==
                   ['the poly_struct_dir', 'the poly_mode_dir', True, 'the poly_struct_suffix', 'the poly_struct_substrings', 'the poly_mode_substrings'])
        else:
            kind = {'b/output_rot_35/': 'ad', 'b/output_nad_rot_35/': 'nad'}.get(k['gyre_output_dir'])
            m.true('folder of the modes', kind is not None)
            m.true('settings of the folders', set(k) == {'gyre_output_dir', 'base_dir', 'mesa_output_dir', 'infer_dir', 'search_l', 'search_m', 'search_n'})
        modes = []
        for i in range(3):
            t = (kind, n, i)
            if t not in self.mode:
                tag = f'{kind}{i}'
                d = Dict(kind=kind, orders=n, i=i, n_pg=n[i], l=self.ls[i], m=self.ms[i], x=m.arr([self.real(n, tag + 'x0'), self.real(n, tag + 'x1')]),
                         c_rad=m.arr([self.real(n, tag + 'c0'), self.real(n, tag + 'c1')]))
                for q in ('lag_L', 'xi_r'):
                    d[q] = m.structured(re=[self.real(n, f'{tag}{q}r{j}') for j in range(2)], im=[self.real(n, f'{tag}{q}i{j}') for j in range(2)])
                self.mode[t] = d
            modes.append(self.mode[t])
        read = {}

        def read_data_files(**kw):
            read.update(kw)
            if self.poly:
                from astropy.constants import M_sun, R_sun
                m.true('the polytrope and its modes are read', bool(kw.get('polytrope_oscillation')) and bool(kw.get('polytrope_model')))
                m.eq('mass of the polytrope', kw['polytrope_mass'], 2. * float(M_sun.cgs.value))
                m.eq('radius of the polytrope', kw['polytrope_radius'], 3. * float(R_sun.cgs.value))
            else:
                m.true('modes are read', bool(kw.get('gyre_detail')))
            m.true('gravity modes are read', list(kw.get('g_modes', [])) == [True] * 3)

        class Loader:
            gyre_details = property(lambda s: modes if read.get('gyre_detail') else None)
            mesa_profile = property(lambda s: ['structure'] if read.get('mesa_profile') else None)
            polytrope_oscillation_models = property(lambda s: modes if read.get('polytrope_oscillation') else None)
            polytrope_model = property(lambda s: ['structure'] if read.get('polytrope_model') else None)
        o = Loader()
        o.read_data_files = read_data_files
        return o

    def triad(self, label, ds, kind):
        """The triad that three modes belong to."""
        ds = list(ds)
        k = ds[0]['orders']
        self.m.true(label, len(ds) == 3 and [(d['kind'], d['orders'], d['i']) for d in ds] == [(kind, k, i) for i in range(3)])
        return k

    @property
    def kind(self):
        return 'poly' if self.poly else 'ad' if self.ad else 'nad'

    def FH(self, *ds, **kw):
        if kw:
            self.m.gap('settings of the frequency handler')
        k = self.triad('modes of the frequency handler', ds, self.kind)
        o = Obj(orders=k, requested_units=f'units {k}', surf_rot_freq=self.real(k, 'rot'), spin_factors=self.vec(k, 'spin'))
        for f in FREQS[:8]:
            setattr(o, f, self.vec(k, f))
        v = {n: self.vec(k, n) for n in ('detunings', 'inert_corot_f', 'dimless_omegas')}
        for n in v:
            setattr(o, 'get_' + n, lambda n=n: v[n])
        o.values = v

        def nonad(*nd):
            self.m.true('non-adiabatic modes of the same triad', self.triad('modes of the non-adiabatic frequencies', nd, 'nad') == k)
            for f in FREQS[8:]:
                setattr(o, f, self.vec(k, f))
            o.quality_factors, o.driving_rates, o.q_factor = self.vec(k, 'Q'), self.vec(k, 'rate'), self.real(k, 'q')
        o.set_mode_nonadiabatic_info = nonad
        self.fh[k] = o
        self.current = k
        return o

    def two_mode(self, k):
        return k[1] == k[2] and self.ls[1] == self.ls[2] and self.ms[1] == self.ms[2]

    def checked(self, k, what):
        def check():
            if k not in self.pre:
                name = 'pre-check of ' + '-'.join(map(str, k))
                self.pre[k] = self.m.boolean(name) if self.symbolic_checks else True
            return self.pre[k]
        self.what = what
        return check

    def PreThreeQuad(self, ds, fh, triads=None, conjugation=None, two_mode_harmonic=False):
        k = self.triad('modes of the pre-check', ds, 'ad')
        self.m.true('pre-check', self.stat and fh is self.fh[k] and triads == [(1, 2, 3)] and conjugation == (None if self.conj is None else [self.conj]) and bool(two_mode_harmonic) == self.two_mode(k))
        return Obj(check=self.checked(k, 'stationary'), l_list=[self.ls], m_list=[self.ms])

    def PreCheckQuadratic(self, ds, triads=None, conjugation=None):
        k = self.triad('modes of the pre-check', ds, 'ad')
        self.m.true('pre-check', not self.stat and triads == [(1, 2, 3)] and conjugation == (None if self.conj is None else [self.conj]))
        return Obj(generic_check=self.checked(k, 'generic'), l_list=[self.ls], m_list=[self.ms])

    def QCCR(self, *ds, additional_profile_information=None, freq_handler=None, **kw):
        m = self.m
        k = self.triad('modes of the coupling', ds, self.kind)
        m.true('structure and frequencies of the coupling', additional_profile_information == 'structure' and freq_handler is self.fh[k])
        m.true('degrees, orders and conjugation of the coupling', list(kw['l_list']) == self.ls and list(kw['m_list']) == self.ms and kw.get('conj_cc') == self.conj and bool(kw['polytropic']) == self.poly)
        m.true('complex eigenfunctions', bool(kw['use_complex']) == (self.complex and not self.ad and not self.poly))
        m.true('integration rule of the coupling', (kw['numerical_integration_method'], kw['use_parallel'], kw['nr_omp_threads']) == ('the rule', True, 3))
        r = self
        done = []

        class Coupler:
            def adiabatic_coupling_rot(self):
                done.append(1)

            def __getattr__(self, n):
                raise HarnessGap(f'the code reads {n} of the coupling coefficient') if not n.startswith('__') else AttributeError(n)
            coupling_coefficient = property(lambda s: r.real(k, 'cc') if done else None)
            normed_coupling_coefficient = property(lambda s: r.real(k, 'ncc') if done else None)
            eta_lee_coupling_coefficient = property(lambda s: r.real(k, 'eta') if done else None)
            normalization_factors = property(lambda s: r.vec(k, 'norm'))
            coupling_terms_quadratic = property(lambda s: r.vec(k, 'terms', 4) if done else None)
        o = Coupler()
        o.orders = k
        o._mu_values = self.vec(k, 'mu', 2)
        for i in range(3):
            for h in HOUGH:
                setattr(o, h.format(i + 1), self.vec(k, h.format(i + 1), 2))
        self.cc[k] = o
        return o

    def get_integrals(self, mu, h, dh, ddh, law, rule, threads, parallel):
        self.m.true('settings of the disc integrals', (law, rule, threads, parallel) == ('the law', 'the rule', 3, True))
        return self.integrals(mu, h, dh, ddh)

    def integrals(self, *fs):
        """Stand-in for the disc integrals: different weighted sums of everything they depend on."""
        w = iter(range(2, 100))
        tk = ek = 0
        for f in fs:
            for x in f:
                i = next(w)
                tk, ek = tk + i * x, ek + i * i * x
        return tk, ek

    def jac(self, g, om, q, ncc, three):
        m = self.m
        k = self.current
        m.eq('rates of the jacobian', g, self.fh[k].driving_rates)
        m.eq('frequencies of the jacobian', om, self.fh[k].corot_mode_omegas)
        m.eq('q factor of the jacobian', q, self.fh[k].q_factor)
        m.eq('coupling of the jacobian', ncc, self.real(k, 'ncc'))
        m.true('jacobian of two modes for harmonics only', three == self.two_mode(k))
        return k

    def hyper_jac(self, *a):
        return self.jac(*a, False)

    def hyper_jac_three(self, *a):
        return self.jac(*a, True)

    def check_hyper(self, k):
        self.hyp[k] = (k[0] + k[1]) % 2 == 0
        return self.hyp[k]

    def ThreeModeStationary(self, precheck_satisfied=None, freq_handler=None, hyperbolic=None, solver_object=None, **kw):
        m = self.m
        if kw:
            m.gap('settings of the stationary solution')
        k = freq_handler.orders
        m.true('pre-check of the stationary solution', bool(precheck_satisfied) == self.pre[k])
        m.true('hyperbolicity of the stationary solution', bool(hyperbolic) == self.hyp.get(k, False))
        s = solver_object
        m.true('frequencies of the stationary solution', freq_handler is self.fh[k])
        m.true('coupling of the stationary solution', s._coupler is self.cc.get(k))
        if self.pre[k]:
            N = self.vec(k, 'norm')
            nad = [self.mode['nad', k, i] for i in range(3)]
            ad = [self.mode['ad', k, i] for i in range(3)]
            for i in range(3):
                lum, xi = s._lag_var_surf_lum[i], s._xir_terms_norm[i]
                for part in ('re', 'im'):
                    P = (lambda z: z.real) if part == 're' else (lambda z: z.imag)
                    m.eq(f'surface luminosity of mode {i + 1} ({part})', P(lum), nad[i]['lag_L'][part][-1] * N[i])
                    m.eq(f'surface displacement of mode {i + 1} ({part})', P(xi), ad[i]['xi_r'][part][-1] * N[i] / ad[i]['x'][-1])
                m.eq(f'disc integrals of mode {i + 1}', m.arr([s._tk_disc_integrals[i], s._ek_disc_integrals[i]]), m.arr(list(self.integrals(self.vec(k, 'mu', 2), *[self.vec(k, h.format(i + 1), 2) for h in HOUGH]))))
        self.sol[k] = Obj(orders=k)
        return lambda: self.sol[k]


def judge(r):
    m, s = r.m, r.s
    n = len(r.combos)
    m.true('a result for each triad', all(len(x) == n for x in (s.coupling_info, s.mode_freq_info, s.stat_sol_info, s.coupling_statistics)))
    for j, k in enumerate(r.combos):
        t = f'triad {"-".join(map(str, k))}: '
        f = r.fh[k]
        done = r.poly or not r.stat or r.pre[k]
        m.true(t + 'the coupling is computed exactly when the checks allow it', (k in r.cc) == done)
        got = s.coupling_info[j]
        m.true(t + 'length of the coupling information', len(got) == 9)
        zero3, zero4 = m.np.zeros(3), m.np.zeros(4)
        want = [r.real(k, x) if done else m.const(0) for x in ('cc', 'ncc', 'eta')] + [f.values['inert_corot_f'], f.values['dimless_omegas'], r.vec(k, 'norm') if done else zero3, r.ad,
                                                                                      f.values['detunings'], r.vec(k, 'terms', 4) if done else zero4]
        for name, a, b in zip(('coupling coefficient', 'normalised coupling coefficient', 'eta', 'frequencies', 'dimensionless frequencies', 'normalisation', 'adiabatic', 'detunings', 'terms'), got, want):
            if name == 'adiabatic':
                m.true(t + name, bool(a) == b)
            else:
                m.eq(t + name, a, b)
        names = FREQS[:8] + ['spin_factors'] + (['surf_rot_freq', 'requested_units'] if r.poly else ['quality_factors', 'surf_rot_freq', 'requested_units'] + FREQS[8:])
        got = s.mode_freq_info[j]
        m.true(t + 'length of the frequency information', len(got) == len(names))
        for name, a in zip(names, got):
            if name == 'requested_units':
                m.true(t + name, a == f.requested_units)
            else:
                m.eq(t + name, a, getattr(f, name))
        if r.poly:
            m.true(t + 'no stationary solution', s.stat_sol_info[j] is None)
        else:
            m.true(t + 'stationary solution', s.stat_sol_info[j] is r.sol[k])
            m.true(t + 'kind of the pre-check', r.what == ('stationary' if r.stat else 'generic'))
        m.true(t + 'hyperbolicity', bool(s._hyperbolicity_info[j]) == (True if r.poly else r.hyp.get(k, False)) and (r.poly or (k in r.hyp) == done))
        st = s.coupling_statistics[j]
        m.eq(t + 'average radial order', st[0] * 3, m.const(sum(abs(x) for x in k)))
        m.eq(t + 'Wu difference', st[1], m.const(k[0] - abs(k[1] - k[2])))


def grid(which, orders, ls, ms, **kw):
    def f(m):
        judge(Run(m, which, orders, ls, ms, **kw))
    return f


def cases(tier):
    cs = []
    for w, name in ((NEW, 'grid'), (OLD, 'older class')):
        def add(label, *a, **k):
            cs.append(Case(f'{name}, {label}', grid(w, *a, **k), stubs, max_paths=64, seconds=120, bounds='2 to 4 triads, every pattern of failing checks'))
        add('harmonics', [(4, 5), (6, 6), (6, 6)], [2, 1, 1], [2, 1, 1])
        add('non-adiabatic, complex, conjugated', [(4, 5), (7, 7), (6, 6)], [2, 1, 1], [2, 1, -1], ad=False, complex_=True, conj=(True, False, False))
        add('harmonic and other', [(4, 4), (6, 6), (6, 7)], [2, 1, 1], [2, 1, 1])
        add('different azimuthal orders', [(4, 4), (6, 6), (6, 6)], [2, 2, 2], [2, 1, 0])
        add('without stationary solutions', [(4, 5), (6, 7)], [2, 1, 1], [2, 1, 1], stat=False, conj=(True, False, False))
        add('without stationary solutions, non-adiabatic', [(4, 5), (6, 6), (7, 7)], [2, 1, 2], [2, 1, 1], stat=False, ad=False)
        add('polytrope', [(4, 5), (6, 7)], [2, 1, 1], [2, 1, 1], poly=True, complex_=True)
        if tier == 'thorough':
            add('three parents', [(4, 6), (6, 7)], [2, 1, 1], [2, 1, 1], symbolic_checks=False)
            add('five triads', [(4, 4), (6, 7), (8, 9)], [2, 1, 2], [2, 1, 1])
    return cs
