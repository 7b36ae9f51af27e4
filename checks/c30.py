"""Observables derived from the saved solutions."""
import contextlib
import io
from fractions import Fraction

from .common import Case
from .fakeh5 import make

LEVEL = 'model_checking'
NOTE = ('The files are replaced by an in-memory stand-in with the paths under which the solver saves; masks of the triads are covered by other checks. '
        'Trusts the symbolic interpreter in vlib; rounding is outside the claims.')
ASSUMPTIONS = ['frequencies and driving rates of the saved triads do not make a denominator vanish']
CLS = {'analysis': ('ae_analyzer.quadratic_stationary_analyzer', 'QuadraticAEStationaryAnalyzer'), 'plots': ('aeplotter.quadratic_plotter', 'QuadraticAEPlotter')}
PATHS = {'surfs': 'coupling/stationary_three_mode/surface_flux_variations', 'checks': 'checks/pre_checks', 'rates': 'linear_driving/driving_rates',
         'amps': 'coupling/stationary_three_mode/equilibrium_theoretical_amplitudes', 'thresh': 'coupling/stationary_three_mode/critical_parent_amplitudes',
         'n': 'quantum_numbers/n', 'com': 'mode_frequency_info/corot_mode_omegas', 'cfr': 'mode_frequency_info/corot_mode_freqs',
         'iom': 'mode_frequency_info/inert_mode_omegas', 'ifr': 'mode_frequency_info/inert_mode_freqs', 'dim': 'mode_frequency_info/inert_dimless_mode_omegas',
         'kappa': 'coupling/generic/|kappa|', 'kappan': 'coupling/generic/|kappa_norm|', 'phase': 'coupling/stationary_three_mode/stationary_relative_luminosity_phases'}
CPD, MUHZ = 86400, 10**6


def stubs(mode):
    return {'h5py': make()}


def nonzero(m, *xs):
    for x in xs:
        m.assume(m.Or(x > Fraction(1, 1000), x < -Fraction(1, 1000)))


def table(m, tag, n, lo=-3, hi=3, cols=3):
    return [[m.real(f'{tag}{i}{k}', lo=lo, hi=hi) for k in range(cols)] for i in range(n)]


def mat(m, t):
    return m.arr([x for r in t for x in r], (len(t), len(t[0])))


def write(m, h5, name, d):
    f = h5.File(name, 'w')
    for k, v in d.items():
        f.create_dataset(PATHS[k], data=v)
    for k in 'klm':
        f.require_group('quantum_numbers').attrs[k] = m.np.array([2, 1, 1])


def triads(m, tag, n, kinds=None, free=False):
    """Saved data of n triads."""
    t = {k: table(m, tag + k, n) for k in ('com', 'cfr', 'iom', 'ifr')}
    for i in range(0 if not free else 1, n):
        c = [m.real(f'{tag}c{i}{k}', lo=Fraction(1, 100), hi=1) for k in range(3)]
        t['com'][i] = [c[0] + c[1] + c[2], c[1] + c[2], c[2]]
    t['dim'] = table(m, tag + 'dim', n, 1, 2)
    # driving rates as fractions of their sum
    t['rates'], t['u'] = [], []
    for i in range(n):
        g, u, v = m.real(f'{tag}g{i}', lo=-2, hi=-Fraction(1, 10)), m.real(f'{tag}u{i}', lo=Fraction(6, 10), hi=3), m.real(f'{tag}v{i}', lo=Fraction(6, 10), hi=3)
        t['u'].append([1 - u - v, u, v])
        t['rates'].append([g * x for x in t['u'][-1]])
        nonzero(m, *t['com'][i], *t['iom'][i])
    t['surfs'] = table(m, tag + 's', n, Fraction(1, 100), 1)
    t['amps'] = table(m, tag + 'a', n, Fraction(1, 100), 1)
    t['thresh'] = [m.real(f'{tag}t{i}', lo=Fraction(1, 100), hi=1) for i in range(n)]
    t['kappa'] = [m.real(f'{tag}k{i}', lo=-3, hi=3) for i in range(n)]
    t['kappan'] = [m.real(f'{tag}kn{i}', lo=-3, hi=3) for i in range(n)]
    t['phase'] = [m.real(f'{tag}p{i}', lo=-3, hi=3) for i in range(n)]
    t['n'] = [[10 * (i + 1) + k if k == 0 or i != 1 else 7 for k in range(3)] for i in range(n)]
    kinds = kinds or ['parametric'] * n
    for i, k in enumerate(kinds):
        if k == 'dead':
            t['surfs'][i], t['amps'][i] = [0] * 3, [0] * 3
        if k == 'nothing':
            t['surfs'][i], t['amps'][i], t['thresh'][i] = [0] * 3, [0] * 3, float('nan')
        if k == 'no amplitude':
            t['amps'][i] = [float('nan')] * 3
    t['checks'] = [[k not in ('direct', 'nothing'), k == 'direct', False, False, True, True] for k in kinds]
    return t


def easy(m, t):
    """Frequencies without a case distinction in the mirroring of the lowest one."""
    pi = Fraction(repr(3.141592653589793)) if m.sym else 3.141592653589793
    for i, x in enumerate(t['ifr']):
        d = t['com'][i][0] - t['com'][i][1] - t['com'][i][2]
        for k in range(3):
            x[k] = (Fraction(3 + k, CPD) if m.sym else (3 + k) / CPD) - (-1 if k == 0 else 1) * d * t['u'][i][k] / (2 * pi)


def arrays(m, t):
    d = {}
    for k, v in t.items():
        if k == 'u':
            continue
        if k == 'checks':
            d[k] = m.np.array(v, dtype=bool)
        elif k == 'n':
            d[k] = m.np.array(v)
        elif isinstance(v[0], list):
            d[k] = mat(m, [[x if m.sym else float(x) for x in r] for r in v])
        else:
            d[k] = m.arr(v)
    return d


NAMES = {'nr_files': 1, 'base_dir': 'b', 'output_dir': 'o', 'use_standard_format': False, 'base_file_names': ['f'], 'specification_names': [''],
         'file_suffix': ['h5'], 'meridional_degrees': [(0, 0, 0)], 'azimuthal_orders': [(2, 1, 1)]}


def names(nfiles):
    d = {k: v * nfiles if isinstance(v, list) else v for k, v in NAMES.items()}
    d['nr_files'] = nfiles
    d['base_file_names'] = [f'f{i}' for i in range(nfiles)]
    return d, [f'b/o/f{i}_k_0_0_0_m_2_1_1.h5' for i in range(nfiles)]


def build(m, which, load):
    mod, c = CLS[which]
    K = m.entry(mod, c)
    with contextlib.redirect_stdout(io.StringIO()):
        if which == 'analysis':
            return K(load, {}, {})
        import tempfile
        with tempfile.TemporaryDirectory() as tmp:
            return K(load, {'plot_overview': True, 'plot_resonance_sharpness': True, 'plot_coefficient_profile': False, 'show_plots': False},
                     {'save_base_dir': tmp, 'save_dir': 'x', 'extra_specifier_save': '', 'save_formats': [], 'sharpness_save_name': '', 'sharpness_subdir': '',
                      'overview_save_name': '', 'overview_subdir': ''})


def datas(m, o):
    if not hasattr(o, '_list_data_dict'):
        m.gap('the derived data are stored elsewhere')
    return o._list_data_dict


def derived(m, dd, t, kinds, which):
    """Compare the derived quantities with their definitions."""
    n = len(kinds)
    R = range(n)
    eq = lambda k, v: m.eq(k, dd[k], v) if k in dd else m.true(k + ' is derived', False)
    flat = lambda f: m.arr([f(i, k) for i in R for k in range(3)], (n, 3))
    dau = lambda f: m.arr([f(i, k) for i in R for k in (1, 2)], (n, 2))
    vec = lambda f: m.arr([f(i) for i in R])
    for s, tab in (('corot_mode_omegas', 'com'), ('corot_mode_freqs', 'cfr'), ('inert_mode_omegas', 'iom'), ('inert_mode_freqs', 'ifr')):
        x = t[tab]
        for u, c in (('muHz', MUHZ), ('cpd', CPD)):
            eq(f'{s}_p_{u}', vec(lambda i: x[i][0] * c))
            eq(f'{s}_d_{u}', dau(lambda i, k: x[i][k] * c))
    det = [t['com'][i][0] - t['com'][i][1] - t['com'][i][2] for i in R]
    eq('linear_omega_diff', vec(lambda i: det[i]))
    eq('linear_omega_diff_muHz', vec(lambda i: det[i] * MUHZ))
    eq('linear_omega_diff_cpd', vec(lambda i: det[i] * CPD))
    q = dd['linear_omega_diff_to_min_omega']
    for i in R:
        low = m.minimum(m.minimum(m.absv(t['com'][i][0]), m.absv(t['com'][i][1])), m.absv(t['com'][i][2]))
        m.eq('detuning in terms of the lowest frequency', q[i] * low, det[i])
    rot = [t['iom'][i][1] - t['com'][i][1] for i in R]
    eq('rotation_freqs', vec(lambda i: rot[i]))
    eq('rotation_freqs_cpd', vec(lambda i: rot[i] * CPD))
    eq('rotation_freqs_muHz', vec(lambda i: rot[i] * MUHZ))
    eq('spin_parameters', flat(lambda i, k: 2 * rot[i] / t['com'][i][k]))
    g = t['rates']
    eq('p_driv_rates_cpd', vec(lambda i: g[i][0] * CPD))
    eq('p_driv_rates_muHz', vec(lambda i: g[i][0] * MUHZ))
    eq('d_damp_rates', dau(lambda i, k: g[i][k]))
    eq('d_damp_rates_cpd', dau(lambda i, k: g[i][k] * CPD))
    eq('d_damp_rates_muHz', dau(lambda i, k: g[i][k] * MUHZ))
    nan = float('nan')
    ok = [k == 'parametric' for k in kinds]
    s = t['surfs']
    eq('thresh_surf_ppm', vec(lambda i: t['thresh'][i] * s[i][0] / t['amps'][i][0] * MUHZ if ok[i] else nan))
    ratio = lambda a, b, i: (a / b if kinds[i] in ('parametric', 'no amplitude') else b / a if kinds[i] == 'direct' else nan)
    m.eq('amplitude ratio', dd['surf_ratio_daughter_parent_OG_SHAPE'], dau(lambda i, k: ratio(s[i][k], s[i][0], i)))
    m.eq('amplitude ratio of the product', dd['surf_ratio_vb_21'], vec(lambda i: s[i][0] / (s[i][1] * s[i][2]) if kinds[i] in ('parametric', 'no amplitude', 'direct') else nan))
    eq('abs_kappa', vec(lambda i: m.absv(t['kappa'][i])))
    eq('abs_kappa_norm', vec(lambda i: m.absv(t['kappan'][i])))
    tot, u = [sum(g[i]) for i in R], t['u']
    sh = [[-det[i] * u[i][0], det[i] * u[i][1], det[i] * u[i][2]] for i in R]
    for u, c in (('', 1), ('_muHz', MUHZ), ('_cpd', CPD)):
        eq('freq_shift_p' + u, vec(lambda i: sh[i][0] * c))
        eq('freq_shift_d' + u, dau(lambda i, k: sh[i][k] * c))
    for i in R:
        # the shifts restore the exact resonance
        m.eq('locking', det[i] + dd['freq_shift_p'][i], dd['freq_shift_d'][i][0] + dd['freq_shift_d'][i][1])
    eq('freq_shift_p_to_omega', vec(lambda i: sh[i][0] / t['iom'][i][0]))
    eq('freq_shift_d_to_omega', dau(lambda i, k: sh[i][k] / t['iom'][i][k]))
    if which == 'analysis':
        m.eq('relative shift', dd['nonlinear frequency shift/omega inert'], flat(lambda i, k: sh[i][k] / t['iom'][i][k]))
        m.eq('nonlinear frequency', dd['nonlinear omegas (c/d)'], flat(lambda i, k: (t['iom'][i][k] + sh[i][k]) * CPD))
        m.eq('nonlinear phase', dd['nonlinear phase'], vec(lambda i: t['phase'][i]))
        eq('gamma_sum_cpd', vec(lambda i: tot[i] * CPD))
        eq('gamma_sum', vec(lambda i: tot[i] * CPD))
        eq('p_quality_factors', vec(lambda i: t['com'][i][0] / g[i][0]))
        eq('q', vec(lambda i: det[i] / tot[i]))
        eq('q1', vec(lambda i: det[i] / g[i][0]))
        eq('q3', vec(lambda i: det[i] / g[i][2]))
        eq('theta2', vec(lambda i: -g[i][1] / g[i][0]))
        eq('theta3', vec(lambda i: -g[i][2] / g[i][0]))
        eq('theta23', vec(lambda i: g[i][1] / g[i][2]))
    else:
        eq('resonance_sharpness_factor', vec(lambda i: det[i] / (g[i][1] + g[i][2])))
        h = dd.get('harmonic_mask')
        m.true('equal daughters are marked', h is None or [bool(x) for x in h] == [r[1] == r[2] for r in t['n']])


KINDS = ['parametric', 'direct', 'dead', 'nothing', 'no amplitude']


def quantities(which, n):
    def f(m):
        kinds = [m.pick(f'kind{i}', KINDS if i == 0 else ['parametric', 'direct'] if i == 1 else ['parametric']) for i in range(n)]
        t = triads(m, 'x', n, kinds, free=True)
        if which == 'plots':
            easy(m, t)
        load, files = names(1)
        write(m, m.entry('h5py'), files[0], arrays(m, t))
        o = bare(m, which, load)
        l = datas(m, o)
        m.true('one object', len(l) == 1)
        derived(m, l[0], t, kinds, which)
    return f


def bare(m, which, load):
    """The object with masks and figures left out."""
    m.fork_minmax() if which == 'plots' else None
    m.cancel_branches()
    mod, c = CLS[which]
    K = m.entry(mod, c)
    ns = m.entry(mod)
    skip = lambda *a, **k: [m.np.zeros(1, dtype=bool)] * (5 if which == 'analysis' else 3)
    if which == 'analysis':
        ns.get_mask_information_triad_counts = skip
    else:
        ns.theoretical_plotting_masks_overview = skip
        ns.isolated_non_isolated_stable_valid_masking = lambda data_dict, **k: [m.np.zeros(len(data_dict['rad_ord']), dtype=bool)] * 2
    return build(m, which, load)


def several(which):
    """The triads of several files are one list, in order."""
    def f(m):
        load, files = names(2)
        h5 = m.entry('h5py')
        a, b = triads(m, 'x', 1), triads(m, 'y', 2)
        if which == 'plots':
            easy(m, a), easy(m, b)
        for nm, t in zip(files, (a, b)):
            write(m, h5, nm, arrays(m, t))
        l = datas(m, bare(m, which, load))
        m.true('one object', len(l) == 1)
        t = {k: a[k] + b[k] for k in a}
        derived(m, l[0], t, ['parametric'] * 3, which)
    return f


def models(which):
    """Lists of files: one object for every list."""
    def f(m):
        load, files = names(1)
        load['nr_files'] = 2
        alone = m.pick('second', ['list', 'name'])
        one = (lambda x: x) if alone == 'name' else (lambda x: [x])
        load['base_file_names'] = [['f0', 'f1'], one('f2')]
        load['specification_names'] = [['', 'z'], one('')]
        load['file_suffix'] = [['h5', 'h5'], one('h5')]
        load['meridional_degrees'] = load['meridional_degrees'] * 2
        load['azimuthal_orders'] = load['azimuthal_orders'] * 2
        h5 = m.entry('h5py')
        ts = [triads(m, x, 1) for x in 'xyz']
        if which == 'plots':
            for t in ts:
                easy(m, t)
        for nm, t in zip(['f0', 'f1_z', 'f2'], ts):
            write(m, h5, f'b/o/{nm}_k_0_0_0_m_2_1_1.h5', arrays(m, t))
        l = datas(m, bare(m, which, load))
        m.true('two objects', len(l) == 2)
        derived(m, l[0], {k: ts[0][k] + ts[1][k] for k in ts[0]}, ['parametric'] * 2, which)
        derived(m, l[1], ts[2], ['parametric'], which)
    return f


def lowest(n):
    """The lowest nonlinear frequency, mirrored at the Nyquist frequency."""
    def f(m):
        m.fork_minmax()
        ny = Fraction('283.0') * CPD / MUHZ
        pi = Fraction(repr(3.141592653589793))
        kinds = ['parametric'] * n
        t = triads(m, 'x', n, kinds)
        if m.sym:
            fr = ny
        else:
            fr, pi = float(ny), float(pi)
        # nonlinear frequencies in cycles per day, one of them within four times the Nyquist frequency below zero
        low = []
        eps = Fraction(1, 10**6)
        for i in range(n):
            u, det = t['u'][i], t['com'][i][0] - t['com'][i][1] - t['com'][i][2]
            sh = [-det * u[0], det * u[1], det * u[2]]
            z = [m.real(f'z{i}{k}', lo=-97, hi=97) for k in range(3)]
            for k in range(3):
                t['ifr'][i][k] = z[k] / CPD - sh[k] / (2 * pi)
            for a in range(3):
                for b in range(a):
                    m.assume(m.Or(z[a] > z[b] + eps, z[a] < z[b] - eps))
            low.append(m.minimum(m.minimum(z[0], z[1]), z[2]))
            for k in range(5):
                m.assume(m.Or(low[i] > -k * fr + eps, low[i] < -k * fr - eps))
            m.assume(low[i] > -4 * fr)
        load, files = names(1)
        write(m, m.entry('h5py'), files[0], arrays(m, t))
        l = datas(m, bare(m, 'plots', load))
        r = l[0]['min_inertial_freq_stack']
        for i in range(n):
            x = low[i]
            want = m.ite(x >= 0, x, m.ite(x > -fr, -x, m.ite(x > -2 * fr, 2 * fr + x, m.ite(x > -3 * fr, -x - 2 * fr, 4 * fr + x))))
            for k in range(2):
                m.eq('lowest frequency', r[i][k], want)
    return f


def cases(tier):
    out = []
    for w in CLS:
        out += [Case(f'{w}: quantities of {n} triads', quantities(w, n), stubs=stubs) for n in ((2,) if tier == 'quick' else (1, 2, 3))]
        out += [Case(f'{w}: several files', several(w), stubs=stubs), Case(f'{w}: several models', models(w), stubs=stubs)]
    out.append(Case('plots: lowest frequency', lowest(1), stubs=stubs))
    return out
