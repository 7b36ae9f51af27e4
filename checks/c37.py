"""C37: what the loaded models hold."""
import contextlib
import io
import pathlib
import tempfile
import types
from fractions import Fraction

import numpy as np

from .common import Case, HarnessGap
from .fakeh5 import make

LEVEL = 'model_checking'
NOTE = 'Which file is read is decided by C31, the structure of polytropes by C15. Two points of the radial grid, two modes.'
ASSUMPTIONS = ['HDF5 files in memory', 'columns of a MESA profile are found by pandas in the text of the file, values are symbols']
LM = 'aesolver.model_handling.load_models'

# GYRE detail files: complex profiles, real profiles, complex numbers, numbers
CPROF = ('xi_r', 'xi_h', 'eul_phi', 'deul_phi', 'eul_P', 'eul_rho', 'eul_T', 'lag_P', 'lag_rho', 'lag_T', 'lag_L', 'lambda', 'y_1', 'y_2', 'y_3', 'y_4', 'y_5', 'y_6')
PROF = ('x', 'P', 'rho', 'T', 'M_r', 'V_2', 'As', 'U', 'c_1', 'Gamma_1', 'nabla', 'nabla_ad', 'Omega_rot', 'c_rad', 'c_lum', 'c_thn', 'c_thk', 'kap_rho', 'kap_T', 'eps_rho', 'eps_T', 'dE_dx', 'dW_dx')
CNUM = ('omega', 'freq', 'l_i', 'xi_r_ref', 'xi_h_ref', 'lag_L_ref')
NUM = ('M_star', 'R_star', 'L_star', 'Delta_p', 'Delta_g', 'E', 'E_norm', 'E_p', 'E_g', 'H', 'W', 'eta')
IDS = ('l', 'm', 'n_p', 'n_g', 'n_pg')
SI = {'M_star': Fraction(1, 1000), 'R_star': Fraction(1, 100), 'L_star': Fraction(1, 10**7), 'M_r': Fraction(1, 1000), 'P': Fraction(1, 10), 'rho': 1000}
POLY_C = ('xi_r', 'xi_h', 'eul_phi', 'deul_phi', 'y_1', 'y_2', 'y_3', 'y_4')
POLY_P = ('x', 'Gamma_1', 'Omega_rot')


def stubs(mode):
    d = {'h5py': make(), 'carr_conv': None}
    import pandas
    if mode != 'sym':
        d['pandas'] = pandas
    else:
        pd = types.ModuleType('pandas')

        def read_fwf(path, **k):
            kinds = k.pop('dtype', None) or {}
            if not isinstance(kinds, dict):
                raise HarnessGap('kind of all columns')
            return Table(pandas.read_fwf(path, dtype=str, **k), {c for c, t in kinds.items() if t in (str, object, 'str')})
        pd.read_fwf = read_fwf
        pd.DataFrame, pd.Series = pandas.DataFrame, pandas.Series
        d['pandas'] = pd
    return d


TOK = {}


def numbers(col):
    """The entries of a column: numbers if all are numbers, otherwise texts."""
    col = list(col)
    try:
        return [TOK[s] if s in TOK else float(s) for s in col]
    except ValueError:
        return [str(s) for s in col]


class Table:
    """A table of strings whose cells are replaced by their symbols."""

    def __init__(self, df, texts):
        self.df = df
        cells = lambda k: [str(x) for x in df[k]] if k in texts else numbers(df[k])    # noqa: E731
        self.cells = cells
        self.loc, self.iloc = types.SimpleNamespace(), types.SimpleNamespace()
        me = self

        class Loc:
            def __getitem__(self, k):
                rows, col = k
                if rows != slice(None):
                    raise HarnessGap('rows of a table')
                return Column(cells(col))

        class Iloc:
            def __getitem__(self, i):
                return Row({k: cells(k)[i] for k in me.df.columns})
        self.loc, self.iloc = Loc(), Iloc()

    def __getitem__(self, k):
        return Column(self.cells(k))

    def __getattr__(self, k):
        raise HarnessGap(f'table: {k}')


class Row(dict):
    at = loc = property(lambda s: s)


class Column:
    def __init__(self, v):
        self.v = v

    def to_numpy(self):
        from vlib import npshim
        return npshim.arr(list(self.v))
    values = property(to_numpy)


def void(m, **f):
    if m.sym:
        from vlib.npshim import void as V
        return V(f)
    a = np.zeros((), dtype=[(k, float) for k in f])
    for k, v in f.items():
        a[k] = v
    return a[()]


def put(m, path, attrs, sets):
    h5 = m.entry('aesolver.model_handling.read_models', 'ModelReader').data_file_reader.__globals__['h5']
    with h5.File(path, 'w') as f:
        for k, v in attrs.items():
            f.attrs[k] = v
        for k, v in sets.items():
            f.create_dataset(k, data=v)
    pathlib.Path(path).touch()


class Mode:
    """The contents of a file of a mode."""

    def __init__(self, m, t, cprof, prof, cnum, num, absent):
        R = lambda k, **o: m.real(f'{t}{k}', **o)     # noqa: E731
        pos = lambda k: dict(lo=Fraction(1, 2), hi=2) if k in ('M_star', 'R_star', 'L_star') else {}      # noqa: E731
        self.c = {k: [(R(f'{k}r{i}'), R(f'{k}i{i}')) for i in range(2)] for k in cprof if k not in absent}
        self.p = {k: [R(f'{k}{i}') for i in range(2)] for k in prof if k not in absent}
        self.cn = {k: (R(k + 'r'), R(k + 'i')) for k in cnum if k not in absent}
        self.n = {k: R(k, **pos(k)) for k in num if k not in absent}
        self.ids = {}

    def sets(self, m):
        d = {k: m.structured(re=[a for a, b in v], im=[b for a, b in v]) for k, v in self.c.items()}
        d.update({k: m.arr(list(v)) for k, v in self.p.items()})
        return d

    def attrs(self, m):
        return {**{k: void(m, re=a, im=b) for k, (a, b) in self.cn.items()}, **self.n, **self.ids, 'freq_units': b'HZ', 'freq_frame': b'INERTIAL', 'no_quantity': 1.5}


def parts(v, n):
    """Real and imaginary parts of a loaded quantity (raw, complex or real)."""
    if hasattr(v, 'fields') or (isinstance(v, (np.ndarray, np.void)) and v.dtype.names):
        re, im = v['re'], v['im']
    elif hasattr(v, 'real'):
        re, im = v.real, v.imag
    else:
        re, im = v, [0] * n
    return list(np.reshape(np.asarray(re, dtype=object), -1)), list(np.reshape(np.asarray(im, dtype=object), -1))


def same(m, label, got, want):
    """A complex quantity against (re, im) pairs."""
    re, im = parts(got, len(want))
    m.true(label + ': size', len(re) == len(want) and len(im) == len(want))
    if len(re) == len(want):
        m.eq(label + ': real part', re, [a for a, b in want])
        m.eq(label + ': imaginary part', im, [b for a, b in want])


def real(m, label, got, want):
    m.eq(label, list(np.reshape(np.asarray(got, dtype=object), -1)), list(want))


def has(m, d, k):
    m.true(f'{k} is loaded', k in d)
    return k in d


def quiet():
    return contextlib.redirect_stdout(io.StringIO())


def gravity(m, g, si):
    v = float(g)
    m.true('constant of gravitation', abs(v / (6.6743e-11 if si else 6.6743e-8) - 1) < 1e-3)


def gyre(m):
    si = m.pick('unit system', ['CGS', 'cgs', 'SI', 'si'])
    is_si = si.upper() == 'SI'
    absent = m.pick('absent', [(), ('eul_T', 'lag_T', 'T', 'lag_L', 'L_star', 'lag_L_ref'), ('xi_r_ref', 'y_6', 'eul_P', 'lag_P', 'eta', 'M_r', 'c_rad')])
    suffix = m.pick('suffix', ['h5', 'hdf5', 'HDF5'])
    as_attr = m.pick('Gamma_1 is a number', [False, True])
    ord_ = [(7, 0), (12, 1)]
    modes = []
    with tempfile.TemporaryDirectory() as tmp:
        for j, (n, az) in enumerate(ord_):
            o = Mode(m, f'q{j}', CPROF, PROF, CNUM, NUM, absent)
            o.ids = dict(l=2, m=az, n_p=0, n_g=n, n_pg=-n)
            st, at = o.sets(m), o.attrs(m)
            if as_attr:
                o.p['Gamma_1'] = o.p['Gamma_1'][:1]
                st.pop('Gamma_1')
                at['Gamma_1'] = o.p['Gamma_1'][0]
            put(m, f'{tmp}/detail.g_mode.l2.m+{az}.n-{n}.{suffix}' if False else f'{tmp}/det_g_mode_l2m+{az}n+{n}.{suffix}', at, st)
            modes.append(o)
        K = m.entry(LM, 'ModelLoader')
        with quiet():
            ld = K(base_dir='', gyre_output_dir=tmp, infer_dir=False, search_l=[2, 2], search_m=[a for _, a in ord_], search_n=[n for n, _ in ord_], gyre_detail_substring='det', unit_system=si)
            ld.read_data_files(gyre_detail=True, g_modes=[True, True])
        r = ld.gyre_details
    m.true('modes', len(r) == 2)
    for j, (d, o) in enumerate(zip(r, modes)):
        u = lambda k: (m.const(SI[k]) if is_si and k in SI else 1)      # noqa: E731
        t = f'mode {j + 1}: '
        for k, v in o.ids.items():
            if has(m, d, k):
                m.true(t + k, int(d[k]) == v)
        m.true(t + 'units of the frequencies', d.get('freq_units') == b'HZ' and d.get('freq_frame') == b'INERTIAL')
        gravity(m, d['G'], is_si)
        G = m.const(Fraction(repr(float(d['G']))))
        for k, v in o.c.items():
            if has(m, d, k):
                same(m, t + k, d[k], v)
        for k, v in o.cn.items():
            if has(m, d, k):
                same(m, t + k, d[k], [v])
        for k, v in o.p.items():
            if has(m, d, k):
                real(m, t + k, d[k], [u(k) * x for x in v])
        for k, v in o.n.items():
            if has(m, d, k):
                real(m, t + k, d[k], [u(k) * v])
        m.true(t + 'nothing that the file does not have', not [k for k in absent if k in d])
        M, R = u('M_star') * o.n['M_star'], u('R_star') * o.n['R_star']
        prof = lambda k: [u(k) * x for x in o.p[k]]     # noqa: E731
        fac = {'xi_r': R, 'xi_h': R, 'eul_phi': G * M / R, 'deul_phi': G * M / R**2}
        for k in ('eul_P', 'lag_P', 'eul_rho', 'lag_rho', 'eul_T', 'lag_T'):
            if k in o.c:
                fac[k] = prof(k.split('_')[1])
        if 'lag_L' in o.c:
            fac['lag_L'] = u('L_star') * o.n['L_star']
        for k, f in fac.items():
            if has(m, d, k + '_dim'):
                f = f if isinstance(f, list) else [f, f]
                same(m, t + k + ' with its dimension', d[k + '_dim'], [(a * x, b * x) for (a, b), x in zip(o.c[k], f)])
        if has(m, d, 'Omega_rot_dim'):
            w = d['Omega_rot_dim']
            sq = m.sqrt(G * M / R**3)
            real(m, t + 'rotation with its dimension', w, [x * sq for x in o.p['Omega_rot']])
        for k, f in (('E', M * R**2), ('E_p', M * R**2), ('E_g', M * R**2), ('H', G * M**2 / R), ('W', G * M**2 / R)):
            if has(m, d, k + '_dim'):
                real(m, t + k + ' with its dimension', d[k + '_dim'], [f * o.n[k]])


def polytrope_modes(m):
    names = [('xi_h', 'y_4'), ()]
    absent = m.pick('absent', names)
    ord_ = [(7, 0), (12, -1)]
    M, R = m.real('M', lo=1, hi=2), m.real('R', lo=1, hi=2)
    modes = []
    with tempfile.TemporaryDirectory() as tmp:
        for j, (n, az) in enumerate(ord_):
            o = Mode(m, f'q{j}', POLY_C + ('lambda',), POLY_P, ('omega', 'freq', 'l_i'), (), absent)
            o.ids = dict(l=2, m=az, n_p=0, n_g=n, n_pg=-n)
            put(m, f'{tmp}/det_g_mode_l2m{az:+d}n+{n}.h5', o.attrs(m), o.sets(m))
            modes.append(o)
        K = m.entry(LM, 'ModelLoader')
        with quiet():
            ld = K(base_dir='', polytrope_oscillation_output_dir=tmp, infer_dir=False, search_l=[2, 2], search_m=[a for _, a in ord_], search_n=[n for n, _ in ord_],
                   polytrope_oscillation_substrings='det', use_polytrope_data=True)
            ld.read_data_files(polytrope_oscillation=True, g_modes=[True, True], polytrope_mass=M, polytrope_radius=R)
        r = ld.polytrope_oscillation_models
    m.true('modes', len(r) == 2)
    for j, (d, o) in enumerate(zip(r, modes)):
        t = f'mode {j + 1}: '
        gravity(m, d['G'], False)
        m.eq(t + 'mass', d['M_star'], M)
        m.eq(t + 'radius', d['R_star'], R)
        for k, v in o.ids.items():
            if has(m, d, k):
                m.true(t + k, int(d[k]) == v)
        for k, v in o.c.items():
            if has(m, d, k):
                same(m, t + k, d[k], v)
        for k, v in o.cn.items():
            if has(m, d, k):
                same(m, t + k, d[k], [v])
        for k, v in o.p.items():
            if has(m, d, k):
                real(m, t + k, d[k], v)
        m.true(t + 'nothing that the file does not have', not [k for k in absent if k in d])


def polytrope(m):
    M, R = m.real('M', lo=1, hi=2), m.real('R', lo=1, hi=2)
    ns = {k: m.real(k) for k in ('n_poly', 'Gamma_1')}
    ps = {k: [m.real(f'{k}{i}') for i in range(3)] for k in ('z', 'theta', 'dtheta')}
    extra = {'n_r': 1, 'z_b': m.arr([]), 'Delta_b': m.arr([])}
    made = {'gravity': m.arr([m.real('g0'), m.real('g1'), m.real('g2')])}
    seen = []

    def pasi(model_info_dictionary_list=None, model_mass=None, model_radius=None, **k):
        if len(model_info_dictionary_list) != 1:
            raise HarnessGap('several models')
        seen.append((dict(model_info_dictionary_list[0]), model_mass, model_radius))
        return types.SimpleNamespace(property_dict=dict(made))
    with tempfile.TemporaryDirectory() as tmp:
        put(m, f'{tmp}/polytrope_n_3_0.h5', {**ns, 'n_r': 1}, {k: m.arr(list(v)) for k, v in ps.items()})
        g = m.entry(LM, 'ModelLoader').read_data_files.__globals__
        if 'PaSi' not in g:
            m.gap('polytropes are computed elsewhere')
        old, g['PaSi'] = g['PaSi'], pasi
        try:
            with quiet():
                ld = g['ModelLoader'](base_dir='', polytrope_model_output_dir=tmp, infer_dir=False, polytrope_model_substrings=('polytrope', 'n_3_0'), use_polytrope_data=True)
                ld.read_data_files(polytrope_model=True, polytrope_mass=M, polytrope_radius=R)
        finally:
            g['PaSi'] = old
        r = ld.polytrope_model
    m.true('one structure', len(r) == 1 and len(seen) == 1)
    for d, w in ((r[0], 'model'), (seen[0][0], 'input of the structure')):
        gravity(m, d['G'], False)
        for k, v in ps.items():
            if has(m, d, k):
                real(m, f'{w}: {k}', d[k], v)
        for k, v in ns.items():
            if has(m, d, k):
                m.eq(f'{w}: {k}', d[k], v)
    m.eq('mass', seen[0][1], M)
    m.eq('radius', seen[0][2], R)
    if has(m, r[0], 'gravity'):
        m.eq('structure', r[0]['gravity'], made['gravity'])


MESA_SI = {'gamma_1_adDer': Fraction(1, 1000), 'pressure': Fraction(1, 10), 'grav': Fraction(1, 100), 'mlt_mixing_length': Fraction(1, 100)}
COLS = ('zone', 'mass', 'logT', 'logRho', 'radius', 'pressure', 'grav', 'gamma_1_adDer', 'brunt_N2', 'brunt_N2_composition_term', 'grada', 'gradT', 'gradr', 'mlt_mixing_length', 'x', 'h1', 'lamb_S', 'hyeq_lhs', 'hyeq_rhs')
HEAD = ('model_number', 'num_zones', 'initial_mass', 'initial_z', 'star_age', 'Teff', 'photosphere_L', 'photosphere_r', 'center_h1', 'center_he4')


def mesa(m):
    si = m.pick('unit system', ['CGS', 'SI', 'si'])
    rows = m.pick('zones', [2, 3])
    absent = m.pick('absent', [(), ('gamma_1_adDer', 'x', 'initial_z'), ('grav', 'Teff')])
    cols, head = [k for k in COLS if k not in absent], [k for k in HEAD if k not in absent]
    val = {k: [m.real(f'{k}{i}') for i in range(rows)] for k in cols}
    hv = {k: m.real('head' + k) for k in head}

    def show(v):
        if not m.sym:
            return f'{float(v)!r:>40}'
        s = f'T{len(TOK)}T'
        TOK[s] = v
        return f'{s:>40}'
    TOK.clear()
    words = {'version_number': '15140', 'compiler': 'gfortran', 'date': '20230119'}
    head += list(words)
    num = lambda ks: ''.join(f'{i + 1:>40}' for i in range(len(ks)))        # noqa: E731
    nam = lambda ks: ''.join(f'{k:>40}' for k in ks)        # noqa: E731
    text = [num(head), nam(head), ''.join(f'{words[k]:>40}' if k in words else show(hv[k]) for k in head), '', num(cols), nam(cols)] + [''.join(show(val[k][i]) for k in cols) for i in range(rows)]
    with tempfile.TemporaryDirectory() as tmp:
        pathlib.Path(tmp, 'profile_KIC6352430.dat').write_text('\n'.join(text) + '\n')
        K = m.entry(LM, 'ModelLoader')
        with quiet():
            ld = K(base_dir='', mesa_output_dir=tmp, infer_dir=False, mesa_profile_substrings=('profile', 'KIC'), unit_system=si)
            ld.read_data_files(mesa_profile=True)
        r = ld.mesa_profile
    m.true('one profile', len(r) == 1)
    d = r[0]
    u = lambda k: m.const(MESA_SI[k]) if si.upper() == 'SI' and k in MESA_SI else 1     # noqa: E731
    for k in cols:
        if has(m, d, k):
            real(m, k, d[k], [u(k) * v for v in val[k]])
    for k, w in words.items():
        if has(m, d, k):
            m.true(k + ' is a text', isinstance(d[k], str) and d[k] == w)
    for k in hv:
        if has(m, d, k):
            m.true(k + ' is a number', not isinstance(d[k], str))
            if not isinstance(d[k], str):
                m.eq(k, d[k], hv[k])
    m.true('nothing that the file does not have', not [k for k in absent if k in d])


def unknown(m):
    """A file of another format is no model."""
    with tempfile.TemporaryDirectory() as tmp:
        pathlib.Path(tmp, 'det_g_mode_l2m+0n+7.' + m.pick('suffix', ['nc', 'h5.gz', 'csv'])).touch()
        K = m.entry(LM, 'ModelLoader')
        with quiet():
            ld = K(base_dir='', gyre_output_dir=tmp, infer_dir=False, search_l=[2], search_m=[0], search_n=[7], gyre_detail_substring='det')
            try:
                ld.read_data_files(gyre_detail=True, g_modes=[True])
                m.true('the program ends', False)
            except SystemExit:
                m.true('the program ends', True)


def cases(tier):
    return [Case('GYRE modes', gyre, stubs, bounds='2 modes, 2 radii, four spellings of the unit systems, three sets of absent quantities', samples=3),
            Case('modes of polytropes', polytrope_modes, stubs, bounds='2 modes, 2 radii'),
            Case('polytropes', polytrope, stubs, bounds='3 radii'),
            Case('MESA profiles', mesa, stubs, bounds='2 and 3 zones', samples=3),
            Case('other formats', unknown, stubs, bounds='3 suffixes')]
