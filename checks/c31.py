"""C31: which files of a folder are read for a mode or a stellar model."""
import types
from fractions import Fraction  # noqa: F401

from vlib import sym, symstr
from .common import Case

LEVEL = 'bounded'
NOTE = 'names of up to 30 characters of which up to 9 are symbolic (letters, digits, +, -, _, .); folders of up to four entries'
ASSUMPTIONS = ['regular expressions by a backtracking matcher over symbolic characters written after the documentation of the re module',
               'the quantum numbers of a file are the last ones in its name']

SS = 'aesolver.model_handling.subselection_classes'
RM = 'aesolver.model_handling.read_models'
LM = 'aesolver.model_handling.load_models'
DIGITS = '0123456789'
LETTERS = 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ'
WORD = DIGITS + LETTERS + '_+-'


def stubs(mode):
    return {'re': symstr.re_module()} if mode == 'sym' else {}


def char(m, name, alphabet):
    """A character of the alphabet, as a code point."""
    codes = sorted(map(ord, alphabet))
    c = m.integer(name, codes[0], codes[-1])
    runs, lo = [], codes[0]
    for a, b in zip(codes, codes[1:] + [None]):
        if b != a + 1:
            runs.append(m.And(c >= lo, c <= a))
            lo = b
    m.assume(m.Or(*runs))
    return c, alphabet


class Name:
    """A file name: concrete text and characters (code point, alphabet)."""

    def __init__(self, m, *parts):
        self.m, self.c = m, []
        for p in parts:
            self.c += list(p) if isinstance(p, (str, list)) else p.c if isinstance(p, Name) else [p]

    def text(self):
        if self.m.sym:
            return symstr.make([x if isinstance(x, str) else symstr.placeholder(x[0], x[1]) for x in self.c])
        return ''.join(x if isinstance(x, str) else chr(int(x[0])) for x in self.c)

    def at(self, i, s):
        m = self.m
        r = []
        for x, y in zip(self.c[i:i + len(s)], s):
            if isinstance(x, str):
                if x != y:
                    return False
            elif y not in x[1]:
                return False
            else:
                r.append(x[0] == ord(y))
        return m.And(*r) if r else True

    def contains(self, s):
        return self.m.Or(*[self.at(i, s) for i in range(len(self.c) - len(s) + 1)])

    def ends(self, s):
        return self.at(len(self.c) - len(s), s) if len(s) <= len(self.c) else False


def number(ds):
    r = 0
    for c, _ in ds:
        r = r * 10 + (c - 48)
    return r


def digits(m, name, n):
    return [char(m, f'{name}{i}', DIGITS) for i in range(n)]


def gyre(K):
    def f(m):
        which = m.pick('name', ['plain', 'mode last', 'long', 'p mode', 'tail', 'far prefix'])
        nl, nm, nn = {'plain': (1, 1, 2), 'long': (2, 2, 3)}.get(which, (1, 1, 1))
        L, M, N = digits(m, 'L', nl), digits(m, 'M', nm), digits(m, 'N', nn)
        sign = m.pick('sign', '+-')
        g = m.pick('g mode wanted', [True, False])
        P = [char(m, f'p{i}', WORD) for i in range(2)]
        q = ['l'] + L + ['m', sign] + M + ['n', '+'] + N
        tok = 'p_mode' if which == 'p mode' else 'g_mode'
        if which == 'mode last':
            name = Name(m, P, '_', q, '_', tok, '.h5')
        elif which == 'tail':
            name = Name(m, 'ab_', tok, '_', q, '_', P[0], '_detail.h5')
        elif which == 'far prefix':
            name = Name(m, 'l', P[0], 'm+', P[1], 'n+7_', tok, '_', q, '.h5')
        else:
            name = Name(m, P, '_', tok, '_', q, '.h5')
        i = m.pick('mode', [1, 2, 3])
        sl, sm, sn = ([m.integer(f'{a}{j}', lo, hi) if j == i - 1 else 97 + j for j in range(3)] for a, lo, hi in (('l', 0, 99), ('m', -99, 99), ('n', 0, 999)))
        kind = m.pick('substrings', [None, 'ab', ['zz', 'ab', 'a_'], ('ab', '_g')])
        o = m.entry(SS, K)(search_l=sl, search_m=sm, search_n=sn)
        got = o.subselect(name=name.text(), additional_substring=kind, mode_number=i, g_mode=g)
        subs = [] if kind is None else [kind] if isinstance(kind, str) else [kind[i - 1]] if isinstance(kind, list) else list(kind)
        az = number(M) if sign == '+' else -number(M)
        want = m.And(number(L) == sl[i - 1], az == sm[i - 1], number(N) == sn[i - 1], name.contains('g_mode' if g else 'p_mode'), *[name.contains(s) for s in subs])
        m.true('selected only if it is the file of the mode', m.Or(m.Not(got), want))
        m.true('selected if it is the file of the mode', m.Or(got, m.Not(want)))
    return f


def incomplete(K):
    """Names without one of the quantum numbers or the type of the mode are never selected."""
    def f(m):
        L, M, N = digits(m, 'L', 1), digits(m, 'M', 1), digits(m, 'N', 2)
        miss = m.pick('missing', ['l', 'm', 'sign', 'n', 'mode', 'digits'])
        P = [char(m, f'p{i}', LETTERS) for i in range(2)]
        name = Name(m, P, '_' if miss == 'mode' else '_g_mode_', [] if miss == 'l' else ['l', *L], [] if miss == 'm' else ['m', *([] if miss == 'sign' else '+'), *M],
                    [] if miss == 'n' else ['n', '+', *([] if miss == 'digits' else N)], '_.h5')
        l, a, n = m.integer('l', 0, 9), m.integer('m', 0, 9), m.integer('n', 0, 99)
        got = m.entry(SS, K)(search_l=[l], search_m=[a], search_n=[n]).subselect(name=name.text(), additional_substring=None, mode_number=1, g_mode=True)
        m.true('not selected', m.Not(got))
    return f


def structure(n):
    """Names of stellar models made of any characters."""
    def f(m):
        kind = m.pick('kind', ['MESA', 'polytrope'])
        suf = m.pick('suffix', ['dat', 'data'] if kind == 'MESA' else ['h5', 'hdf5'])
        C = [char(m, f'c{i}', WORD + '.') for i in range(n)]
        tail = m.pick('tail', ['', '.' + suf])
        subs = m.pick('substrings', [None, ('p',), ['p', '1'], ('ab', 'p1'), []])
        name = Name(m, C, tail)
        K = 'MESAProfileSubSelector' if kind == 'MESA' else 'PolytropeModelSubSelector'
        o = m.entry(SS, K)(suf)
        got = o.subselect(name=name.text(), additional_substring=subs)
        want = m.And(name.ends('.' + suf), len(name.c) > len(suf) + 1, *[name.contains(s) for s in subs or []],
                     *([m.Not(name.contains('gyre')), m.Not(name.contains('GYRE'))] if kind == 'MESA' else []))
        m.true('selected only if it has the suffix and the substrings', m.Or(m.Not(got), want))
        m.true('selected if it has the suffix and the substrings', m.Or(got, m.Not(want)))
    return f


def excluded(m):
    """Files of the oscillation code are no stellar models."""
    P, Q = [char(m, f'p{i}', WORD) for i in range(2)], [char(m, 'q', WORD)]
    k = m.pick('length of the prefix', [0, 1, 2])
    name = Name(m, P[:k], m.pick('word', ['gyre', 'GYRE']), Q, '.dat')
    m.true('not selected', m.Not(m.entry(SS, 'MESAProfileSubSelector')('dat').subselect(name=name.text(), additional_substring=m.pick('substrings', [None, ('yr',), ['YR']]))))


class Entry:
    def __init__(self, name, folder, file=True):
        self.name, self.path, self._f = name, f'{folder}/#{id(self)}', file

    def is_file(self):
        return self._f

    def is_dir(self):
        return not self._f


def opened(m, folders):
    """Patches: the folders, and reading a file gives its entry."""
    rm = m.entry(RM, 'ModelReader').data_file_reader.__globals__

    class OS:
        @staticmethod
        def scandir(d):
            return iter(folders[d])

        def __getattr__(self, k):
            raise sym.Unsupported(f'os.{k}')
    K = m.entry(RM, 'ModelReader')
    old = rm['os'], K._read_file
    rm['os'] = OS()
    by = {e.path: e for es in folders.values() for e in es}
    K._read_file = lambda self, file_path, file_suffix: {'file': by[file_path], 'suffix': file_suffix}

    def undo():
        rm['os'] = old[0]
        K._read_file = old[1]
    return undo


def patched(m, folders, f):
    g = m.entry(LM, 'ModelLoader').read_data_files.__globals__
    K = g['ModelLoader']
    names = [n for n in ('DimGyre', 'ReImPoly', 'PaSi') if n in g]
    old = {n: g[n] for n in names}
    conv = K.__dict__['_unit_conversion']
    undo = opened(m, folders)
    for n in names:
        g[n] = types.SimpleNamespace(dimensionalize=lambda d: None) if n != 'PaSi' else lambda **k: types.SimpleNamespace(property_dict={'made': True})
    K._unit_conversion = staticmethod(lambda my_data, my_unit_converter_class, unit_system: my_data)
    try:
        return f(K)
    finally:
        undo()
        g.update(old)
        K._unit_conversion = conv


def loader(poly, nfiles):
    """The i-th data are those of the only file of mode i; otherwise the program ends."""
    def f(m):
        N = [digits(m, f'N{j}', 1)[0] for j in range(nfiles)]
        entries = []
        for j, d in enumerate(N):
            nm = Name(m, 'det_g_mode_l2m+0n+', [d], '.h5')
            entries.append(Entry(nm.text(), 'G'))
        entries.append(Entry('det_g_mode_l2m+1n+5.h5', 'G'))
        entries.append(Entry('det_g_mode_l2m+0n+9.h5', 'G', file=False))
        n = [m.integer('n0', 0, 9), 5, m.integer('n2', 0, 9)]
        bars = m.pick('bars', [False, True])

        def run(K):
            kw = {'polytrope_oscillation_output_dir': 'G', 'polytrope_oscillation_substrings': 'det'} if poly else {'gyre_output_dir': 'G', 'gyre_detail_substring': 'det'}
            o = K(base_dir='B', infer_dir=False, search_l=[2, 2, 2], search_m=[0, 1, 0], search_n=n, **kw)
            o.read_data_files(**{'polytrope_oscillation' if poly else 'gyre_detail': True}, g_modes=[True, True, True], progress_bars=bars)
            return o.polytrope_oscillation_models if poly else o.gyre_details
        hits = [[N[j][0] - 48 == n[i] for j in range(nfiles)] for i in (0, 2)]
        ones = [sum((m.ite(h, 1, 0) for h in hs), 0) for hs in hits]
        try:
            r = patched(m, {'G': entries}, run)
        except SystemExit:
            m.true('ends only when a mode has no file or several', m.Or(ones[0] != 1, ones[1] != 1))
            return
        m.true('each mode has one file', m.And(ones[0] == 1, ones[1] == 1))
        m.true('one data set for each mode', len(r) == 3)
        m.true('the file of the second mode', r[1]['file'] is entries[nfiles])
        for i, k in ((0, 0), (2, 1)):
            m.true(f'the file of mode {i + 1}', m.Or(*[h for h, e in zip(hits[k], entries) if r[i]['file'] is e]))
        m.true('read with the suffix of the file', all(x['suffix'] == 'h5' for x in r))
    return f


def models(m):
    """Exactly one stellar model is read, or the program ends."""
    poly = m.pick('polytrope', [False, True])
    suf = 'h5' if poly else 'dat'
    c = [char(m, f'c{i}', DIGITS + 'pq') for i in range(2)]
    names = [Name(m, 'a', [x], '_model.' + suf) for x in c] + [Name(m, 'ap_model.txt'), Name(m, 'ap_model_dir.' + suf)]
    entries = [Entry(x.text(), 'M', file=j != 3) for j, x in enumerate(names)]

    def run(K):
        kw = {'polytrope_model_output_dir': 'M', 'polytrope_model_suffix': suf, 'polytrope_model_substrings': ('ap',)} if poly else {'mesa_output_dir': 'M', 'mesa_suffix': suf, 'mesa_profile_substrings': ('ap',)}
        o = K(base_dir='B', infer_dir=False, **kw)
        o.read_data_files(**{'polytrope_model' if poly else 'mesa_profile': True})
        return o.polytrope_model if poly else o.mesa_profile
    h = [x[0] == ord('p') for x in c]
    try:
        r = patched(m, {'M': entries}, run)
    except SystemExit:
        m.true('ends only without a model or with several', m.Or(m.And(*h), m.Not(m.Or(*h))))
        return
    m.true('one model', m.And(len(r) == 1, m.Or(*h), m.Not(m.And(*h))))
    m.true('the model with the wanted name', m.Or(*[a for a, e in zip(h, entries) if r[0]['file'] is e]))


def folders(m):
    """The folder in which the files are searched: the given one, or the only one of the base folder that is named after its kind."""
    kind = m.pick('kind', ['gyre', 'mesa', 'polytrope_model', 'polytrope_oscillation'])
    how = m.pick('folder', ['given', 'given without base folder', 'inferred', 'inferred, capital letters'])
    mode = kind in ('gyre', 'polytrope_oscillation')
    suf = 'dat' if kind == 'mesa' else 'h5'
    name = f'det_g_mode_l2m+0n+7.{suf}' if mode else f'det_model.{suf}'
    kinds = ('mesa', 'gyre', 'polytrope_model', 'polytrope_oscillation')
    tree = {f'/b/{k}': [Entry(name, f'/b/{k}')] for k in kinds}
    tree['/given'] = [Entry(name, '/given')]
    up = (lambda x: x.upper()) if how.endswith('capital letters') else (lambda x: x)
    base = []
    for j, k in enumerate(kinds):
        e = Entry(up('my_' + k + '_files'), '/b', file=False)
        e.path = f'/b/{k}'
        f = Entry(up(k + '.txt'), '/b', file=True)
        base += [e, f] if (j + m.pick('order', [0, 1])) % 2 else [f, e]
    tree['/b'] = base
    want = tree['/given' if how.startswith('given') else f'/b/{kind}'][0]

    def run(K):
        out = {'gyre': 'gyre_output_dir', 'mesa': 'mesa_output_dir'}.get(kind, kind + '_output_dir')
        sub = {'gyre': ('gyre_detail_substring', 'det'), 'mesa': ('mesa_profile_substrings', ('det',)), 'polytrope_model': ('polytrope_model_substrings', ('det',)),
               'polytrope_oscillation': ('polytrope_oscillation_substrings', 'det')}[kind]
        kw = {out: '/given'} if how.startswith('given') else {}
        o = K(base_dir=None if how == 'given without base folder' else '/b', infer_dir=how.startswith('inferred'), search_l=[2], search_m=[0], search_n=[7], **{sub[0]: sub[1]}, **kw)
        o.read_data_files(**{{'gyre': 'gyre_detail', 'mesa': 'mesa_profile'}.get(kind, kind): True}, g_modes=[True])
        return {'gyre': lambda: o.gyre_details, 'mesa': lambda: o.mesa_profile, 'polytrope_model': lambda: o.polytrope_model, 'polytrope_oscillation': lambda: o.polytrope_oscillation_models}[kind]()
    undo = scan(m, tree)
    try:
        r = patched(m, tree, run)
    finally:
        undo()
    m.true('one data set', len(r) == 1)
    m.true('of the file in the folder', r[0]['file'] is want)


def scan(m, tree):
    """The folders as the loader itself looks at them."""
    g = m.entry(LM, 'ModelLoader').read_data_files.__globals__
    if 'os' not in g:
        m.gap('the loader does not look at folders')
    old = g['os']

    class OS:
        @staticmethod
        def scandir(d):
            return iter(tree[d])

        def __getattr__(self, k):
            raise sym.Unsupported(f'os.{k}')
    g['os'] = OS()

    def undo():
        g['os'] = old
    return undo


def cases(tier):
    deep = tier != 'quick'
    out = []
    for K in ('GYREDetailSubSelector', 'PolytropeOscillationModelSubSelector'):
        nm = 'GYRE' if K.startswith('G') else 'polytrope'
        out.append(Case(f'files of {nm} modes', gyre(K), stubs, max_paths=60000, seconds=240 if not deep else 2000, bounds='six forms of names, any digits, two arbitrary characters, any wanted quantum numbers, four kinds of substrings'))
        out.append(Case(f'incomplete names of {nm} modes', incomplete(K), stubs, max_paths=8000, bounds='six incomplete forms'))
    for n in (2, 4, 6) + ((8, 9) if deep else ()):
        out.append(Case(f'files of stellar models, {n} characters', structure(n), stubs, max_paths=60000, seconds=240 if not deep else 2000, bounds=f'{n} arbitrary characters with and without the suffix'))
    out.append(Case('files of the oscillation code', excluded, stubs, max_paths=8000, bounds='up to two characters before the word'))
    for poly in (False, True):
        out.append(Case(f'loading {"polytrope" if poly else "GYRE"} modes', loader(poly, 3), stubs, max_paths=20000, bounds='folders of five entries, any radial orders of files and modes'))
    out.append(Case('folders', folders, stubs, max_paths=200, bounds='four kinds of files, four ways to name a folder'))
    out.append(Case('loading stellar models', models, stubs, max_paths=8000, bounds='folders of four entries'))
    return out
