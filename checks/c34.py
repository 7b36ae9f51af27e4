"""Reports of the analysis program."""
import re
from fractions import Fraction

from . import c30
from .c33 import numbers, printed
from .common import Case
from .fakeh5 import make

LEVEL = 'model_checking'
NOTE = ('The result files are replaced by an in-memory stand-in; the classes of the triads are picked, their frequencies, driving rates, amplitudes and thresholds are symbolic; numbers are read '
        'from the printed lines. The classification itself is the subject of other checks. Trusts the symbolic interpreter in vlib; rounding is outside the claims.')
ASSUMPTIONS = ['two models, one or two triads each; no quantity equals its limit']
CPD, MUHZ = c30.CPD, c30.MUHZ


Y, N1, N2, N3, N0 = (True, True, True), (True, True, False), (True, False, True), (False, True, True), (False, False, False)
CLASSES = {2: [('first', (True, True), (Y, N1)), ('first', (True, False), (Y, Y)), ('both', (True, True), (Y, Y)), ('both', (False, True), (Y, Y)), ('both', (True, True), (N2, Y)),
               ('both', (True, True), (N3, N0)), ('none', (True, True), (Y, Y)), ('both', (False, True), (N1, N2)), ('first', (False, False), (Y, N3)), ('both', (True, False), (Y, N0))],
           1: [('both', (True,), (Y,)), ('missing', (True,), (Y,)), ('both', (False,), (N3,))]}


def stubs(mode):
    return {'h5py': make()}


def data(m, tag, n, kind):
    """Saved data of n triads of one model and their classes (stable, valid expansion, isolated)."""
    R = lambda k, lo, hi: m.real(f'{tag}{k}', lo=lo, hi=hi)
    F = Fraction
    t = {k: [] for k in ('com', 'cfr', 'iom', 'ifr', 'dim', 'rates', 'u', 'surfs', 'amps', 'thresh', 'checks', 'n', 'q', 'Q', 'ratio')}
    cls = {'checks': [], 'stable': [], 'ae': [], 'isolated': [], 'more': [], 'two': []}
    # order of the thresholds: the first triad is isolated, both are (no common mode), or none
    ci = m.pick(f'{tag} classes', list(range(len(CLASSES[n]))))
    iso, vs, ss = CLASSES[n][ci]
    rot4 = m.pick(f'{tag} ratios', [0, 1, 2, 3]) if kind == 'quality' and tag == 'x' else ci
    for i in range(n):
        sg = (-1) ** (i + ci)
        d = sg * (R(f'{i}d', F(1, 100), F(9, 100)) if vs[i] else R(f'{i}d', F(2, 10), F(8, 10)))
        c1, c2 = R(f'{i}c1', F(1, 10), 1), R(f'{i}c2', F(1, 10), 1)
        w = [c2 * (1 + d) + c1 + c2, c1 + c2, c2]
        t['com'].append(w)
        t['cfr'].append([R(f'{i}cf{k}', 1, 2) for k in range(3)])
        t['ifr'].append([R(f'{i}if{k}', 1, 2) for k in range(3)])
        t['dim'].append([1, 1, 1])
        more, two = [(True, (1, 1)), (False, (1, 1)), (True, (1, 0)), (False, (0, 1))][(rot4 + i) % 4] if kind == 'quality' else (True, (1, 1))
        if kind == 'quality':
            # the quality factor of the parent and the ratio of detuning and damping are chosen
            Q, e = R(f'{i}Q', -50, 50), R(f'{i}e', F(1, 100), 5)
            q = Q + e if more else Q - e
            m.assume(m.And(m.Or(Q > F(1, 10), Q < -F(1, 10)), m.Or(q > F(1, 10), q < -F(1, 10))))
            r1 = R(f'{i}r1', -3, F(-1, 10))
            r0, tot = w[0] / Q, d * c2 / q
            t['rates'].append([r0, r1, tot - r0 - r1])
            m.assume(m.Or(t['rates'][i][2] > F(1, 1000), t['rates'][i][2] < -F(1, 1000)))
            t['q'].append(q), t['Q'].append(Q)
        else:
            g, u, v = R(f'{i}g', -2, F(-1, 10)), R(f'{i}u', F(6, 10), 3), R(f'{i}v', F(6, 10), 3)
            if kind == 'observables':
                u, v = [(F(3, 4), F(3, 2)), (F(2), F(5, 8))][(ci + i) % 2]
                u, v = (u, v) if m.sym else (float(u), float(v))
            t['u'].append([u + v - 1, u, v])
            t['rates'].append([g * (1 - u - v), g * u, g * v])
        if kind == 'observables':
            # relative shifts are the detuning over these
            W, least = R(f'{i}W', F(1, 10), 3), m.pick(f'{tag}largest shift', [0, 1, 2]) if i == 0 else ci % 3
            t['W'] = t.get('W', []) + [[W if k == least else W * (1 + R(f'{i}W{k}', F(1, 100), 3)) for k in range(3)]]
            t['min'] = t.get('min', []) + [W]
            t['iom'].append([x * y for x, y in zip(t['W'][i], t['u'][i])])
        else:
            rot = R(f'{i}rot', F(1, 100), F(5, 100))
            t['iom'].append([w[0] + 2 * rot, w[1] + rot, w[2] + rot])
        lo, hi = {'first': [(1, 10), (30, 90)], 'both': [(10, 20), (10, 20)], 'none': [(10, 14), (15, 19)], 'missing': [(10, 20)]}[iso][i]
        s = R(f'{i}s0', F(lo, 100), F(hi, 100))
        r = [(1 if x else 0) + R(f'{i}s{k}', F(1, 100), F(9, 10)) for k, x in enumerate(two)]
        t['ratio'].append(r)
        t['surfs'].append([s, s * r[0], s * r[1]])
        a = R(f'{i}a', F(1, 100), 1)
        t['amps'].append([a, a, a])
        t['thresh'].append(float('nan') if iso == 'missing' else a / 2)
        t['checks'].append([True, False, False] + list(ss[i]))
        t['n'].append([10 + (i if iso == 'both' else 0), 20 + i, 30 + i])
        cls['checks'].append(ss[i])
        cls['stable'].append(all(ss[i]))
        cls['ae'].append(vs[i])
        cls['isolated'].append(iso == 'both' or iso == 'first' and i == 0)
        cls['more'].append(more), cls['two'].append(all(two))
    t['kappa'] = [R(f'{i}k', -3, 3) for i in range(n)]
    t['kappan'] = [(-1) ** i * R(f'{i}kn', 0, 3) for i in range(n)]
    t['phase'] = [R(f'{i}p', -3, 3) for i in range(n)]
    cls['valid'] = [a and b for a, b in zip(cls['ae'], cls['isolated'])]
    cls['both'] = [a and b for a, b in zip(cls['stable'], cls['valid'])]
    return t, cls


def analysis(m, kind='', n=(2, 1)):
    m.fork_minmax()
    m.cancel_branches()
    load, _ = c30.names(2)
    load['base_file_names'] = [['f0'], ['f1']]
    load['specification_names'] = [[''], ['']]
    load['file_suffix'] = [['h5'], ['h5']]
    h5 = m.entry('h5py')
    ds = []
    for i, k in enumerate(n):
        t, c = data(m, 'xy'[i], k, kind)
        a = c30.arrays(m, {x: t[x] for x in c30.PATHS})
        if m.sym:
            a['n'] = m.arr([x for r in t['n'] for x in r], (k, 3))
        c30.write(m, h5, f'b/o/f{i}_k_0_0_0_m_2_1_1.h5', a)
        ds.append((t, c))
    mod, c = c30.CLS['analysis']
    K = m.entry(mod, c)
    with printed():
        return K(load, {}, {}), ds, ['model1', 'model2']


def report(m, o, name):
    with printed() as buf:
        getattr(o, name)()
    return buf.getvalue()


def line(m, text, start):
    """The numbers that follow the only text like this, up to the next text."""
    k = text.count(start)
    m.true(f'"{start}" is printed once', k == 1)
    if k != 1:
        return None
    rest = text[text.index(start) + len(start):]
    end = re.search(r'\n[ \t]*[A-Za-z|\n]', rest)
    return numbers(rest[:end.start()] if end else rest)


def told(m, text, start, want):
    got = line(m, text, start)
    if got is None:
        return
    m.true(f'{start} how many numbers', len(got) == len(want))
    for a, b in zip(got, want):
        m.eq(start, a, b)


def counts(m):
    o, ds, names = analysis(m)
    text = report(m, o, 'generate_mode_triad_numbers_per_model')
    for nm, (t, c) in zip(names, ds):
        for start, v in (('Total nr. of Triads', len(c['ae'])), ('Nr. of triads with _g_box_dot_ok < 0', sum(x[0] for x in c['checks'])),
                         ('Nr. of triads for which Quartic condition is fulfilled', sum(x[1] for x in c['checks'])),
                         ('Nr. of triads fulfilling the hyperbolic condition', sum(x[2] for x in c['checks'])),
                         ('Nr. of triads fulfilling the AE validity condition', sum(c['ae'])), ('Nr. of triads fulfilling the isolation validity condition', sum(c['isolated'])),
                         ('Nr. of triads fulfilling the stability conditions', sum(c['stable'])), ('Nr. of triads fulfilling the validity conditions', sum(c['valid'])),
                         ('Nr. of triads fulfilling the stability and validity conditions', sum(c['both']))):
            told(m, text, f'{start} ({nm}):', [v])


def chosen(c):
    return [i for i, x in enumerate(c['both']) if x]


def det(t, i):
    return t['com'][i][0] - t['com'][i][1] - t['com'][i][2]


def properties(m):
    o, ds, names = analysis(m)
    text = report(m, o, 'generate_isolated_triad_mode_properties')
    for nm, (t, c) in zip(names, ds):
        S = chosen(c)
        told(m, text, f'Radial orders of isolated triads ({nm}):', [x for i in S for x in t['n'][i]])
        told(m, text, f'Delta Omega of isolated triads (cpd; {nm}):', [det(t, i) * CPD for i in S])
        told(m, text, f'Gamma_sum of isolated triads (10-3 cpd; {nm}):', [sum(t['rates'][i]) * CPD * 1000 for i in S])
        told(m, text, f'Corot omegas of isolated triads (cpd; {nm}):', [t['com'][i][k] * CPD for k in range(3) for i in S])
        told(m, text, f'Gammas of isolated triads (10-5 cpd; {nm}):', [t['rates'][i][k] * CPD * 100000 for k in range(3) for i in S])
        told(m, text, f'Maximal spin parameter of isolated triads ({nm}):', [2 * (t['iom'][i][1] - t['com'][i][1]) / t['com'][i][2] for i in S])


def estimators(m):
    o, ds, names = analysis(m)
    text = report(m, o, 'generate_isolated_triad_stab_val_estimators')
    for nm, (t, c) in zip(names, ds):
        S = chosen(c)
        g, A = t['rates'], m.absv
        told(m, text, f'Radial orders of isolated triads ({nm}):', [x for i in S for x in t['n'][i]])
        told(m, text, f'AE parameters for isolated triads ({nm}):', [A(det(t, i) / t['com'][i][2]) for i in S])
        told(m, text, f'|q| values for isolated triads ({nm}):', [A(det(t, i) / sum(g[i])) for i in S])
        told(m, text, f'|q1| values for isolated triads ({nm}):', [A(det(t, i) / g[i][0]) for i in S])
        told(m, text, f'Theta_2 values for isolated triads ({nm}):', [-g[i][1] / g[i][0] for i in S])
        told(m, text, f'Theta_3 values for isolated triads ({nm}):', [-g[i][2] / g[i][0] for i in S])
        told(m, text, f'O(|eta1|) values for isolated triads ({nm}):', [A(t['kappan'][i]) for i in S])


def observables(m):
    o, ds, names = analysis(m, 'observables')
    text = report(m, o, 'generate_isolated_triad_observables')
    for nm, (t, c) in zip(names, ds):
        S = chosen(c)
        told(m, text, f'Radial orders of isolated triads ({nm}):', [x for i in S for x in t['n'][i]])
        told(m, text, f'Maximal absolute non-linear frequency shifts as a fraction of the linear inertial-frame angular frequency (ppt; {nm}):',
             [m.absv(det(t, i)) / t['min'][i] * 1000 for i in S])
        told(m, text, f'Nonlinear combination phases ({nm}):', [t['phase'][i] for i in S])
        told(m, text, f'Surface luminosity fluctuation ratios ({nm}):', [t['surfs'][i][k] / t['surfs'][i][0] for k in (1, 2) for i in S])


def quality(m):
    o, ds, names = analysis(m, 'quality')
    tot = {}
    text = report(m, o, 'generate_counts_q_quality_factor_1_condition')
    first, rest = text.split('Information on the triads that satisfy', 1)
    yes, no = rest.split('Information on the triads that do not satisfy', 1)
    add = lambda k, v: tot.__setitem__(k, tot.get(k, 0) + int(v))
    for nm, (t, c) in zip(names, ds):
        told(m, first, f'The number of triads for q > Q1 ({nm}) is', [sum(c['more'])])
        for i, (more, two) in enumerate(zip(c['more'], c['two'])):
            B = more and two
            add('', more), add('two', two), add('B', B), add('N', two and not more)
            for k in ('stable', 'ae', 'isolated', 'valid', 'both'):
                add(k if c[k][i] else 'not ' + k, B)
            add('two ae' if c['ae'][i] else 'two not ae', two)
    al = f'(all {sum(len(c["ae"]) for _, c in ds)} models)'
    R = 'for which both predicted daughter-parent amplitude ratios are larger than unity'
    for start, k in (('triads for which q > Q1', ''), (f'triads {R}', 'two'), (f'triads {R} and q > Q1', 'B'), (f'triads {R} and q <= Q1', 'N'),
                     (f'stable triads {R} and q > Q1', 'stable'), (f'unstable triads {R} and q > Q1', 'not stable'), (f'AE-valid triads {R} and q > Q1', 'ae'),
                     (f'AE-invalid triads {R} and q > Q1', 'not ae'), (f'isolated triads {R} and q > Q1', 'isolated'), (f'non-isolated triads {R} and q > Q1', 'not isolated'),
                     (f'valid triads {R} and q > Q1', 'valid'), (f'invalid triads {R} and q > Q1', 'not valid'), (f'stable and valid triads {R} and q > Q1', 'both'),
                     (f'instable and/or invalid triads {R} and q > Q1', 'not both'), (f'AE-valid triads {R}', 'two ae'), (f'AE-invalid triads {R}', 'two not ae')):
        told(m, first, f'The total number of {start} {al}:', [tot.get(k, 0)])
    for part, which in ((yes, 'B'), (no, 'N')):
        marks = [(part.find(f'{nm.capitalize()} has'), nm) for nm in names]
        m.true('every model', all(x[0] >= 0 for x in marks) and marks == sorted(marks))
        for j, (nm, (t, c)) in enumerate(zip(names, ds)):
            seg = part[marks[j][0]:marks[j + 1][0] if j + 1 < len(marks) else None]
            S = [i for i, two in enumerate(c['two']) if two and c['more'][i] == (which == 'B')]
            if not S:
                m.true('none', 'has no triads of this type' in seg)
                continue
            told(m, seg, f'{nm.capitalize()} has', [len(S)])
            told(m, seg, '\nq:', [t['q'][i] for i in S])
            told(m, seg, '\nQ1:', [t['Q'][i] for i in S])
            told(m, seg, '\nDaughter-parent amplitude ratio:', [x for i in S for x in t['ratio'][i]])
            told(m, seg, '\nRadial orders:', [x for i in S for x in t['n'][i]])


def cases(tier):
    k = dict(stubs=stubs, seconds=800 if tier == 'thorough' else 300)
    return [Case(n, f, bounds='two models with two and one triads', **k) for n, f in (('numbers of triads', counts), ('mode properties', properties), ('estimators', estimators), ('observables', observables), ('quality factor condition', quality))]
