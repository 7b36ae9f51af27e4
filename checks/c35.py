"""C35: figures of the radial and angular kernels of the coupling coefficient."""
import itertools
import re
from collections import Counter
from fractions import Fraction

from vlib import poly

from . import c33
from .c17 import ANG, RAD
from .common import Case

LEVEL = 'model_checking'
NOTE = ('Every curve of the figures is compared with the product that its label names; the list of products is compared with the third-order energy written with gradient tensors (as in C17). '
        'Constant factors of the radial kernels are not part of their labels and may have any value, the same for all orderings of a term.')
ASSUMPTIONS = ['matplotlib replaced by a recorder of lines, labels and files', 'angular functions and eigenfunctions are arbitrary real functions at 3 radii and 3 colatitudes',
               'stationary solution, coupling profile, jacobian and hyperbolicity test are stand-ins (C11, C12, C17)']
stubs = c33.stubs
MU = [Fraction(-4, 5), Fraction(0), Fraction(3, 5)]
SIN = [Fraction(3, 5), Fraction(1), Fraction(4, 5)]

A_TOK = [(r'm\,H_r', 'mhr'), (r'\partial\,H_r', 'theta_der_hr_theta'), (r'\partial\,H_\theta', 'theta_der_ht_theta'), (r'\partial\,H_\phi', 'theta_der_hp_theta'),
         (r'H_\phi^\phi', 'phi_phi'), (r'H_\phi^\theta', 'theta_phi'), ('H_r', 'hr'), (r'H_\theta', 'ht'), (r'H_\phi', 'hp')]
R_TOK = [(r'\dfrac{\partial}{\partial r}\,(r\,\dfrac{z_2}{c_1\,\bar{\omega}^2})', 'rad_der_x_z_2_c_1_omega'), (r'\dfrac{\partial(r\,z_1)}{\partial r}', 'rad_der_x_z_1'),
         (r'\dfrac{z_2}{c_1\,\bar{\omega}^2}', 'z_2_over_c_1_omega'), ('z_{1}', 'z_1'), ('z_1', 'z_1'), ('H', 'rad_diverg')]
S_TOK = [(r'\left(\dfrac{\partial \Gamma_1}{\partial \ln \rho}\right)_S', 'ad'), (r'(\Gamma_1 - 1)^2', 'g2'), (r'(\Gamma_1 - 1)', 'g'), (r'\dfrac{\partial^3 \Phi}{\partial r^3}', 'p3'),
         (r'\dfrac{\partial^2 \Phi}{\partial r^2}', 'p2'), (r'\dfrac{\partial \Phi}{\partial r}', 'p1'), (r'\rho', 'rho'), ('P', 'P'), ('r^3', 'r3'), ('r^2', 'r2'), ('r', 'r1')]


def tokens(text, table):
    return [dict(table)[t] for t in re.findall('|'.join(re.escape(t) for t, _ in table), text)]


# ---------------------------------------------------------------- the products that the theory asks for

def mono(c, r, a, s=0, im=0):
    return [(c, ((r, a),), s, im)]


def add(*ps):
    return [t for p in ps for t in p]


def mul(p, q):
    return [(a[0] * b[0], a[1] + b[1], a[2] + b[2], a[3] + b[3]) for a in p for b in q]


def tensor(k):
    """Gradient of the displacement of mode k; im counts factors i."""
    e = lambda r, a: ((r, k), (a, k))     # noqa: E731
    z1, z2, d1, d2 = RAD[0], RAD[1], RAD[2], RAD[3]
    M = lambda c, r, a, s=0, im=0: mono(c, *e(r, a), s, im)     # noqa: E731
    return [[M(1, d1, 'hr'), M(1, d2, 'ht'), M(1, d2, 'hp', 0, 1)],
            [add(M(1, z1, 'theta_der_hr_theta'), M(-1, z2, 'ht')), add(M(1, z2, 'theta_der_ht_theta'), M(1, z1, 'hr')), M(1, z2, 'theta_der_hp_theta', 0, 1)],
            [add(M(1, z1, 'mhr', 1, 1), M(-1, z2, 'hp', 0, 1)), M(1, z2, 'theta_phi', 1, 1), add(M(1, z2, 'phi_phi'), M(1, z1, 'hr'))]]


def trace(idx):
    G, out = [tensor(k) for k in range(3)], []
    for path in itertools.product(range(3), repeat=len(idx)):
        t = [(1, (), 0, 0)]
        for j, g in enumerate(idx):
            t = mul(t, G[g][path[j]][path[(j + 1) % len(idx)]])
        out += t
    return out


def families(n):
    """(radial, angular with the power of the sine) products of contribution n."""
    div = lambda k: mono(1, ('rad_diverg', k), ('hr', k))     # noqa: E731
    if n == 1:
        ps = add(*(mul(trace((a, b)), div(c)) for a, b, c in ((0, 1, 2), (1, 2, 0), (0, 2, 1))))
    elif n == 2:
        ps = mul(mul(div(0), div(1)), div(2))
    elif n == 3:
        ps = add(trace((0, 1, 2)), trace((0, 2, 1)))
    else:
        ps = []
        for a, b, c in itertools.permutations(range(3)):
            z1, z2 = RAD[0], RAD[1]
            one = mono(1, (z1, a), ('hr', a))
            ps += mul(one, add(mul(mono(1, (z2, b), ('ht', b)), mono(1, (z2, c), ('ht', c))), mul(mono(1, (z2, b), ('hp', b)), mono(1, (z2, c), ('hp', c)))))
            if (a, b, c) == (0, 1, 2):
                ps += mul(mul(one, mono(1, (z1, b), ('hr', b))), mono(1, (z1, c), ('hr', c)))
    tot = Counter()
    for c, f, s, im in ps:
        assert im in (0, 2)
        tot[tuple(sorted(f, key=lambda x: x[0][1])), s] += c * (-1 if im else 1)
    left = [k for k, c in tot.items() if c]
    rad = {tuple(sorted(r[0] for r, _ in f)) for f, _ in left}
    ang = {(tuple(sorted(a[0] for _, a in f)), s) for f, s in left}
    return rad, ang


# the profile of the star that goes with the radial products: (pressure or density terms, powers of the radius)
WITH = {1: lambda r: [('P', 'g')], 2: lambda r: [('P', 'g2'), ('P', 'ad')], 3: lambda r: [('P',)],
        4: lambda r: [('p3', 'r3', 'rho')] if r == ('z_1',) * 3 else [('p1', 'r1', 'rho'), ('p2', 'r2', 'rho')]}


# ---------------------------------------------------------------- harness

def attributes(m, n):
    pos = dict(lo=Fraction(1, 10), hi=10)
    A = {a: [m.reals(f'{a}{k}_', len(MU)) for k in range(3)] for a in ANG}
    R = {r: [m.reals(f'{r}{k}_', n) for k in range(3)] for r in RAD}
    d = {f'_{q}_mode_{k + 1}': m.arr(v[k]) for T in (A, R) for q, v in T.items() for k in range(3)}
    S = dict(P=m.reals('P', n), rho=m.reals('rho', n), G=m.reals('Gam', n), ad=m.reals('ad', n), p1=m.reals('pa', n), p2=m.reals('pb', n), p3=m.reals('pc', n), R=m.real('R', **pos), E=m.real('E', **pos))
    d.update(_mu_values=m.arr([m.const(v) if m.sym else float(v) for v in MU]), _energy_mode_1=S['E'], _Gamma_1=m.arr(S['G']), _rho=m.arr(S['rho']), _gamma_1_adDer_profile=m.arr(S['ad']),
             _P=m.arr(S['P']), _dgravpot=m.arr(S['p1']), _dgravpot2=m.arr(S['p2']), _dgravpot3=m.arr(S['p3']), _R_star=S['R'], _nr_modes=3, kern=(A, R, S))
    return d


def curves(m, label, line, x):
    """(label, ordinates) of the curves of one call, whose abscissae are x."""
    gx, gy, lab = line
    gx, gy = m.np.asarray(gx), m.np.asarray(gy)
    n = 1 if gy.ndim == 1 else gy.shape[1]
    m.true(label + ': points', gy.shape[0] == len(x))
    m.eq(label + ': abscissa', list(gx.reshape(-1)), [v for v in x for _ in range(n)])
    labs = list(lab) if isinstance(lab, list) else [lab]
    m.true(label + ': one label for each curve', len(labs) == n)
    return [(la, [gy[p] if gy.ndim == 1 else gy[p, i] for p in range(len(x))]) for i, la in enumerate(labs[:n])]


def number(prefix):
    f = 1.0
    k = re.search(r'(\d+\.?\d*)', prefix)
    if k:
        f = float(k.group(1))
    return -f if '-' in prefix else f


def real(m, v):
    return v.re if m.sym and hasattr(v, 're') else (v.real if hasattr(v, 'real') else v)


def judge(m, cp, pat, figs):
    A, R, S = cp.kern
    x = list(cp.x)
    mu = [m.const(v) if m.sym else float(v) for v in MU]
    seen = {(k, c): [] for k in 'ar' for c in (1, 2, 3, 4)}
    for name, fig in figs.items():
        kind = 'a' if '/angular_kernels/' in name else 'r'
        c = re.search(r'/cc_contribution_(\d)_', name)
        m.true('contribution in the file name', c is not None)
        m.true('file of this triad', name.endswith('_SN_n-11_-12_-13_l1_2_3_m4_-5_6.png') and name.startswith('figure_output/profiles_isolated_mode_triads/one/two/rot_37/'))
        c = int(c.group(1))
        for i, ax in enumerate(sorted(fig.axes, key=lambda a: a.pos[0])):
            if i == 0:
                m.true('label of the ordinate', f'({c})' in ax.set.get('y', ''))
            m.true('abscissa named', ax.set.get('x') == (r'$\mu$' if kind == 'a' else 'r / R'))
            if kind == 'r':
                m.true('shaded', len(ax.shade) == 1 and [bool(v) for v in ax.shade[0][1]] == list(pat))
            for line in ax.lines:
                one = f'{"angular" if kind == "a" else "radial"} kernel of contribution {c}'
                cs = curves(m, one, line, mu if kind == 'a' else x)
                fam, order, base = set(), [], None
                for la, y in cs:
                    if kind == 'a':
                        nm = tokens(la, A_TOK)
                        first = min(la.index(t) for t, _ in A_TOK if t in la)
                        pre = la[:first]
                        sin, mul_mu = 'dfrac' in pre and r'\sqrt{1 - \mu^2}' in la, r'\mu' in pre
                        f = number(re.sub(r'\\dfrac|\\left|\\,', '', pre))
                        f = m.const(Fraction(f)) if m.sym else f
                        m.true(one + ': three functions', len(nm) == 3)
                        want = [f * A[nm[0]][0][p] * A[nm[1]][1][p] * A[nm[2]][2][p] / (SIN[p] if sin else 1) * (MU[p] if mul_mu else 1) if m.sym else
                                f * A[nm[0]][0][p] * A[nm[1]][1][p] * A[nm[2]][2][p] / (float(SIN[p]) if sin else 1) * (float(MU[p]) if mul_mu else 1) for p in range(3)]
                        for p in range(3):
                            m.eq(f'{one}: {la}', real(m, y[p]), want[p])
                        fam.add((tuple(sorted(nm)), int(sin)))
                        m.true(one + ': no cosine', not mul_mu)
                    else:
                        whole = la if 'epsilon' in la else ax.set.get('title', '') + la
                        m.true(one + ': scale', r'$\,\left(\dfrac{{r^3}}{{\epsilon}}\right)$' in whole)
                        whole = whole.replace(r'$\,\left(\dfrac{{r^3}}{{\epsilon}}\right)$', '')
                        head, _, body = whole.partition('[')
                        st, nm = tuple(sorted(tokens(head, S_TOK))), tokens(body, R_TOK)
                        m.true(one + ': three functions', len(nm) == 3)
                        r = [v * S['R'] for v in x]
                        val = {'P': S['P'], 'rho': S['rho'], 'g': [v - 1 for v in S['G']], 'g2': [(v - 1) * (v - 1) for v in S['G']], 'ad': [a * b for a, b in zip(S['rho'], S['ad'])],
                               'p1': S['p1'], 'p2': S['p2'], 'p3': S['p3'], 'r1': r, 'r2': [v * v for v in r], 'r3': [v * v * v for v in r]}
                        for p in range(3):
                            want = r[p] * r[p] * r[p] / S['E'] * R[nm[0]][0][p] * R[nm[1]][1][p] * R[nm[2]][2][p]
                            for s in st:
                                want = want * val[s][p]
                            if base is None:
                                base = factor(m, real(m, y[p]), want)
                            m.eq(f'{one}: {la}', real(m, y[p]), (base if base is not None else 1 if m.sym else real(m, y[p]) / want if want else 0) * want)
                        fam.add((tuple(sorted(nm)), st))
                    order.append(tuple(nm))
                m.true(one + ': one product in a panel', len(fam) == 1)
                if len(cs) > 1:
                    m.true(one + ': every ordering once', sorted(order) == sorted(set(itertools.permutations(order[0]))))
                elif len(set(order[0])) > 1:
                    m.true(one + ': every ordering once', False)
                seen[kind, c] += list(fam)
    for c in (1, 2, 3, 4):
        rad, ang = families(c)
        m.true(f'angular kernels of contribution {c}: the products of the coupling coefficient', set(seen['a', c]) == ang)
        want = {(r, st) for r in rad for st in WITH[c](r)}
        m.true(f'radial kernels of contribution {c}: the products of the coupling coefficient', set(seen['r', c]) == {(r, tuple(sorted(s))) for r, s in want})


def factor(m, y, want):
    """The constant factor of the curve."""
    if not m.sym:
        return y / want if abs(want) > 1e-6 else None
    y, want = m.const(1) * y, m.const(1) * want
    (yn, yd), (wn, wd) = poly.ratnorm(y.rz), poly.ratnorm(want.rz)
    p, q = poly._pmul(yn, wd), poly._pmul(wn, yd)
    if p and p.keys() == q.keys():
        k = next(iter(p))
        f = Fraction(p[k]) / Fraction(q[k])
        if all(Fraction(p[t]) == f * Fraction(q[t]) for t in p):
            return m.const(f)
    return m.const(1)


def cases(tier):
    T = dict(quick=250, thorough=900)[tier]
    return [Case(f'{w}, kernels', c33.whole(w, False, (attributes, judge)), stubs, seconds=T, bounds='3 radii, 3 colatitudes') for w in ('solver', 'profile')]
