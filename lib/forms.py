"""Vocabulary of solution formulas for synthetic graphs, the poses to evaluate them at, and the enumeration of graphs."""
import itertools
import graphs


def forms():
    """name -> (method, function of (dependency term) -> [solutions]); the shapes the solver leaves produce"""
    sp = graphs.ns()['sp']
    s = graphs.S
    Px, Py, Pz = s('Px'), s('Py'), s('Pz')
    l1, l2, a3, l4 = s('l_1'), s('l_2'), s('a_3'), s('l_4')
    r = {x: s(x) for x in graphs.POSE}
    F = {
        'alg': ('algebra', lambda t: [Px + l1 * t - sp.Rational(1, 2)]),
        'quot': ('algebra', lambda t: [(Py - l2 * t + 2) / l4]),
        'poly': ('algebra', lambda t: [(Px**2 + Py**2 * t) / (2 * l1**3)]),
        'atan': ('atan2(y,x)', lambda t: [sp.atan2(r['r_21'] * l1 + t, r['r_11'] / l2)]),
        'atan2': ('atan2(y,x)', lambda t: [sp.atan2(r['r_23'], -r['r_13'] + t), sp.atan2(-r['r_23'], r['r_13'] - t)]),
        'asin': ('arcsin', lambda t: [sp.asin((Pz - l1 + t / 9) / l2), sp.pi - sp.asin((Pz - l1 + t / 9) / l2)]),
        'acos': ('arccos', lambda t: [sp.acos((Py * r['r_33'] + t / 8) / l4), -sp.acos((Py * r['r_33'] + t / 8) / l4)]),
        'sac': ('sinANDcos', lambda t: [sp.atan2(Px, Py + t / 5) + b * sp.atan2(sp.sqrt(Px**2 + (Py + t / 5)**2 - l1**2), l1) for b in (1, -1)]),
        'sac2': ('sinANDcos', lambda t: [sp.atan2(l1, a3) + b * sp.acos((Pz + t / 7) / sp.sqrt(l1**2 + a3**2 + 1)) for b in (1, -1)]),
        'x2z2': ('x2z2 transform and arcsin', lambda t: [b * sp.asin((Px**2 + Py**2 + t / 6 - l1**2 - a3**2) / (2 * l1 * a3)) +
                                                      (sp.pi if b < 0 else 0) for b in (1, -1)]),
        'simu': ('simultaneous eqn', lambda t: [sp.atan2(r['r_12'] * l1 - a3 * Px * t, r['r_12'] * a3 + l1 * Px)]),
        'const': ('atan2(y,x)', lambda t: [sp.pi / 2 if t == 0 else t]),
        'zero': ('simultaneous eqn', lambda t: [sp.Integer(0) + t]),
        'sqrt': ('algebra', lambda t: [sp.sqrt(Px**2 + Pz**2 - t**2 / 9), -sp.sqrt(Px**2 + Pz**2 - t**2 / 9)]),
        'tan': ('algebra', lambda t: [Px / sp.tan(t + sp.Rational(1, 3)) + Py]),
        'sq': ('algebra', lambda t: [sp.sin(t)**2 + sp.cos(t + Px)**3 / sp.Rational(3, 2)]),
    }
    return F


def term(names, dd, depth):
    sp = graphs.ns()['sp']
    t = sp.Integer(0)
    for j in dd:
        x = sp.Symbol(names[j])
        t = t + (sp.sin(x) if (j + depth) % 2 else x / 3)
    return t


def graph(fs, deps, names=graphs.NAMES):
    F = forms()
    sols, methods = [], {}
    for i, (f, dd) in enumerate(zip(fs, deps)):
        m, fn = F[f]
        ss = [e for e in fn(term(names, dd, i))]
        sols.append((names[i], ss))
        methods[names[i]] = m
    return sols, methods


def poses():
    """in reach of most formulas, out of reach of some, out of reach of nearly all"""
    import math
    out = []
    for p, q in (((0.52, 0.31, 0.64), 0.5), ((0.93, -0.88, 1.21), 2.1), ((-3.1, 2.7, -4.4), -1.1), ((0.05, 0.02, 0.1), 3.0)):
        c, s = math.cos(q), math.sin(q)
        c2, s2 = math.cos(0.7 - q), math.sin(0.7 - q)
        Rm = [[c, -s * c2, s * s2], [s, c * c2, -c * s2], [0.0, s2, c2]]
        out.append([Rm[i] + [p[i]] for i in range(3)] + [[0.0, 0.0, 0.0, 1.0]])
    return out


def pose_vals(T):
    v = {'r_%d%d' % (i + 1, j + 1): complex(T[i][j]) for i in range(3) for j in range(3)}
    v.update(Px=complex(T[0][3]), Py=complex(T[1][3]), Pz=complex(T[2][3]))
    return v


def columns(names):
    """the generated code lists the unknowns of a solution in alphabetical order of their versions"""
    return sorted(names, key=lambda x: x + 'v1')


def expected(sols, T, pars):
    vals = {**pose_vals(T), **{k: complex(v) for k, v in pars.items()}}
    cols = columns([x for x, _ in sols])
    return [tuple(b[c] for c in cols) for b in graphs.branches(sols, vals)]


ROBOTS = ['Puma', 'Raven-II', 'my_arm', 'test: Wrist', '6R arm', 'KR16', 'a.b']


def cases(k, quick):
    F = list(forms())
    if k <= 2:
        for fs in itertools.product(F, repeat=k):
            for deps in itertools.product(*[list(graphs.subsets(i)) for i in range(k)]):
                yield fs, deps
        return
    short = ['asin', 'atan2', 'alg', 'sac', 'const', 'acos']
    for fs in itertools.product(short[:4] if quick else short + ['x2z2', 'simu'], repeat=k):
        alld = list(itertools.product(*[list(graphs.subsets(i)) for i in range(k)]))
        if quick and k >= 3:
            alld = [alld[0], alld[-1]] + ([d for d in alld if sum(map(len, d)) == 2] if k == 3 else [])
        for deps in dict.fromkeys(alld):
            yield fs, deps


def big(ks):
    """many versions: 2^k, of unknowns in a chain, a star and independent of each other"""
    fill = ['asin', 'atan2', 'acos', 'sac', 'sqrt', 'sac2', 'asin']
    for k in ks:
        for deps in ([()] * k, [()] + [(i,) for i in range(k - 1)], [()] + [(0,)] * (k - 1)):
            yield tuple(fill[:k]), tuple(tuple(d) for d in deps)
