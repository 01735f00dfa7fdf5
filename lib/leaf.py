"""Driving one solver leaf pair of IKBT on hand-made equation lists and judging what it answers, numerically."""
import math
import mc

_ns = {}


def ns():
    """the modules under test, imported once, quietly"""
    if not _ns:
        with mc.quiet():
            import sympy as sp
            import b3
            import ikbtbasics.kin_cl as kc
            import ikbtbasics.ik_classes as ik
            import ikbtleaves.algebra_solver as alg
            import ikbtleaves.sincos_solver as sc
            import ikbtleaves.sinANDcos_solver as sac
            import ikbtleaves.tan_solver as tan
            import ikbtleaves.two_eqn_m7 as two
            import ikbtleaves.rank_leaf as rk
        _ns.update(sp=sp, b3=b3, kc=kc, ik=ik)
        _ns['leaves'] = {'algebra': (alg.algebra_id, alg.algebra_solve), 'sincos': (sc.sincos_id, sc.sincos_solve),
                         'sinandcos': (sac.sinandcos_id, sac.sinandcos_solve), 'tan': (tan.tan_id, tan.tan_solve),
                         'simu': (two.simu_id, two.simu_solver)}
        _ns['rank'] = rk.rank
        sy = {}
        for n in ('th_1 th_2 th_3 th_12 d_1 d_3 l_1 l_2 l_3 Px Py Pz r_11 r_12 r_13 r_21').split():
            sy[n] = sp.Symbol(n)
        _ns['sy'] = sy
    return _ns


VALS = {'th_2': 0.83, 'th_12': 1.47, 'l_1': 0.71, 'l_2': -1.35, 'l_3': 0.43, 'r_11': 0.29, 'r_12': -0.57, 'r_13': 0.81, 'r_21': 0.37,
        'th_3': -0.64, 'd_3': 0.92}


def run_leaf(kind, target, unknowns, eqs1, eqs2=(), warm=()):
    """unknowns: [(name, solved)]; eqs: [(lhs, rhs)] sympy.  Returns dict(status=, u=, R=, unknowns=)."""
    n = ns()
    b3, kc, ik = n['b3'], n['kc'], n['ik']
    us = []
    u = None
    for name, solved in unknowns:
        k = kc.unknown(n['sy'][name])
        k.solved = solved
        if solved:
            k.solutions, k.nsolutions = [n['sp'].Symbol('known')], 1
        us.append(k)
        if name == target:
            u = k
    R = ik.Robot()
    bb = b3.Blackboard()
    bb.set('curr_unk', u)
    bb.set('unknowns', us)
    bb.set('Robot', R)
    bb.set('Tm', None)
    bb.set('eqns_1u', [kc.kequation(a, b) for a, b in eqs1])
    bb.set('eqns_2u', [kc.kequation(a, b) for a, b in eqs2])
    bb.set('eqns_3pu', [])

    def mk(k):
        nodes = [c() for c in n['leaves'][k]]
        for x in nodes:
            x.Name = k
            x.BHdebug = False
        return b3.Sequence(nodes)
    if kind == 'ranked':
        rk = n['rank']()
        rk.Name = 'rank'
        rk.BHdebug = False
        root = b3.Sequence([b3.OrNode([mk('tan'), mk('sincos')]), rk])
    else:
        root = mk(kind)
    t = b3.BehaviorTree()
    t.root = root
    st = t.tick('mc', bb)
    return dict(status=st, u=u, R=R, unknowns=us, tree=t, bb=bb)


def num(e, vals):
    """numeric value (complex) of a sympy expression"""
    sp = ns()['sp']
    e = sp.sympify(e)
    v = e.subs({ns()['sy'].get(k) or sp.Symbol(k): x for k, x in vals.items()})
    v = v.evalf()
    if v.free_symbols:
        raise ValueError('undefined symbol %s in %s' % (v.free_symbols, e))
    if v in (sp.zoo, sp.nan, sp.oo, -sp.oo):
        raise ValueError('%s evaluates to %s' % (e, v))
    return complex(v)


def fill(eqs, free, vals):
    """choose the value of each equation's free symbol (in which it is affine) so that the equation holds"""
    vals = dict(vals)
    for (l, r), f in zip(eqs, free):
        if f is None:
            continue
        vals[f] = 0.0
        r0 = num(r - l, vals)
        vals[f] = 1.0
        r1 = num(r - l, vals)
        if abs(r1 - r0) < 1e-12:
            raise ValueError('not affine in %s' % f)
        vals[f] = (-r0 / (r1 - r0)).real
    return vals


def real_ok(v):
    return abs(v.imag) < 1e-6


def same_angle(a, b, tol=1e-5):
    return abs(math.sin((a - b) / 2)) < tol


def judge(u, eqs, free, target, points, base=None, angular=True, unsolved=(), must_all=True):
    """None or a description: the true value must be among the solutions, every real solution must satisfy every
    equation, no solution may mention the unknown itself or an unsolved one."""
    sp = ns()['sp']
    sols = list(u.solutions)
    if not sols:
        return 'claimed but no solution given'
    if u.nsolutions != len(sols):
        return 'nsolutions is %s but there are %d solutions' % (u.nsolutions, len(sols))
    for s in sols:
        names = {x.name for x in sp.sympify(s).free_symbols}
        if target in names:
            return 'solution contains its own unknown: %s' % s
        if names & set(unsolved):
            return 'solution contains an unsolved unknown: %s' % s
    for u0 in points:
        vals = dict(VALS)
        vals.update(base or {})
        vals[target] = u0
        vals = fill(eqs, free, vals)
        vv = {k: v for k, v in vals.items() if k != target and k not in unsolved}
        hit = False
        for s in sols:
            try:
                x = num(s, vv)
            except ValueError as e:
                return 'at %s=%s: %s' % (target, u0, e)
            if not real_ok(x):
                continue
            x = x.real
            if (same_angle(x, u0) if angular else abs(x - u0) < 1e-6):
                hit = True
            if must_all:
                w = dict(vals)
                w[target] = x
                for l, r in eqs:
                    res = num(r - l, w)
                    if abs(res) > 1e-5:
                        return 'at %s=%s the solution %s = %.6g leaves residual %.3g in %s = %s' % (target, u0, s, x, abs(res), l, r)
        if not hit:
            return 'at %s=%s the true value is not among the solutions %s' % (target, u0, sols)
    return None


def outcome(kind, target, unknowns, eqs1, eqs2=(), seconds=60):
    r = mc.guarded(run_leaf, kind, target, unknowns, eqs1, eqs2, seconds=seconds)
    return r


def coefs():
    n = ns()
    sp, s = n['sp'], n['sy']
    l1, l2 = s['l_1'], s['l_2']
    return [sp.Integer(1), sp.Integer(-1), sp.Integer(2), sp.Integer(-3), sp.Rational(1, 2), l1, -l1, l1 * l2, -l1 * l2,
            l1 + l2, -l1 - l2, s['r_11'], sp.sin(s['th_2']), -l1 * sp.cos(s['th_2']), sp.sqrt(2), 2 * l1 - 3]


def consts():
    n = ns()
    sp, s = n['sp'], n['sy']
    return [sp.Integer(0), sp.Integer(5), sp.Rational(-1, 2), s['l_3'], -s['l_3'], s['l_3'] + 2, s['r_12'] * s['l_1'],
            s['l_2'] * sp.sin(s['th_2'])]


def among(good, others, quick):
    """the equations good [(symbol, expression)] at every place among unusable ones: (label, equations, free symbols)"""
    import itertools
    s = ns()['sy']
    names = ('r_11', 'r_12', 'r_13', 'r_21', 'l_3')
    for nd in range(1, 4 if quick and len(good) > 1 else 6):
        for pos in itertools.permutations(range(nd + len(good)), len(good)):
            for rot in range(2 if quick else len(others)):
                eqs = list(zip(names, (others[rot:] + others[:rot])[:nd]))
                for p, e in sorted(zip(pos, good)):
                    eqs.insert(p, e)
                yield 'among %d others at %s, %d' % (nd, pos, rot), [(s[f], e) for f, e in eqs], [f for f, e in eqs]
