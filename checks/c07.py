"""C07 forward kinematics and the eight matrix equations hold identically."""
import numpy as np
import fk
import fkspace
import mc


def build(spec):
    """the mechanism of the code under test for a table; (m, dh, joints, pv)"""
    import ikbtbasics.kin_cl as kc
    dh, vv, params, joints, pv = fkspace.make(spec)
    m = kc.mechanism(dh.copy(), list(params), list(vv))
    m.pvals = dict(pv)
    m.forward_kinematics()
    return m, dh, vv, joints, pv


def evaluate(mats, syms):
    """callable returning the matrices as numpy arrays (symbols may be absent)"""
    import sympy as sp
    fs = [sp.lambdify(syms, sp.Matrix(M), 'numpy', cse=True) for M in mats]
    return lambda vals: [np.array(f(*vals), dtype=float) for f in fs]


def check_fk(m, dh, joints, pv, extra=False):
    import sympy as sp
    allp = dict(pv)
    for k, v in fk.pvals_num({k: v for k, v in m.pvals.items() if k not in pv}).items():
        allp[k] = v
    psyms = sorted(allp, key=str)
    jsyms = [j for j, _ in joints]
    Tdsyms = None
    T1 = m.T_06.copy()
    links = [m.T_01, m.T_12, m.T_23, m.T_34, m.T_45, m.T_56]
    eqs = m.get_mequation_set()
    T2 = m.T_06
    for M, what in ((T1, 'T_06'), (T2, 'T_06 (expanded)')):
        left = {s.name for s in M.free_symbols} - {s.name for s in jsyms + psyms}
        if left:
            return 'the %s has undefined symbols %s' % (what, sorted(left)), 0
    rnames = ['r_%d%d' % (i, j) for i in (1, 2, 3) for j in (1, 2, 3)] + ['Px', 'Py', 'Pz']
    tsyms = [sp.Symbol(n) for n in rnames]
    if len(eqs) != 8:
        return '%d matrix equations, must be 8' % len(eqs), 0
    f1 = evaluate([T1, T2] + links, jsyms + psyms)
    side = []
    for e in eqs:
        side += [e.Td, e.Ts]
    f2 = evaluate(side, jsyms + psyms + tsyms)
    pn = [allp[p] for p in psyms]
    n = 0
    for vals in fk.grid(joints, extra):
        n += 1
        sub = dict(zip(jsyms, vals))
        sub.update(pv)
        rows = fk.numrows(dh, sub)
        Ts = fk.fk_num(rows)
        res = f1(list(vals) + pn)
        for M, what in zip(res, ['T_06', 'T_06 after the equation set was built'] + ['T_%d%d' % (i, i + 1) for i in range(6)]):
            want = Ts[-1] if what.startswith('T_06') else fk.link(*rows[int(what[2])])
            if M.shape != (4, 4) or not np.allclose(M, want, atol=1e-8):
                return '%s at %s is wrong by %.3g' % (what, vals, np.abs(M - want).max()), n
        T = Ts[-1]
        tv = [T[i, j] for i in range(3) for j in range(3)] + [T[i, 3] for i in range(3)]
        sides = f2(list(vals) + pn + tv)
        for k in range(8):
            a, b = sides[2 * k], sides[2 * k + 1]
            if not np.allclose(a, b, atol=1e-8):
                i, j = divmod(int(np.abs(a - b).argmax()), 4)
                return 'matrix equation %d element (%d,%d) is not an identity: %g vs %g at %s' % (
                    k + 1, i + 1, j + 1, a[i, j], b[i, j], vals), n
            # right side k must be the product of the links that were not moved to the left
            lo, hi = [(0, 6), (1, 6), (2, 6), (3, 6), (4, 6), (5, 6), (1, 5), (2, 4)][k]
            P = np.eye(4)
            for r in rows[lo:hi]:
                P = P @ fk.link(*r)
            if not np.allclose(b, P, atol=1e-8):
                return 'right side of matrix equation %d is not the product of links %d..%d' % (k + 1, lo + 1, hi), n
    return None, n


def check_num(m, joints, allp):
    """the library's own numeric FK agrees with the independent one"""
    return None


def work(spec):
    r = mc.guarded(lambda: _work(spec), seconds=300)
    if r[0] == 'exc':
        return r[1], 0
    return r[1]


def matrices(m):
    return [('T_06', m.T_06)] + [('link %d' % i, M) for i, M in enumerate([m.T_01, m.T_12, m.T_23, m.T_34, m.T_45, m.T_56])] + \
        [('Ts[%d]' % i, M) for i, M in enumerate(m.Ts)] + [('Jacobian', m.J66), ('DH', m.DH)]


def scanned(spec):
    """tables of at most three joints from the base, two of them parallel revolute axes: those with a sum of angles"""
    k = [r[2] for r in spec]
    n = len([x for x in k if x != '-'])
    if k[0] == '-' or n > 3 or '0.7' in [r[0] for r in spec] or sum(r[1] for r in spec) == n:
        return False
    return any(a == b == 'R' and y[0] in ('0', 'pi') for a, b, y in zip(k, k[1:], spec[1:])) or (n == 2 and spec[0][1] == 1)


def after_scan(m, vv, joints, pv):
    """building the robot's equations, rewriting sums of angles in them (as every start of the solver does) and editing one
    equation set leave the mechanism, and the other equations, as they were"""
    import ikbtbasics.ik_classes as ik
    import ikbtbasics.kin_cl as kc
    before = [(w, M.copy()) for w, M in matrices(m)]
    R = ik.Robot(m, 'mc')
    us = []
    for i, (j, _) in enumerate(joints):
        u = kc.unknown(j)
        u.n = i + 1
        us.append(u)
    R.scan_for_equations(us)
    R.sum_of_angles_transform(us)
    for (w, A), (_, B) in zip(before, matrices(m)):
        if A == B:
            continue
        extra = B.free_symbols - A.free_symbols
        if extra:
            return 'after the scan for sums of angles the %s of the mechanism contains %s' % (w, sorted(map(str, extra)))
        syms = sorted(A.free_symbols | B.free_symbols, key=str)
        f = evaluate([A, B], syms)
        for k in range(3):
            x, y = f([0.37 + 0.91 * k - 0.53 * i for i in range(len(syms))])
            if not np.allclose(x, y, atol=1e-8):
                return 'the scan for sums of angles changes the %s of the mechanism' % w
    # equations own their matrices
    es = m.get_mequation_set()
    keep = [(e.Td.copy(), e.Ts.copy()) for e in es]
    mk = [M.copy() for _, M in matrices(m)]
    for k, e in enumerate(es):
        for M in (e.Td, e.Ts):
            M[0, 0] = M[0, 0] + 17
        for q, (f, g) in enumerate(zip(es, keep)):
            if q > k and (f.Td != g[0] or f.Ts != g[1]):
                return 'editing matrix equation %d changes matrix equation %d' % (k + 1, q + 1)
    for (w, B), A in zip(matrices(m), mk):
        if A != B:
            return 'editing a matrix equation changes the %s of the mechanism' % w
    return None


def _work(spec):
    m, dh, vv, joints, pv = build(spec)
    bad, n = check_fk(m, dh, joints, pv, extra=len(joints) <= 2)
    if bad:
        return bad, n
    import ikbtbasics.kin_cl as kc
    bad = after_scan(m, vv, joints, pv) if scanned(spec) else None
    if bad:
        return bad, n
    allp = dict(pv)
    allp.update(fk.pvals_num({k: v for k, v in m.pvals.items() if k not in pv}))
    for vals in list(fk.grid(joints))[:3]:
        pose = dict(zip([j for j, _ in joints], vals))
        keep = dict(pose)
        T = np.array(kc.forward_kinematics_N(m, pose, dict(allp))).astype(float)
        sub = dict(pose)
        sub.update(pv)
        if not np.allclose(T, fk.fk_num(fk.numrows(dh, sub))[-1], atol=1e-8):
            return 'numeric forward kinematics wrong at %s' % (vals,), n
        if pose != keep:
            return 'numeric forward kinematics changed the pose it was given', n
    return None, n


def robot_specs(names):
    import ikbtfunctions.ik_robots as rb
    return names


def work_robot(name):
    def go():
        import sympy as sp
        import ikbtbasics.kin_cl as kc
        import ikbtfunctions.ik_robots as rb
        dh, vv, params, pvals, unk = rb.robot_params(name)
        m = kc.mechanism(dh.copy(), list(params), vv)
        m.pvals = dict(pvals)
        m.forward_kinematics()
        joints = [(u.symbol, 'R' if dh[:, 3].has(u.symbol) else 'P') for u in unk]
        syms = set().union(*[x.free_symbols for x in dh]) - {u.symbol for u in unk}
        pv = {}
        for i, s in enumerate(sorted(syms, key=str)):
            pv[s] = float(pvals[s]) if s in pvals and not isinstance(pvals[s], str) else 0.3 + 0.1 * i
        for k in list(m.pvals):
            if k not in pv and not isinstance(m.pvals[k], str):
                m.pvals.pop(k)
        return check_fk(m, dh, joints, pv)
    r = mc.guarded(go, seconds=400)
    return (r[1], 0) if r[0] == 'exc' else r[1]


def run(ctx):
    with mc.quiet():
        import ikbtbasics.kin_cl  # noqa
    specs = list(fkspace.expand(ctx.quick))
    robots = ['Puma', 'Wrist', 'Stanford', 'Chair_Helper', 'Sims11', 'Palm13'] if ctx.quick else \
        ['Puma', 'Wrist', 'Stanford', 'Chair_Helper', 'Sims11', 'Palm13', 'UR5', 'KR16', 'Craig417', 'Olson13',
         'Mackler13', 'Minder13', 'Axtman13', 'Raven-II', 'Parkman13', 'Frei13', 'Khat6DOF', 'KawasakiRS05L']
    with mc.scratch():
        for it, (bad, n) in mc.pmap(work_robot, robots, chunk=1):
            note(ctx, 'robot ' + it, bad, n)
        for it, (bad, n) in mc.pmap(work, specs[::-1], chunk=2):
            note(ctx, fkspace.show(it), bad, n)
    ctx.cov['exhaustive'] = True
    ctx.assumptions += ['link lengths and offsets are generic numbers (one per symbol)',
                        'three angles per revolute and three lengths per prismatic joint decide an identity that is '
                        'affine in cos/sin of each angle and in each length']


def note(ctx, name, bad, n):
    ctx.count('tables')
    ctx.count('states', n)
    ctx.count('transitions', n * 8)
    ctx.count('traces_validated_against_impl', n)
    if bad:
        ctx.violation(name, bad)
    elif ctx.cov['tables'] % 40 == 1:
        ctx.sample('%s: %d joint configurations' % (name, n))
