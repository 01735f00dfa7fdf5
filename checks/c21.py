"""C21: sums of angles.  All histories (to a depth) of expressions offered to sum_of_angles_sub with one robot, all histories
of matrix equations offered to the sum_id leaf, and sum_of_angles_transform on DH tables with parallel axes: after each step
every equation must still hold at every joint configuration once the new unknowns get their defined values, each new unknown
is defined exactly once, listed once and unsolved, and sums of joint angles are gone."""
import itertools
import sympy as sp
import fk
import mc
import memo
import truth

th = sp.symbols('th_1:7')
a, b, phi = sp.symbols('l_1 l_2 phi')
ENVS = [dict(zip(th, v)) | {a: .7, b: -1.3, phi: .37} for v in ((.31, -.83, 1.27, 2.11, -1.71, .53), (-2.4, 1.1, .45, -.6, 2.9, -1.9))]


def args(quick):
    t = th
    out = [t[0], t[1], t[0] + t[1], t[1] + t[2], t[2] + t[3], t[0] + t[2], t[0] + t[1] + t[2], t[1] + t[2] + t[3],
           t[0] - t[1], t[1] - t[2], t[0] + t[1] - t[2], t[0] - t[1] + t[2], -t[0] - t[1], 2 * t[0], 2 * t[0] + t[1],
           t[0] + phi, t[0] + t[1] + phi, t[0] + sp.pi / 3, t[0] + t[1] + t[2] + t[3], t[3] + t[4] + t[5], t[4] + t[5]]
    return out


def exprs(quick):
    A = args(quick)
    out = []
    for x in A:
        out += [sp.sin(x), a * sp.cos(x) + b]
    for x, y in itertools.permutations(A[2:12] + [A[13]], 2):
        out.append(sp.sin(x) * a - sp.cos(y))
    for x in A[2:10]:
        out.append(sp.sin(x) * sp.cos(th[0]) + sp.cos(x) * sp.sin(th[0]) * b)
        out.append(a * x + sp.sin(x))                       # outside a sine as well
        out.append(sp.atan2(sp.sin(x), sp.cos(x)) if not quick else sp.sin(x) ** 2)
    return list(dict.fromkeys(out))


def fresh(n=6):
    import ikbtbasics.kin_cl as kc
    us = [kc.unknown(s) for s in th[:n]]
    for i, u in enumerate(us):
        u.n = i + 1
    return us


def listed(R, us, base):
    """the bookkeeping invariants; None or what is wrong"""
    sy = [u.symbol for u in us]
    if len(set(sy)) != len(sy):
        return 'an unknown is listed twice: %s' % (sy,)
    if sy[:len(base)] != base:
        return 'the joint unknowns changed: %s' % (sy,)
    defs = {}
    for e in R.kequation_aux_list:
        l = sp.sympify(e.LHS)
        if not l.is_Symbol or l in base:
            return 'not a definition of a new unknown: %s' % (e,)
        defs.setdefault(l, []).append(e)
    for l, d in defs.items():
        if len(d) > 1:
            return '%s is defined %d times: %s' % (l, len(d), d)
    for u in us[len(base):]:
        if u.symbol not in defs:
            return 'new unknown %s has no defining equation' % u
        if u.solved or u.solutions or u.nsolutions:
            return 'new unknown %s is not unsolved' % u
        if str(u.n) != str(u.symbol).split('_')[1]:
            return 'new unknown %s has index %s' % (u, u.n)
    for l in defs:
        if l not in sy:
            return 'defined %s is not an unknown' % l
    return None


def puresums(e, joints, allow):
    """arguments of sines/cosines in e that are sums of 2 or 3 distinct joint unknowns"""
    bad = []
    for f in sp.sympify(e).atoms(sp.sin, sp.cos):
        ts = sp.Add.make_args(f.args[0])
        if len(ts) in (2, 3) and all(t in joints for t in ts) and f.args[0] not in allow:
            bad.append(f)
    return bad


def sub_history(es):
    import ikbtbasics.ik_classes as ik
    R = ik.Robot()
    us = fresh()
    base = list(th)
    n = 0
    done = []
    for e in es:
        r = mc.guarded(ik.sum_of_angles_sub, R, e, us)
        n += 1
        if r[0] != 'ok':
            return n, '%s: %s' % (e, r[1])
        try:
            new, nj, ne = r[1]
        except Exception:
            return n, 'answer is not (expression, unknown, equation): %s' % (r[1],)
        done.append((e, new))
        bad = listed(R, us, base)
        if bad:
            return n, '%s -> %s: %s' % (e, new, bad)
        for env in ENVS:
            env2 = truth.define(R.kequation_aux_list, env)
            for q in R.kequation_aux_list:
                d = truth.differs(q.LHS, q.RHS, env2)
                if d:
                    return n, '%s -> %s: definition %s' % (e, new, d)
            for old, nw in done:
                d = truth.differs(old, nw, env2)
                if d:
                    return n, 'rewritten %s' % d
        left = puresums(new, [u.symbol for u in us], set())
        if left:
            return n, '%s -> %s still has %s' % (e, new, left)
        if nj is not None and nj not in us:
            return n, 'the answered unknown %s is not in the list' % nj
    return n, None


# ---- sum_id ------------------------------------------------------------------------------------
def matrices(quick):
    s, c = sp.sin, sp.cos
    t = th
    cells = [[s(t[0] + t[1])], [a * c(t[0] - t[1])], [s(t[1] - t[0]) + b], [c(t[1] + t[2]) * s(t[0] + t[1])],
             [s(t[0] + t[1] - t[2])], [s(t[0] + phi)], [c(2 * t[0])], [s(t[0] - t[1]) * c(t[0] + t[1])], [s(t[2] - t[3]), c(t[2] - t[3])],
             [s(t[0])], [s(t[1] + t[2] + t[3])], [a * s(t[2] + t[3]) + b * c(t[3])]]
    return [x for x in cells]


def sumid_history(item):
    """item: (cells left of equation 1, cells right, cells of a second matrix equation, predefined?)"""
    import b3
    import ikbtbasics.ik_classes as ik
    import ikbtbasics.kin_cl as kc
    import ikbtleaves.sum_id as si
    c1, c2, c3, pre = item
    M = matrices(True)
    env0 = ENVS[0]
    R = ik.Robot()
    us = fresh()
    base = list(th)
    if pre:
        with mc.quiet():
            ik.sum_of_angles_sub(R, sp.sin(th[0] + th[1]) * sp.cos(th[2] + th[3]), us)
    K = sp.symbols('k_0:24')
    truthful = []
    R.mequation_list = []
    pos = [(0, 0), (0, 3), (1, 1), (2, 2)]
    ki = iter(K)
    for left, right in ((c1, c2), (c3, None)):
        if left is None:
            continue
        Td, Ts = sp.zeros(4), sp.zeros(4)
        n = 0
        for side, cells in ((Td, left), (Ts, right)):
            if cells is None:
                continue
            for i in cells:
                for e in M[i]:
                    p = pos[n % 4] if side is Td else pos[(n + 1) % 4]
                    side[p] = e + (side[p] if side[p] != 0 else 0)
                    n += 1
        R.mequation_list.append(ik.kc.matrix_equation(Td, Ts))
    orig = [(m.Td.copy(), m.Ts.copy()) for m in R.mequation_list]
    bb = b3.Blackboard()
    bb.set('Robot', R)
    bb.set('unknowns', us)
    for k in ('eqns_1u', 'eqns_2u', 'eqns_3pu'):
        bb.set(k, [])
    t = b3.BehaviorTree()
    t.root = si.sum_id()
    steps, prev = 0, None
    for _ in range(8):
        r = mc.guarded(t.tick, 'x', bb)
        steps += 1
        if r[0] != 'ok':
            return steps, r[1]
        us = bb.get('unknowns')
        R = bb.get('Robot')
        bad = listed(R, us, base)
        if bad:
            return steps, bad
        for env in ENVS:
            env2 = truth.define(R.kequation_aux_list, env)
            for q in R.kequation_aux_list:
                d = truth.differs(q.LHS, q.RHS, env2)
                if d:
                    return steps, 'definition %s' % d
            for (oTd, oTs), m in zip(orig, R.mequation_list):
                for o, w in zip(list(oTd) + list(oTs), list(m.Td) + list(m.Ts)):
                    if o != w:
                        d = truth.differs(o, w, env2)
                        if d:
                            return steps, 'rewritten %s' % d
        now = str([(m.Td, m.Ts) for m in R.mequation_list]) + str(us)
        if now == prev:
            break
        prev = now
    # at rest: no sum of two joint angles is left
    left = [f for m in R.mequation_list for e in list(m.Td) + list(m.Ts) for f in
            puresums(e, [u.symbol for u in us], set()) if len(f.args[0].args) == 2]
    # (th_12 cannot stand for th_1 + th_2 when it already stands for th_1 - th_2)
    taken = {str(e.LHS) for e in R.kequation_aux_list}
    left = [f for f in left if 'th_' + ''.join(sorted(str(x)[3:] for x in f.args[0].args)) not in taken
            or any(e.RHS == f.args[0] for e in R.kequation_aux_list)]
    if left:
        return steps, 'sums not replaced: %s' % (left,)
    return steps, None


# ---- whole mechanisms --------------------------------------------------------------------------
def mechanism(spec):
    import ikbtbasics.ik_classes as ik
    import ikbtbasics.kin_cl as kc
    dh, vv, params, joints, pv = fk.symtable([(sp.sympify(r[0]), r[1], r[2], sp.sympify(r[3]) if r[2] == 'P' else r[3]) for r in spec])
    us = []
    for i, (s, k) in enumerate(joints):
        u = kc.unknown(s)
        u.n = int(str(s).split('_')[1])
        us.append(u)
    base = [u.symbol for u in us]

    def go():
        M = kc.mechanism(dh, params, vv)
        M.forward_kinematics()
        R = ik.Robot(M, 'x')
        R.scan_for_equations(us)
        R.sum_of_angles_transform(us)
        return M, R
    with mc.scratch():
        r = mc.guarded(go, seconds=300)
    if r[0] != 'ok':
        return 1, r[1]
    M, R = r[1]
    bad = listed(R, us, base)
    if bad:
        return 1, bad
    n = 0
    for vals in itertools.islice(fk.grid(joints), 0, None, 7):
        env = {s: v for (s, k), v in zip(joints, vals)}
        env.update({k: v for k, v in pv.items()})
        T = fk.fk_num(fk.numrows(dh, env))[-1]
        env.update(truth.pose_env(T))
        env = truth.define(R.kequation_aux_list, env)
        for m in R.mequation_list:
            for i in range(3):
                for j in range(4):
                    n += 1
                    d = truth.differs(m.Td[i, j], m.Ts[i, j], env)
                    if d:
                        return n, d
        if n > 96 * 3:
            break
    left = [f for m in R.mequation_list for e in list(m.Td)[:12] + list(m.Ts)[:12] for f in
            puresums(e, base, set())]
    if left:
        return n, 'sums not replaced: %s' % (left[:3],)
    return n, None


def tables(quick):
    F = ('0', 0, '-', 0)
    R_ = lambda al, a=0, o=0: (al, a, 'R', o)
    P_ = lambda al, a=0: (al, a, 'P', '0')
    out = [
        [R_('0', 0, 1), R_('0', 1)],
        [R_('0', 0, 1), R_('-pi/2'), R_('0', 1)],
        [R_('0'), R_('-pi/2'), R_('0', 1), R_('0', 1)],
        [R_('0'), R_('-pi/2'), R_('pi', 1), R_('0', 1)],
        [R_('0'), R_('0', 1), R_('pi', 1)],
        [R_('0'), R_('pi', 1), R_('pi', 1)],
        [R_('0'), R_('0', 1), R_('0', 1), R_('0', 1)],
        [R_('0'), P_('0', 1), R_('0', 1)],
        [P_('0'), R_('0', 1), R_('0', 1)],
        [R_('0'), R_('pi/2'), R_('0', 1), R_('pi/2')],
    ]
    if not quick:
        k = [R_('0', 1), R_('-pi/2', 0, 1), R_('pi', 1), P_('0')]
        out += [list(x) for n in (2, 3) for x in itertools.product(k, repeat=n)]
        out += [[R_('0'), R_('-pi/2'), R_('0', 1), R_('0', 1), R_('pi/2'), R_('pi/2')]]
    return [s + [F] * (6 - len(s)) for s in out]


def run(ctx):
    memo.install()
    ctx.assumptions += ['truth at two generic joint configurations stands for an identity of the trigonometric polynomials',
                        'angles reach the leaves as sines and cosines of sums with coefficients 1 or -1 (others are left alone)']
    E = exprs(ctx.quick)
    hist = [(e,) for e in E]
    H = E[:len(args(True)) * 2:2] if ctx.quick else E
    hist += [(x, y) for x, y in itertools.product(E[0:42:2], E[1:42:2])]
    core = [sp.sin(th[0] + th[1]), sp.cos(th[0] + th[1] + th[2]), sp.sin(th[0] - th[1]), sp.cos(th[1] + th[2]) * sp.sin(th[1] + th[2] + th[3]),
            sp.sin(th[2] + th[3])]
    hist += list(itertools.product(core, repeat=3))
    if not ctx.quick:
        hist += list(itertools.product(core, repeat=4)) + [(x, y) for x in E for y in E[::3]]
    hist = list(dict.fromkeys(hist))
    if ctx.only:
        hist = [h for h in hist if 'sub %s' % (h,) == ctx.only]
    for it, (n, bad) in mc.pmap(sub_history, hist):
        ctx.count('states', n)
        ctx.count('transitions', n)
        ctx.count('traces_validated_against_impl')
        if bad:
            ctx.violation('sub %s' % (it,), bad)
    n = len(matrices(True))
    items = [((i,), None, None, p) for i in range(n) for p in (0, 1)]
    items += [((i,), (j,), None, p) for i in range(n) for j in range(n) for p in ((0,) if ctx.quick else (0, 1))]
    items += [((i,), None, (j,), 1) for i in range(n) for j in range(n)]
    items += [((i, j), None, None, 0) for i in range(n) for j in range(i)]
    if not ctx.quick:
        items += [((i,), (j,), (k,), p) for i in range(n) for j in range(n) for k in range(n) for p in (0, 1)]
    if ctx.only:
        items = [i for i in items if 'id %s' % (i,) == ctx.only]
    for it, (k, bad) in mc.pmap(sumid_history, items):
        ctx.count('states', k)
        ctx.count('transitions', k)
        ctx.count('traces_validated_against_impl')
        if bad:
            ctx.violation('id %s' % (it,), bad)
    tb = [t for t in tables(ctx.quick) if not ctx.only or ctx.only == 'dh %s' % (t,)]
    for it, (k, bad) in mc.pmap(mechanism, tb, chunk=1):
        ctx.count('states')
        ctx.count('equations_checked', k)
        ctx.count('traces_validated_against_impl')
        if bad:
            ctx.violation('dh %s' % (it,), bad)
    ctx.sample({'history': [str(e) for e in hist[-1]] if hist else None})
