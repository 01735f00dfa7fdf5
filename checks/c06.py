"""C06 the symbolic and the numeric transform library agree with each other and with rigid-body geometry."""
import itertools
import math
import numpy as np
import fk
import mc

ANG = (0.0, 0.4, 1.9, -2.3, math.pi / 2, -math.pi / 2, math.pi, 3.5, -7.0)


def rx(t):
    c, s = math.cos(t), math.sin(t)
    return np.array([[1, 0, 0], [0, c, -s], [0, s, c]])


def ry(t):
    c, s = math.cos(t), math.sin(t)
    return np.array([[c, 0, s], [0, 1, 0], [-s, 0, c]])


def rz(t):
    c, s = math.cos(t), math.sin(t)
    return np.array([[c, -s, 0], [s, c, 0], [0, 0, 1]])


def h(R, p=(0, 0, 0)):
    T = np.eye(4)
    T[:3, :3] = R
    T[:3, 3] = p
    return T


def num(M):
    import sympy as sp
    if isinstance(M, sp.MatrixBase):
        return np.array(M.evalf().tolist(), dtype=float)
    return np.array(M, dtype=float)


def run(ctx):
    with mc.quiet():
        import sympy as sp
        import ikbtbasics.pykinsym as pk
    ang = ANG if ctx.quick else ANG + (1e-3, 2.9, -3.3, 10.0)

    def same(name, got, want, case):
        ctx.count('states')
        ctx.count('transitions')
        ctx.count('traces_validated_against_impl')
        if got[0] == 'exc':
            ctx.violation(name + ' raises', '%s%s: %s' % (name, case, got[1]))
            return
        g = got[1]
        try:
            g = num(g)
        except Exception as e:
            ctx.violation(name + ' value', '%s%s is not a numeric matrix: %s' % (name, case, e))
            return
        if g.shape != np.shape(want) or not np.allclose(g, want, atol=1e-9):
            ctx.violation(name + ' value', '%s%s = %s, must be %s' % (name, case, g.tolist(), np.asarray(want).tolist()))
        elif len(ctx.samples) < 6 and ctx.cov['states'] % 400 == 1:
            ctx.sample('%s%s' % (name, case))

    def call(name, *a):
        f = getattr(pk, name, None)
        if f is None:
            return ('exc', 'function is missing')
        return mc.guarded(f, *a, seconds=30)

    for ax, R in (('X', rx), ('Y', ry), ('Z', rz)):
        for t in ang:
            for suf in 'SN':
                same('Rot%s_%s' % (ax, suf), call('Rot%s_%s' % (ax, suf), t), R(t), (t,))
                same('Rot%s4_%s' % (ax, suf), call('Rot%s4_%s' % (ax, suf), t), h(R(t)), (t,))
    th = sp.Symbol('th')
    for ax, R in (('X', rx), ('Y', ry), ('Z', rz)):
        for n, W in (('Rot%s_S' % ax, R), ('Rot%s4_S' % ax, lambda t, R=R: h(R(t)))):
            M = call(n, th)
            for t in ang:
                same(n + '(symbol)', ('ok', M[1].subs(th, t)) if M[0] == 'ok' else M, W(t), (t,))
    for r, p, y in itertools.product(ang[:6] if ctx.quick else ang, repeat=3):
        W = rz(y) @ ry(p) @ rx(r)
        same('RPY3_N', call('RPY3_N', r, p, y), W, (r, p, y))
        same('RPY4_N', call('RPY4_N', r, p, y), h(W), (r, p, y))
    s3 = sp.symbols('r p y')
    M3, M4 = call('RPY3_S', *s3), call('RPY4_S', *s3)
    for r, p, y in itertools.product(ang[:4], repeat=3):
        W = rz(y) @ ry(p) @ rx(r)
        for n, M, WW in (('RPY3_S', M3, W), ('RPY4_S', M4, h(W))):
            same(n, ('ok', M[1].subs(dict(zip(s3, (r, p, y))))) if M[0] == 'ok' else M, WW, (r, p, y))
    vecs = [v for v in itertools.product((0, 1.5, -0.25), repeat=3)]
    for v in vecs:
        for suf in 'SN':
            same('Trans4_' + suf, call('Trans4_' + suf, list(v)), h(np.eye(3), v), v)
    sy = sp.symbols('al a d th')
    LS = call('Link_S', *sy)
    for al, a, d, t in itertools.product(ang[:6], (0, 0.7, -1.2), (0, 0.45, -2.0), ang[:6]):
        W = fk.link(al, a, d, t)
        same('Link_N', call('Link_N', al, a, d, t), W, (al, a, d, t))
        if a and d and al != t:
            same('Link_S', ('ok', LS[1].subs(dict(zip(sy, (al, a, d, t))))) if LS[0] == 'ok' else LS, W, (al, a, d, t))
    # inverse transforms of every product of two elementary transforms
    gens = [('X', rx, t) for t in ang[1:4]] + [('Y', ry, t) for t in ang[1:4]] + [('Z', rz, t) for t in ang[1:4]]
    for (n1, f1, t1), (n2, f2, t2) in itertools.product(gens, repeat=2):
        for v in vecs[::4]:
            T = h(f1(t1) @ f2(t2), v)
            W = np.linalg.inv(T)
            same('H_inv_N', call('H_inv_N', np.matrix(T)), W, (n1, t1, n2, t2, v))
            if t1 == t2 or not ctx.quick:
                same('H_inv_S', call('H_inv_S', sp.Matrix(T)), W, (n1, t1, n2, t2, v))
    A = sp.symbols('al_1 a_1 d_1 th_1 al_2 a_2 d_2 th_2')
    if LS[0] == 'ok':
        T = pk.Link_S(*A[:4]) * pk.Link_S(*A[4:])
        Hi = call('H_inv_S', T)
        for t in itertools.product((0.4, 1.9, -2.3), repeat=4):
            sub = dict(zip(A, (t[0], 0.7, 0.3, t[1], t[2], -0.4, 1.1, t[3])))
            W = np.linalg.inv(num(T.subs(sub)))
            same('H_inv_S(symbolic)', ('ok', Hi[1].subs(sub)) if Hi[0] == 'ok' else Hi, W, t)
    # compact notation: undoing the substitution gives the original back
    ths = sp.symbols('th_1 th_2 th_3 th_4 th_5 th_6')
    comp = {}
    for i in range(6):
        comp['s_%d' % (i + 1)] = sp.sin(ths[i])
        comp['c_%d' % (i + 1)] = sp.cos(ths[i])
    for i, j in itertools.combinations(range(6), 2):
        comp['s_%d%d' % (i + 1, j + 1)] = sp.sin(ths[i] + ths[j])
        comp['c_%d%d' % (i + 1, j + 1)] = sp.cos(ths[i] + ths[j])
    terms = [f(t) for f in (sp.sin, sp.cos) for t in ths]
    terms += [f(a + b) for f in (sp.sin, sp.cos) for a, b in itertools.combinations(ths, 2)]
    pairs = list(itertools.combinations_with_replacement(terms, 2))
    for i in range(0, len(pairs), 6):
        es = [a * b + sp.Symbol('l_1') * a for a, b in pairs[i:i + 6]]
        es += [sp.Integer(0)] * (6 - len(es))
        M = sp.Matrix(2, 3, es)
        r = call('notation_squeeze', M)
        ctx.count('states', len(es))
        ctx.count('transitions', len(es))
        if r[0] == 'exc':
            ctx.violation('notation_squeeze raises', r[1])
            continue
        back = r[1].subs({s: comp[s.name] for s in r[1].free_symbols if s.name in comp}, simultaneous=True)
        bad = [(x, y) for x, y in zip(M, back) if x != y]
        if bad:
            ctx.violation('notation_squeeze', 'shorthand for %s expands to %s' % bad[0])
        for x, y in zip(M, r[1]):
            for i in range(6):
                if y.has(sp.sin(ths[i])) or y.has(sp.cos(ths[i])):
                    ctx.violation('notation_squeeze incomplete', '%s left unsqueezed in %s' % (ths[i], y))
    # angle wrapping
    step = math.pi / (8 if ctx.quick else 64)
    k = -int(6 * math.pi / step)
    while k * step <= 6 * math.pi:
        for e in (0.0, 1e-3, -1e-3):
            t = k * step + e
            ctx.count('states')
            ctx.count('transitions')
            r = call('wrap_angle_N', t)
            if r[0] == 'exc':
                ctx.violation('wrap raises', r[1])
            else:
                w = float(r[1])
                if not (-math.pi - 1e-9 <= w <= math.pi + 1e-9):
                    ctx.violation('wrap range', 'wrap_angle_N(%r) = %r is not within half a turn' % (t, w))
                elif abs(math.sin((w - t) / 2)) > 1e-9:
                    ctx.violation('wrap value', 'wrap_angle_N(%r) = %r is a different angle' % (t, w))
        k += 1
    # approximate comparison: relative 1e-3, absolute 1e-5
    mags = (0.0, 1e-6, 1e-4, 0.01, 1.0, 50.0)
    for a, s, rel in itertools.product(mags, (1, -1), (0.0, 0.5, 0.9, 1.2, 3.0, -0.5, -0.9, -1.2, -3.0)):
        thr = max(1e-3 * a, 1e-5)
        x = s * a
        y = x + rel * thr
        want = abs(rel) * thr < max(1e-3 * max(abs(x), abs(y)), 1e-5)
        if abs(abs(rel) * thr - max(1e-3 * max(abs(x), abs(y)), 1e-5)) < 1e-9 * thr:
            continue
        for p, q in ((x, y), (y, x)):
            ctx.count('states')
            ctx.count('transitions')
            r = call('approx_N', p, q, False)
            if r[0] == 'exc' or bool(r[1]) != want:
                ctx.violation('approx', 'approx_N(%r, %r) is %s, must be %s' % (p, q, r[1], want))
    # a matrix that is not all numbers is refused, wherever the symbol is
    nums = [sp.Integer(0), sp.Integer(1), sp.Integer(-1), sp.Integer(7), sp.Float(0.25), sp.Float(-3.5)]
    for rows, cols in ((4, 4), (3, 3), (3, 1), (1, 4)):
        for at in [None] + list(itertools.product(range(rows), range(cols))):
            for e in ([sp.Integer(0)] if at is None else [ths[0], sp.sin(ths[1]), ths[2] + 1]):
                M = sp.Matrix(rows, cols, [nums[i % 6] for i in range(rows * cols)])
                if at is not None:
                    M[at] = e
                r = call('Num_check', M)
                ctx.count('states')
                ctx.count('transitions')
                if (r[0] == 'exc') != (at is not None) or r[0] == 'exc' and 'SystemExit' not in r[1]:
                    ctx.violation('Num_check', 'a %dx%d matrix with %s at %s: %s' % (rows, cols, e, at, r[1]))
    # velocity Jacobian of a velocity that is linear in the rates
    qd = sp.symbols('qd_1 qd_2 qd_3')
    x, y = sp.symbols('x y')
    coef = [sp.Integer(0), sp.cos(x), y * sp.sin(x) + 1]
    for cs in itertools.product(coef, repeat=3):
        v = sp.Matrix([cs[0] * qd[0] + cs[1] * qd[2], cs[2] * (qd[1] - qd[0]), cs[0] * qd[2]])
        w = sp.Matrix([cs[1] * qd[1], cs[0] * (qd[0] + qd[1]), cs[2] * qd[2] + qd[0]])
        W = sp.Matrix([[cs[0], 0, cs[1]], [-cs[2], cs[2], 0], [0, 0, cs[0]], [0, cs[1], 0], [cs[0], cs[0], 0], [1, 0, cs[2]]])
        r = call('ManipJacobian_S', v, w, sp.Matrix(qd))
        sub = {x: 0.3, y: 1.7}
        same('ManipJacobian_S', ('ok', r[1].subs(sub)) if r[0] == 'ok' else r, num(W.subs(sub)), cs)
    ctx.cov['exhaustive'] = True
    ctx.assumptions += ['three angles decide an identity that is affine in cos/sin of each angle; the grid has at least that many']
