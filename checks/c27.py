"""C27 the forward kinematics job (fkOnly.py) on every small robot of a bounded family: the python file it writes declares each
parameter and joint once and computes the pose of the arm at every point of a joint grid."""
import ast
import io
import contextlib
import itertools
import os
import runpy
import sys
import c19
import c25
import fk
import fkspace
import mc
import memo
import texmath

F = fkspace.FIX
B = ('0', 0, 'R', 1)      # the first row has a joint, as the library demands
QUICK_LIB = ['Arm_3', 'Wrist', 'Parkman13', 'Sims11', 'Palm13', 'Brad', 'Stanford', 'Olson13', 'ICP5p5_A21', 'Chair_Helper']


def cases(quick):
    al = ['0', 'pi/2', '-pi/2', 'pi', '0.7']
    kinds = [('R', 0), ('R', 1), ('P', '0')]
    rows = [(a, b, k, o) for a in al for b in (0, 1) for k, o in kinds]
    for n, r in enumerate(rows):
        for pos in range(6):
            if pos and (not quick or (n + pos) % 5 == 0):   # one joint is no robot
                yield (B, *[F] * (pos - 1), r, *[F] * (5 - pos)), 'values', 'Synth'
    tri = [('0', 1, 'R', 0), ('pi', 1, 'R', 1), ('pi/2', 0, 'R', 1), ('-pi/2', 1, 'P', '0'), ('0.7', 1, 'R', 1)]
    names = ['Synth', 'A_b', 'x']
    for n, t in enumerate(itertools.product(tri, repeat=2)):
        for v in ('values', 'none', 'some', 'zeros'):
            yield (*t, F, F, F, F), v, names[n % 3]
        yield (B, F, F, *t, F), 'values', 'Synth'
        yield (t[0], F, t[1], F, F, F), 'letters', 'Synth'
    for n, t in enumerate(itertools.product(tri[:4], repeat=3)):
        if not quick or n % 2 == 0:
            yield (*t, F, F, F), 'values', names[n % 3]
        if not quick or n % 8 == 1:
            yield (B, F, F, *t), 'none', 'Synth'
    # a twist angle that is a parameter, declared first or last, its name before or after those of its sine and cosine
    T7 = [('0.7', 0, 'R', 0), ('0.7', 1, 'R', 1), ('0.7', 1, 'P', '0')]
    for n, (t, w, o) in enumerate(itertools.product(T7, ('tw', 'al_2', 'l_9'), ('first', 'last'))):
        yield (B, t, F, F, F, F), 'twist %s %s' % (w, o), 'Synth'
        if not quick or n % 5 == 0:
            yield (B, t, tri[n % 4], F, F, F), 'twist %s %s' % (w, o), 'Synth'
            yield (B, F, F, t, T7[0], F), 'twist %s %s' % (w, o), 'Synth'
    if not quick:
        for n, t in enumerate(itertools.product(tri[:4], repeat=4)):
            yield (*t, F, F), 'values', names[n % 3]
    for n in c25.NAMES if not quick else QUICK_LIB:
        yield n, 'library', n


def key(c):
    return '%s, %s, called %s' % (c[0] if c[1] == 'library' else fkspace.show(c[0]), c[1], c[2])


def rename(dh, joints):
    """joints called A, B, C, ... as in the Wrist of the library"""
    import sympy as sp
    m = {s: sp.Symbol('ABCDEF'[i]) for i, (s, _) in enumerate(joints)}
    return dh.subs(m), [(m[s], k) for s, k in joints]


def declared(tree, name):
    return [i for i, st in enumerate(tree.body) if isinstance(st, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name for t in st.targets)]


def program(text, params, joints, unvalued):
    """the generated program with its joint (and, if it has none, parameter) values left open"""
    tree = ast.parse(text)
    for s in params + joints:
        where = declared(tree, s)
        if len(where) != 1:
            return None, '%s is assigned %d times' % (s, len(where))
        st = tree.body[where[0]]
        if s in joints or s in unvalued:
            if not isinstance(st.value, ast.Constant if s in joints else ast.Name):
                return None, '%s is given %s' % (s, ast.unparse(st.value))
            st.value = ast.Subscript(ast.Name('GIVEN', ast.Load()), ast.Constant(s), ast.Load())
    ast.fix_missing_locations(tree)
    return compile(tree, 'generated', 'exec'), None


def execute(prog, given):
    out = io.StringIO()
    ns = {'__name__': 'generated', 'GIVEN': given}
    with contextlib.redirect_stdout(out):
        exec(prog, ns)
    return ns, out.getvalue()


def wrong(text, dh, params, joints, pv, unvalued, aux, grid):
    """what is wrong with the generated program; number of poses looked at"""
    import sympy as sp
    prog, bad = program(text, [str(p) for p in params], [str(s) for s, _ in joints], [str(p) for p in unvalued])
    if bad:
        return bad, 0
    n = 0
    for q in grid:
        given = {str(s): v for (s, _), v in zip(joints, q)}
        given.update({str(p): pv[p] for p in unvalued})
        sub = dict(pv)
        sub.update(zip([s for s, _ in joints], q))
        T = fk.fk_num(fk.numrows(dh, sub))[-1]
        ns, out = execute(prog, given)
        n += 1
        M = ns.get('T06')
        if M is None or (M.rows, M.cols) != (4, 4):
            return 'T06 is %s' % M, n
        for i, j in itertools.product(range(4), range(4)):
            if abs(M.A[i][j] - T[i, j]) > 1e-9:
                return 'at %s T06[%d,%d] is %.9g, the arm is at %.9g' % (given, i, j, M.A[i][j], T[i, j]), n
        for e in aux:
            if isinstance(e.LHS, sp.Symbol) and str(e.LHS) in ns:
                w = complex(sp.sympify(e.RHS).subs(sub))
                if abs(ns[str(e.LHS)] - w) > 1e-9:
                    return 'at %s %s is %s' % (given, e, ns[str(e.LHS)]), n
        nums = [float(x) for x in out.split('\n', 1)[-1].split()]
        if '4 rows and 4 cols' not in out or len(nums) != 16 or any(abs(a - b) > 6e-4 for a, b in zip(nums, T.flatten())):
            return 'at %s the program prints %s' % (given, out), n
        P, Q = ns['Matrix']([[1, 2]]), ns['Matrix']([[3], [4]])
        if (P.A, P.rows, P.cols, Q.A, Q.rows, Q.cols) != ([[1, 2]], 1, 2, [[3], [4]], 2, 1) or M.A[3][3] != 1:
            return 'two Matrix objects: %s %s' % (P.__dict__, Q.__dict__), n
    return None, n


def job(name):
    """fkOnly.py in the current directory; returns the robot and the files written"""
    argv, sys.argv = sys.argv, ['fkOnly.py', name]
    try:
        g = runpy.run_path(os.path.join(mc.REPO, 'fkOnly.py'), run_name='__main__')
    finally:
        sys.argv = argv
    fs = sorted(os.listdir('CodeGen/Python'))
    if fs != ['FK_equations%s.py' % name]:
        raise AssertionError('python files written: %s' % fs)
    with open('CodeGen/Python/' + fs[0]) as f:
        py = f.read()
    with open('LaTex/fk_equations_%s.tex' % name) as f:
        tex = f.read()
    return g['R'], py, tex


def check(c):
    import sympy as sp
    import ikbtfunctions.ik_robots as ir
    import ikbtbasics.kin_cl as kc
    spec, mode, name = c
    memo.install()
    if mode == 'library':
        with mc.quiet():
            dh, vv, params, pvals, unk = ir.robot_params(name)
        joints = [(u.symbol, 'P' if dh[:, 2].has(u.symbol) else 'R') for u in unk]
        params, pv, handed = list(params), dict(pvals), pvals
    else:
        dh, vv, params, joints, pv = fkspace.make(spec)
        if mode == 'letters':
            dh, joints = rename(dh, joints)
        if mode.startswith('twist'):
            _, w, o = mode.split()
            w = sp.Symbol(w)
            dh = dh.subs(sp.Float('0.7'), w)
            params = [w] + params if o == 'first' else params + [w]
            pv[w] = 0.7
        if mode == 'zeros':              # whole numbers, zero among them
            pv = {p: (0, 3, -2)[i % 3] for i, p in enumerate(pv)}
        handed = {p: v for i, (p, v) in enumerate(pv.items()) if mode in ('values', 'letters', 'zeros') or mode.startswith('twist') or mode == 'some' and i % 2 == 0}

        def given(n):
            us = [kc.unknown(s) for s, _ in joints]
            for i, u in enumerate(us):
                u.n = i + 1
            return [dh.copy(), list(vv), list(params), dict(handed), us]
        ir.robot_params = given
    with mc.scratch():
        with mc.quiet():
            R, py, tex = job(name)
            twist = fk.pvals_num({k: v for k, v in R.Mech.pvals.items() if k not in params}, pv)
            if mode != 'library':
                again = job(name)          # from the stored kinematics
                if again[1] != py or again[2] != tex:
                    return 0, 'a second run, from the stored kinematics, writes other files'
        unvalued = [p for p in params if p not in handed]
        pv.update({p: 0.4 + 0.1 * i for i, p in enumerate(unvalued) if p not in pv})
        vals = [(0.4, 1.9) if k == 'R' else (0.7, -0.45) for _, k in joints] if len(joints) > 3 else None
        grid = itertools.product(*vals) if vals else fk.grid(joints)
        text, n = wrong(py, dh, params + [p for p in twist if p not in params], joints, {**pv, **twist}, unvalued, R.kequation_aux_list, grid)
        bad = texmath.well_formed(tex)
        if bad and not text:
            text = 'report: %s' % bad
        if not text and mode in ('values', 'none') and len(joints) < 3:
            try:
                text = c19.mech_part(tex, (R.Mech, joints, {**pv, **twist}, dh), 'report')
            except texmath.Bad as e:
                text = 'report: %s' % e
    return n, text


def work(c):
    r = mc.guarded(check, c, seconds=400)
    return (0, r[1]) if r[0] == 'exc' else r[1]


def run(ctx):
    import b3  # noqa
    cs = list(dict.fromkeys(cases(ctx.quick)))
    if ctx.only:
        cs = [c for c in cs if key(c) == ctx.only]
    for c, (poses, bad) in mc.pmap(work, cs[::-1], chunk=1):
        ctx.count('robots')
        ctx.count('states', poses)
        ctx.count('transitions', 2)
        ctx.count('poses', poses)
        ctx.count('traces_validated_against_impl')
        if bad:
            ctx.violation(key(c), bad)
        elif ctx.cov['robots'] % 40 == 1:
            ctx.sample('%s: %d poses' % (key(c), poses))
    ctx.cov['exhaustive'] = True
