"""C08 the symbolic Jacobian is the velocity map of the forward kinematics."""
import numpy as np
import fk
import fkspace
import mc
from c07 import build, evaluate, note


def check_j(m, dh, vv, joints, pv, extra=False):
    allp = dict(pv)
    allp.update(fk.pvals_num({k: v for k, v in m.pvals.items() if k not in pv}))
    psyms = sorted(allp, key=str)
    jsyms = [j for j, _ in joints]
    if m.J66.shape != (6, 6):
        return 'Jacobian has shape %s' % (m.J66.shape,), 0
    left = {s.name for s in m.J66.free_symbols} - {s.name for s in jsyms + psyms}
    if left:
        return 'Jacobian contains undefined symbols %s' % sorted(left), 0
    f = evaluate([m.J66], jsyms + psyms)
    pn = [allp[p] for p in psyms]
    n = 0
    for vals in fk.grid(joints, extra):
        n += 1
        sub = dict(zip(jsyms, vals))
        sub.update(pv)
        want = fk.jac_num(fk.fk_num(fk.numrows(dh, sub)), vv)
        got = f(list(vals) + pn)[0]
        if not np.allclose(got, want, atol=1e-8):
            i, j = divmod(int(np.abs(got - want).argmax()), 6)
            return 'Jacobian element (%d,%d) is %g, must be %g at %s' % (i + 1, j + 1, got[i, j], want[i, j], vals), n
    return None, n


def work(spec):
    def go():
        m, dh, vv, joints, pv = build(spec)
        return check_j(m, dh, vv, joints, pv, extra=len(joints) <= 2)
    r = mc.guarded(go, seconds=300)
    return (r[1], 0) if r[0] == 'exc' else r[1]


def work_robot(name):
    def go():
        import ikbtbasics.kin_cl as kc
        import ikbtfunctions.ik_robots as rb
        dh, vv, params, pvals, unk = rb.robot_params(name)
        vv = (list(vv) + [1] * 6)[:6]
        m = kc.mechanism(dh.copy(), list(params), vv)
        m.forward_kinematics()
        joints = [(u.symbol, 'R' if dh[:, 3].has(u.symbol) else 'P') for u in unk]
        syms = set().union(*[x.free_symbols for x in dh]) - {u.symbol for u in unk}
        pv = {s: 0.3 + 0.1 * i for i, s in enumerate(sorted(syms, key=str))}
        return check_j(m, dh, vv, joints, pv)
    r = mc.guarded(go, seconds=400)
    return (r[1], 0) if r[0] == 'exc' else r[1]


def run(ctx):
    with mc.quiet():
        import ikbtbasics.kin_cl  # noqa
    specs = list(fkspace.expand(ctx.quick))
    robots = ['Puma', 'Wrist', 'Stanford', 'Chair_Helper'] if ctx.quick else \
        ['Puma', 'Wrist', 'Stanford', 'Chair_Helper', 'UR5', 'KR16', 'Craig417', 'Olson13', 'Mackler13', 'Minder13',
         'Raven-II', 'Parkman13', 'Khat6DOF']
    with mc.scratch():
        for it, (bad, n) in mc.pmap(work_robot, robots, chunk=1):
            note(ctx, 'robot ' + it, bad, n)
        for it, (bad, n) in mc.pmap(work, specs[::-1], chunk=2):
            note(ctx, fkspace.show(it), bad, n)
    ctx.cov['transitions'] = ctx.cov['states'] * 6
    ctx.cov['exhaustive'] = True
    ctx.assumptions += ['link lengths and offsets are generic numbers (one per symbol)',
                        'a fixed table row counts as a revolute joint or as flagged by the joint type vector, as the '
                        'Jacobian always has six columns']
