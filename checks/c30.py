"""C30 job histories: whatever solver and forward kinematics jobs ran before in a directory, to the end or not, a job leaves the
files it leaves in an empty directory, and those of other robots alone.  Every history to a depth, and a crash at every opening and
closing of an output file, run on the real programs (one process per job)."""
import ast
import itertools
import os
import runpy
import sys
import time
import traceback
import crash
import mc
import memo
import solverrun

Z = [0, 0, 0, 0]


def model(robot, values):
    """a robot description as the library gives it"""
    import sympy as sp
    th_1, th_2, d_2, l_1, a_2, h = sp.symbols('th_1 th_2 d_2 l_1 a_2 h')
    if values == 2:                          # the same name, another robot
        return model({'Arm': 'Arm2', 'Arm2': 'Arm_2', 'Arm_2': 'Arm'}[robot], 0)
    if robot == 'Arm':                       # parallel axes: a sum of angles, two solutions
        dh, js, vv, params = [[0, 0, h, th_1], [0, a_2, 0, th_2]], [th_1, th_2], [1] * 6, [h, a_2]
    elif robot == 'Arm2':                    # a twist angle that gets parameters of its own
        dh, js, vv, params = [[0, 0, h, th_1], [sp.Rational(7, 10), 0, l_1, th_2]], [th_1, th_2], [1] * 6, [h, l_1]
    else:                                    # 'Arm_2': a prismatic joint
        dh, js, vv, params = [[0, 0, h, th_1], [-sp.pi / 2, a_2, d_2, 0]], [th_1, d_2], [1, 0, 1, 1, 1, 1], [h, a_2]
    pv = {p: v for p, v in zip(params, (3, 2) if values else (1.5, 0.5))}
    return sp.Matrix(dh + [Z] * (6 - len(dh))), vv, params, pv, js


PROGRAM = {'S': 'ikSolver.py', 'F': 'fkOnly.py'}


def job(op, here=False):
    """op: (program, robot, values, crash point or None); in a process of its own.  (exit state, changes made to the directory)"""
    prog, robot, values, point = op
    if not here:
        rd, wr = os.pipe()
        pid = os.fork()
        if pid:
            os.close(wr)
            with os.fdopen(rd) as p:
                text = p.read()
            st = os.waitstatus_to_exitcode(os.waitpid(pid, 0)[1])
            return st, text
        os.close(rd)
    text, st = '', 1
    disk = None if here else crash.Disk(*(point or ()))
    try:
        solverrun.MODEL[:] = model(robot, values)
        import ikbtfunctions.ik_robots as ir
        if solverrun.LIBRARY is None:
            solverrun.LIBRARY = ir.robot_params
        solverrun.leaves()
        for m in list(sys.modules.values()):
            if getattr(m, 'robot_params', None) in (solverrun.LIBRARY, solverrun.given):
                m.robot_params = solverrun.given
        time.sleep = lambda s: None
        argv, sys.argv = sys.argv, [PROGRAM[prog], robot]
        try:
            with mc.quiet(), mc.deadline(240):
                runpy.run_path(os.path.join(mc.REPO, PROGRAM[prog]), run_name='__main__')
            st = 0
            if disk:
                disk.end()
        finally:
            sys.argv = argv
    except BaseException as e:  # noqa
        tb = traceback.extract_tb(e.__traceback__)[-1]
        text, st = '%s: %s @ %s:%s' % (type(e).__name__, str(e)[:200], os.path.basename(tb.filename), tb.name), 1
    if here:
        return st, text
    try:
        with os.fdopen(wr, 'w') as p:
            p.write(text or repr(disk.log))
    finally:
        os._exit(st)


def files():
    out = {}
    for d, _, fs in os.walk('.'):
        for f in fs:
            p = os.path.relpath(os.path.join(d, f), '.')
            if p.startswith(('CodeGen', 'LaTex')):
                with open(p, errors='replace') as h:
                    out[p] = h.read()
    return out


FRESH = {}


def fresh(op):
    """the files a job leaves in an empty directory"""
    k = op[:3]
    if k not in FRESH:
        with mc.scratch():
            before = files()
            st, text = job((*k, None))
            if st:
                return None, text
            after = files()
            FRESH[k] = ({p: t for p, t in after.items() if before.get(p) != t}, text)
    return FRESH[k]


def show(op):
    p, r, v, c = op
    if p == 'D':
        return 'delete the kinematics of %s' % r
    return '%s %s%s%s' % (PROGRAM[p], r, ' with other values' if v == 1 else ' changed' if v == 2 else '', ' dying before change %d of the directory%s' % (c[0], '' if c[1] is None else ', %g of the data before it written' % c[1]) if c else '')


def key(h):
    return '; '.join(show(o) for o in h)


def history(h):
    want, owner = {}, {}
    with mc.scratch():
        n = 0
        for k, op in enumerate(h):
            n += 1
            if op[0] == 'D':
                for f in os.listdir('fk_eqns'):
                    if f.startswith(op[1] + '_pickle'):
                        os.remove('fk_eqns/' + f)
                continue
            mine, text = fresh(op)
            if mine is None:
                return n, '%s fails in an empty directory: %s' % (show(op), text)
            st, text = job(op)
            if op[3]:
                if st not in (0, crash.DEAD):
                    return n, '%s: ended with %s (%s)' % (show(op), st, text)
                for p in (*mine, *files()):
                    if p in mine or p not in owner:
                        want.pop(p, None)       # in whatever state
                        owner[p] = None
                continue
            if st:
                return n, '%s fails after %s: %s' % (show(op), key(h[:k]) or 'nothing', text)
            want.update(mine)
            for p in mine:
                owner[p] = op
            got = files()
            for p, t in want.items():
                if got.get(p) != t:
                    i = next((i for i, (a, b) in enumerate(zip(str(got.get(p)).split('\n'), t.split('\n'))) if a != b), 'end')
                    return n, '%s: %s is not as %s leaves it in an empty directory (line %s)' % (
                        show(op), p, show(owner[p]), i)
            base = {p for p in got if os.path.basename(p) in ('IK_preamble.tex', 'IK_close.tex')}
            extra = set(got) - set(owner) - base
            if extra:
                return n, '%s leaves other files: %s' % (show(op), sorted(extra))
    return n, None


def histories(quick):
    ops = [('S', 'Arm', 0, None), ('F', 'Arm', 0, None), ('S', 'Arm2', 0, None), ('F', 'Arm2', 0, None), ('S', 'Arm', 1, None),
           ('S', 'Arm_2', 0, None), ('D', 'Arm', 0, None)]
    finals = [('S', 'Arm', 0, None), ('F', 'Arm', 0, None), ('S', 'Arm2', 0, None), ('F', 'Arm', 1, None)]
    for n in range(0, 3 if quick else 4):
        for pre in itertools.product(ops, repeat=n):
            for f in finals if n < 2 or not quick else finals[:1]:
                yield (*pre, f)
    for robot in ('Arm',) if quick else ('Arm', 'Arm2', 'Arm_2'):
        for p1, p2 in itertools.product('SF', repeat=2):
            for a, b in ((0, 2), (2, 0)):
                yield (p1, robot, a, None), ('D', robot, 0, None), (p2, robot, b, None)
                yield (p1, robot, a, None), ('D', robot, 0, None), (p2, robot, b, None), ('D', robot, 0, None), (p1, robot, a, None)
    for prog, robot in (('S', 'Arm'), ('F', 'Arm')) if quick else itertools.product('SF', ('Arm', 'Arm2', 'Arm_2')):
        for warm in (False, True):
            pre = (('F', robot, 0, None),) if warm else ()
            with mc.scratch():
                for o in pre:
                    job(o)
                log = ast.literal_eval(job((prog, robot, 0, None))[1])
            for point in crash.points(log, (0.0, 0.5) if quick else (0.0, 0.25, 0.5, 0.9)):
                for f in (('S', robot, 0, None), ('F', robot, 0, None)):
                    yield (*pre, (prog, robot, 0, point), f)


def run(ctx):
    import b3  # noqa
    memo.install()
    with mc.scratch():          # the simplifications, once, before the processes split up
        for p, r in itertools.product('SF', ('Arm', 'Arm2', 'Arm_2')):
            job((p, r, 0, None), here=True)
    for p, r, v in itertools.product('SF', ('Arm', 'Arm2', 'Arm_2'), (0, 1)):
        got, text = fresh((p, r, v, None))
        if got is None:
            ctx.violation('fresh ' + show((p, r, v, None)), text)
    if not ctx.viol:
        hs = list(dict.fromkeys(histories(ctx.quick)))
        if ctx.only:
            hs = [h for h in hs if key(h) == ctx.only]
        for h, (n, bad) in mc.pmap(history, hs, chunk=2):
            ctx.count('states')
            ctx.count('transitions', n)
            ctx.count('traces_validated_against_impl')
            if bad:
                ctx.violation(key(h), bad)
            elif ctx.cov['states'] % 30 == 1:
                ctx.sample(key(h))
    ctx.cov['exhaustive'] = True
    ctx.assumptions += ['jobs do not run at the same time', 'a crash stops the process between two changes it makes to the directory, of the data written since the last one a prefix arrived']
