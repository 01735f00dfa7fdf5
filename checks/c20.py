"""C20: the forward kinematics cache.  Every history of runs, changes of the robot's description, deletions and crashes (at
every file operation, with every class of torn write), each replayed on the real kinematics_pickle in a scratch directory;
after every history the next run must give what a fresh computation gives, or refuse a changed DH table."""
import itertools
import os
import pickle
import shutil

import sympy as sp
import crash
import mc
import memo

th_1, th_2, d_2, l_1, a_1, h, l_9 = sp.symbols('th_1 th_2 d_2 l_1 a_1 h l_9')
Z = [0, 0, 0, 0]


def describe(which, robot):
    """a robot description as ik_robots gives it: [dh, vv, params, pvals, unknowns]"""
    import ikbtbasics.kin_cl as kc
    if robot == 'planar':                     # two parallel axes: has a sum of angles unknown
        dh = [[0, 0, h, th_1], [0, a_1, 0, th_2]]
        us, vv, params = [th_1, th_2], [1, 1, 1, 1, 1, 1], [h, a_1]
    elif robot == 'twist':                    # a general twist angle: two derived parameters
        dh = [[0, 0, h, th_1], [a_1, 0, 0, th_2]]
        us, vv, params = [th_1, th_2], [1, 1, 1, 1, 1, 1], [h, a_1]
    else:                                     # 'slide'
        dh = [[0, 0, h, th_1], [-sp.pi / 2, a_1, d_2, 0]]
        us, vv, params = [th_1, d_2], [1, 0, 1, 1, 1, 1], [h, a_1]
    pvals = {h: 2, a_1: 1}
    if which == 'values':
        pvals = {h: 7, a_1: 3}
    if which == 'fewer':                      # a value was taken out, and a further parameter is declared
        params, pvals = params + [l_9], {'planar': {h: 0}, 'twist': {}}.get(robot, {h: 2})
    if which == 'dh':
        dh[0][2] = l_9
        params, pvals = [l_9, a_1], {l_9: 2, a_1: 1}
    unk = []
    for i, s in enumerate(us):
        u = kc.unknown(s)
        u.n = i + 1
        unk.append(u)
    return sp.Matrix(dh + [Z] * (6 - len(dh))), vv, params, pvals, unk


def use(name, robot, which):
    """what every program of IKBT does to get its kinematics"""
    import ikbtbasics.ik_classes as ik
    dh, vv, params, pvals, unk = describe(which, robot)
    M, R, U = ik.kinematics_pickle(name, dh, params, pvals, vv, unk, False)
    ik.check_the_pickle(M.DH, dh)
    return M, R, U


def summary(res):
    M, R, U = res
    eq = [(m.Td, m.Ts, [repr(e) for e in m.auxeqns]) for m in R.mequation_list]
    return {'DH': M.DH, 'vv': list(M.vv), 'params': list(M.params),
            'pvals': sorted((str(k), str(v)) for k, v in M.pvals.items()),
            'T_06': M.T_06, 'J66': M.J66, 'Td/Ts': eq, 'links': list(M.Ts),
            'aux': [repr(e) for e in R.kequation_aux_list],
            'unknowns': [(u.symbol, u.n, u.solved, list(u.solutions), u.readytosolve) for u in U],
            'R.Mech': R.Mech is M, 'name': R.name}


def crash_run(name, robot, which, at, frac):
    """run in a child process, which dies at the crash point without any clean-up of Python's own; without a crash point:
    returns the changes the run makes to the directory"""
    rd, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        log = []
        try:
            os.close(rd)
            disk = crash.Disk(at, frac)
            dn = os.open(os.devnull, os.O_WRONLY)
            os.dup2(dn, 1)
            try:
                use(name, robot, which)
            except BaseException:
                pass
            disk.end()
            log = disk.log
        finally:
            with os.fdopen(wr, 'wb') as f:
                pickle.dump(log, f)
            os._exit(0)
    os.close(wr)
    with os.fdopen(rd, 'rb') as f:
        data = f.read()
    os.waitpid(pid, 0)
    return pickle.loads(data) if data else None


FRESH = {}


def fresh(name, robot, which):
    k = (name, robot, which)
    if k not in FRESH:
        with mc.scratch():
            shutil.rmtree('fk_eqns')
            r = mc.guarded(use, name, robot, which)
            FRESH[k] = ('ok', summary(r[1])) if r[0] == 'ok' else r
    return FRESH[k]


def same(a, b):
    for k in a:
        if a[k] != b[k]:
            return '%s is %s, freshly computed %s' % (k, str(a[k])[:160], str(b[k])[:160])
    return None


def history(item):
    """ops: ('run', which) ('crash', which, at, frac) ('rm',) ('other', which)"""
    robot, ops = item
    with mc.scratch():
        shutil.rmtree('fk_eqns')
        held = None
        n = 0
        for op in ops:
            n += 1
            if op[0] == 'rm':
                shutil.rmtree('fk_eqns', ignore_errors=True)
                held = None
            elif op[0] == 'crash':
                crash_run('A', robot, op[1], op[2], op[3])
                if held is None:
                    held = '?' + op[1]         # nothing, or the complete result of that description
            else:
                nm = 'B' if op[0] == 'other' else 'A'
                r = mc.guarded(use, nm, robot, op[1])
                f = fresh(nm, robot, op[1])
                if f[0] != 'ok':
                    return n, 'a first run fails: %s' % (f[1],)
                if nm == 'A':
                    stale = held is not None and ((held.strip('?') == 'dh') != (op[1] == 'dh'))
                    if held is not None and held[0] == '?' and r[0] == 'ok' and not same(summary(r[1]), f[1]):
                        held = op[1]
                        continue
                    if stale:
                        if held[0] != '?' and (r[0] == 'ok' or 'SystemExit' not in r[1]):
                            return n, 'changed DH table: expected to be refused, got %s' % (r[1] if r[0] != 'ok' else 'a result')
                        if held[0] == '?' and r[0] != 'ok' and 'SystemExit' in r[1]:
                            held = held[1:]
                            continue
                        if held[0] != '?':
                            continue
                    held = op[1] if held is None or held[0] == '?' else held
                if r[0] != 'ok':
                    return n, 'run %s fails: %s' % (op[1:], r[1])
                d = same(summary(r[1]), f[1])
                if d:
                    return n, d
        return n, None


NAMES = ['A', 'A_', 'A_1', 'A_2', 'A1', 'A-1', 'A.1', 'A 1', 'a', 'AA', 'BA', '_A', 'A_pickle', 'A_pickle.p', 'A_1_x', 'fk_eqns', '1', 'A.', 'R' * 60, 'R' * 61]
PAIRS = [(('planar', 'base'), ('planar', 'values')), (('planar', 'base'), ('slide', 'base'))]


def named(item):
    """two robots with names that look alike, in turn: each gets its own kinematics"""
    n1, n2, k = item
    (r1, w1), (r2, w2) = PAIRS[k]
    with mc.scratch():
        shutil.rmtree('fk_eqns')
        for n, (nm, rb, w) in enumerate(((n1, r1, w1), (n2, r2, w2), (n1, r1, w1), (n2, r2, w2))):
            r, f = mc.guarded(use, nm, rb, w), fresh(nm, rb, w)
            if f[0] != 'ok':
                return n + 1, 'a first run of %s fails: %s' % (nm, f[1])
            if r[0] != 'ok':
                return n + 1, '%s after %s: %s' % (nm, (n1, n2)[:n], r[1])
            d = same(summary(r[1]), f[1])
            if d:
                return n + 1, '%s: %s' % (nm, d)
    return 4, None


def dhcells(item):
    """one cell of the DH table differs from the stored one"""
    i, j, kind = item
    import ikbtbasics.ik_classes as ik
    base = sp.Matrix([[sp.Symbol('al_%d' % r), sp.Symbol('a_%d' % r), sp.Symbol('l_%d' % r), sp.Symbol('th_%d' % r)] for r in range(6)])
    if kind == 'zero':
        base[i, j] = 0
    m = base.copy()
    if kind == 'same':
        pass
    elif kind == 'rows':
        m = sp.Matrix(base[:5, :])
    else:
        m[i, j] = {'sym': sp.Symbol('q'), 'zero': sp.Symbol('q'), 'neg': -base[i, j], 'num': sp.pi / 2}[kind]
    out = []
    for x, y in ((base, m), (m, base)):
        r = mc.guarded(ik.check_the_pickle, x, y)
        out.append(r)
    want = 'ok' if kind == 'same' else 'quit'
    for r in out:
        got = 'ok' if r[0] == 'ok' else ('quit' if 'SystemExit' in r[1] else r[1])
        if got != want:
            return '%s expected, got %s' % (want, got)
    return None


def run(ctx):
    ctx.assumptions += ['a crash stops the process between two file operations or inside a write, of which a prefix arrived; '
                        'writes that were made are on the disk in order (no reordering by the file system)',
                        'robots of two moving joints stand for all: the cache does not look inside what it stores']
    memo.install()
    robots = ['planar', 'twist', 'slide']
    # the crash points of a first run, found by running it once and counting
    items = []
    for robot in robots:
        for w in ('base', 'values', 'fewer', 'dh'):
            for nm in 'AB':
                fresh(nm, robot, w)
        with mc.scratch():
            shutil.rmtree('fk_eqns')
            log = crash_run('A', robot, 'base', None, None)
        fr = [0.0, 0.001, 0.25, 0.5, 0.9, 0.999, 1.0] if ctx.quick else [i / 40 for i in range(41)] + [0.001, 0.999]
        points = crash.points(log, fr)
        ctx.sample({'robot': robot, 'changes a first run makes to the directory': [str(x) for x in log]})
        ctx.count('crash_points', len(points))
        runs = [('run', 'base'), ('run', 'values'), ('run', 'fewer'), ('run', 'dh'), ('other', 'base'), ('rm',)]
        crashes = [('crash', w, at, f) for w in ('base', 'dh') for at, f in points]
        # a crash in the very first run, then everything
        for c in crashes:
            for after in (('run', 'base'), ('run', 'values'), ('run', 'dh')) + (() if ctx.quick else (('run', 'fewer'),)):
                items.append((robot, (c, after)))
            if not ctx.quick:
                for c2 in crashes[::5]:
                    items.append((robot, (c, c2, ('run', 'base'))))
        # a crash while a complete cache is there (also: after its deletion)
        for c in crashes[::(3 if ctx.quick else 1)]:
            items.append((robot, (('run', 'base'), c, ('run', 'values'))))
            items.append((robot, (('run', 'base'), ('rm',), c, ('run', 'base'))))
        for n in (1, 2, 3) if ctx.quick else (1, 2, 3, 4):
            for h_ in itertools.product(runs, repeat=n):
                if h_[-1][0] != 'rm':
                    items.append((robot, h_))
    if ctx.only:
        items = [i for i in items if str((i[0], i[1])) == ctx.only]
    for it, (n, bad) in mc.pmap(history, items):
        ctx.count('states', n)
        ctx.count('transitions', n)
        ctx.count('traces_validated_against_impl')
        if bad:
            ctx.violation(str((it[0], it[1])), bad)
    ctx.sample({'history': [str(x) for x in items[-1][1]] if items else None, 'robot': items[-1][0] if items else None})
    nm = [(a, b, k) for a, b in itertools.permutations(NAMES, 2) for k in (0, 1)]
    for it, (n, bad) in mc.pmap(named, [i for i in nm if not ctx.only or ctx.only == 'named %s' % (i,)]):
        ctx.count('states', n)
        ctx.count('transitions', n)
        ctx.count('traces_validated_against_impl')
        if bad:
            ctx.violation('named %s' % (it,), bad)
    cells = [(0, 0, 'same'), (0, 0, 'rows')] + [(i, j, k) for i in range(6) for j in range(4) for k in ('sym', 'neg', 'num', 'zero')]
    for it, bad in mc.pmap(dhcells, cells):
        if ctx.only and ctx.only != 'dh %s' % (it,):
            continue
        ctx.count('states')
        ctx.count('dh_cells')
        if bad:
            ctx.violation('dh %s' % (it,), bad)
