"""Run the whole solver (ikSolver.py) on one robot description, watching it: after every leaf of the behavior tree, every
equation held anywhere must still be true at a set of reachable configurations, and a newly solved unknown must have its true
value among its solutions.  Then the generated Python is executed at the poses of a joint grid."""
import cmath
import glob
import math
import os
import runpy
import sys
import time

import fk
import mc
import truth


class Watch:
    """envs: configurations (dict symbol -> value) of joints, parameters and pose"""

    def __init__(self, envs, joints, lengths=(), maxbad=4):
        self.envs, self.joints = envs, set(joints)
        self.lengths = {str(s) for s in lengths}      # every other unknown is an angle
        self.good = set()            # equations already found true
        self.bad, self.ticks, self.equations, self.solved = [], 0, 0, {}
        self.full = None
        self.naux = -1
        self.maxbad = maxbad

    def fail(self, text):
        if len(self.bad) < self.maxbad and text not in self.bad:
            self.bad.append(text)

    def eqn(self, l, r, where):
        key = (l, r)
        if key in self.good:
            return
        self.good.add(key)
        self.equations += 1
        for env in self.full:
            t = truth.differs(l, r, env)
            if t:
                self.fail('%s: %s' % (where, t))
                return

    def after(self, leaf, bb):
        import sympy as sp
        R, unknowns = bb.get('Robot'), bb.get('unknowns')
        if R is None or not unknowns or not hasattr(R, 'mequation_list'):
            return
        self.ticks += 1
        if not self.ticks > 1:
            for k, v in fk.pvals_num(R.Mech.pvals).items():      # twist angles get symbols of their own
                for env in self.envs:
                    env.setdefault(k, v)
        aux = list(R.kequation_aux_list)
        if len(aux) != self.naux:
            self.naux = len(aux)
            self.full = [truth.define(aux, e) for e in self.envs]
            self.good = set()
        for m in R.mequation_list:
            for l, r in zip(m.Td, m.Ts):
                self.eqn(sp.sympify(l), sp.sympify(r), 'after %s, matrix equation' % leaf)
        for e in aux:
            self.eqn(sp.sympify(e.LHS), sp.sympify(e.RHS), 'after %s, auxiliary equation' % leaf)
        for name in ('eqns_1u', 'eqns_2u', 'eqns_3pu'):
            for e in bb.get(name) or []:
                self.eqn(sp.sympify(e.LHS), sp.sympify(e.RHS), 'after %s, list %s' % (leaf, name))
        for u in unknowns:
            if u.solved and u.symbol not in self.solved:
                self.solved[u.symbol] = list(u.solutions)
                self.solution(u, unknowns, leaf)
            elif u.symbol in self.solved:
                if not u.solved:
                    self.fail('after %s, %s is not solved any more' % (leaf, u.symbol))
                elif list(u.solutions) != self.solved[u.symbol]:
                    self.fail('after %s, the solutions of %s changed from %s to %s' % (leaf, u.symbol, self.solved[u.symbol], u.solutions))
                    self.solved[u.symbol] = list(u.solutions)

    def solution(self, u, unknowns, leaf):
        import sympy as sp
        s = u.symbol
        if not u.solutions or u.nsolutions != len(u.solutions):
            self.fail('after %s, %s has %s solutions, nsolutions is %s' % (leaf, s, u.solutions, u.nsolutions))
        later = {v.symbol for v in unknowns if not v.solved} | {s}
        for e in u.solutions:
            if sp.sympify(e).free_symbols & later:
                self.fail('after %s, the solution %s = %s needs unsolved unknowns' % (leaf, s, e))
                return
        for env in self.full:
            if s not in env:
                continue
            vals = []
            for e in u.solutions:
                try:
                    vals.append(truth.value(e, env))
                except truth.Undefined as x:
                    self.fail('after %s, the solution %s = %s uses %s, which is not defined' % (leaf, s, e, x))
                    return
            if not any(close(v, env[s], str(s) not in self.lengths) for v in vals):
                self.fail('after %s (%s), %s = %s: at a configuration where %s is %.6g the solutions are %s'
                          % (leaf, u.solvemethod, s, u.solutions, s, env[s], ['%.4g%+.1gi' % (v.real, v.imag) for v in vals]))
                return


def close(v, true, angle, tol=1e-5):
    if v != v or abs(v.imag) > tol:
        return False
    d = v.real - true
    if angle:
        d = math.atan2(math.sin(d), math.cos(d))
    return abs(d) < tol


def subclasses(c):
    for d in c.__subclasses__():
        yield d
        yield from subclasses(d)


def watched(real, w, box):
    def tick(self, tick):
        r = real(self, tick)
        box['bb'] = tick.blackboard
        w.after(getattr(self, 'Name', None) or type(self).__name__, tick.blackboard)
        return r
    return tick


def leaves():
    """import every leaf module, so that all node classes exist"""
    import importlib
    import pkgutil
    import ikbtleaves  # noqa
    for m in pkgutil.iter_modules([os.path.join(mc.REPO, 'ikbtleaves')]):
        try:
            importlib.import_module('ikbtleaves.' + m.name)
        except ImportError:
            pass


MODEL = []
LIBRARY = None


def given(n):
    """stands in for the robot library's robot_params"""
    import ikbtbasics.kin_cl as kc
    dh, vv, params, pvals, joints = MODEL
    us = [kc.unknown(s) for s in joints]
    for i, u in enumerate(us):
        u.n = i + 1
    return [dh, vv, list(params), dict(pvals), us]


def run(dh, vv, params, pvals, joints, envs, name='Synth', library=False, lengths=()):
    """the solver in the current (scratch) directory; returns (outcome, Watch, robot, unknowns)"""
    import b3
    import ikbtfunctions.ik_robots as ir
    global LIBRARY
    if LIBRARY is None:
        LIBRARY = ir.robot_params
    w = Watch(envs, joints, lengths)
    box = {}

    if not library:
        MODEL[:] = [dh, vv, params, pvals, joints]
    leaves()
    for m in list(sys.modules.values()):        # the solver's modules hand the function on to each other
        if getattr(m, 'robot_params', None) in (LIBRARY, given):
            m.robot_params = LIBRARY if library else given
    time.sleep = lambda s: None
    undo = []
    for c in subclasses(b3.Action):
        if 'tick' in c.__dict__:
            undo.append((c, c.__dict__['tick']))
            c.tick = watched(c.__dict__['tick'], w, box)
    argv = sys.argv
    sys.argv = ['ikSolver.py', name]
    try:
        g = runpy.run_path(os.path.join(mc.REPO, 'ikSolver.py'), run_name='__main__')
    finally:
        for c, t in undo:
            c.tick = t
        sys.argv = argv
    bb = box.get('bb')
    return w, (bb.get('Robot') if bb else None), (bb.get('unknowns') if bb else None), g


def configurations(dh, joints, pv, lengths=(), n=3):
    """n generic configurations: joints, parameters, pose"""
    vals = [[.37, 1.23, -2.1], [-.9, .44, 2.7], [2.2, -1.3, .81], [1.1, 2.9, -.45], [-2.4, .7, 1.6], [.15, -1.9, 2.3]]
    out = []
    for k in range(n):
        env = {s: (vals[i][(k + i) % 3] if s not in lengths else abs(vals[i][k % 3])) for i, s in enumerate(joints)}
        env.update(pv)
        T = fk.fk_num(fk.numrows(dh, env))[-1]
        env.update(truth.pose_env(T))
        out.append(env)
    return out


def rank(dh, vv, env, nj):
    """does the arm have as many independent motions as joints at this configuration?"""
    import numpy as np
    rows = fk.numrows(dh, env)
    J = fk.jac_num(fk.fk_num(rows), vv)
    return int(np.linalg.matrix_rank(J[:, nj], tol=1e-8))


def incomplete(fn, names, dh, joints, pv, aux, grid, base, lengths=()):
    """poses at which the generated function does not return the joint values: (count, first text)"""
    import numpy as np
    import sympy as sp
    bad, first, n = 0, None, 0
    table = sp.lambdify(list(joints), dh.subs(pv).tolist(), 'math')
    lengths = {str(s) for s in lengths}
    names = sorted((str(s) for s in names), key=lambda s: s + 'v1')
    for q in grid:
        env = dict(base)
        env.update(zip(joints, q))
        T = fk.fk_num(table(*q))[-1]
        env.update(truth.pose_env(T))
        env = truth.define(aux, {k: v for k, v in env.items()})
        want = {str(k): v for k, v in env.items()}
        n += 1
        with mc.quiet():
            got = fn(np.matrix(T))
        rows = [] if got is False or got is None else list(got)
        if not any(len(r) == len(names) and all(near(v, want[nm], nm not in lengths) for v, nm in zip(r, names)) for r in rows):
            bad += 1
            first = first or 'pose of %s: returned %s (columns %s)' % (
                {str(s): round(v, 4) for s, v in zip(joints, q)}, [[round(float(x), 4) for x in r] for r in rows][:4], names)
    return n, bad, first


def near(v, true, angle):
    try:
        return close(complex(v), true, angle)
    except TypeError:
        return False


def codefile():
    fs = glob.glob('CodeGen/Python/*.py')
    return fs[0] if len(fs) == 1 else None


def code():
    f = codefile()
    if f is None:
        return None, 'generated Python files: %s' % glob.glob('CodeGen/Python/*')
    ns = {'__name__': 'generated'}
    exec(compile(open(f).read(), f, 'exec'), ns)
    fns = [v for k, v in ns.items() if k.startswith('ikin_')]
    return fns[0], None
