"""C17 the generated Python function computes exactly the real branches of the solution."""
import contextlib
import io
import os
import re
import forms
import graphs
import mc


def generate(sols, methods, name, pvals):
    """the text of the generated file"""
    n = graphs.ns()
    sp = n['sp']
    params = [sp.Symbol(p) for p in graphs.PAR]
    unk = [x for x, _ in sols] + ['th_4']
    R, us, order = graphs.build(unk, sols, methods, name, pvals, params)
    graphs.versions(R)
    n['op'].output_python_code(R, R.solutionSet)
    d = 'CodeGen/Python'
    fs = [f for f in os.listdir(d) if f.startswith('IK_')]
    if len(fs) != 1:
        raise AssertionError('generated files: %s' % fs)
    with open(os.path.join(d, fs[0])) as f:
        text = f.read()
    os.remove(os.path.join(d, fs[0]))
    return text, fs[0]


def run_code(text, T, main=False, shape=None):
    """what the generated function returns (printed output is swallowed)"""
    import numpy as np
    env = {'__name__': '__main__' if main else 'generated', '__builtins__': __builtins__}
    with contextlib.redirect_stdout(io.StringIO()):
        exec(compile(text, 'generated', 'exec'), env)
        if main:
            return None
        fn = [v for k, v in env.items() if k.startswith('ikin_') and callable(v)]
        if len(fn) != 1:
            raise AssertionError('functions in the generated file: %s' % [k for k in env if callable(env[k])])
        if shape:
            try:
                fn[0](np.eye(shape))
            except SystemExit:
                return 'refused'
            return 'accepted'
        M = np.matrix(T) if T[0][3] > 0 else np.array(T)
        return fn[0](M)


def check(c):
    fs, deps, mode = c
    sols, methods = forms.graph(fs, deps)
    n = graphs.ns()
    name = forms.ROBOTS[(len(fs) * 3 + sum(len(x) for x in fs) + mode) % len(forms.ROBOTS)]
    par = dict(graphs.PAR)
    if mode == 2:                       # whole numbers, zero among them
        par.update(l_2=2, a_3=0, l_4=-1)
    valued = [] if not mode else ['a_3', 'l_1'] if mode == 3 else list(par)
    pv = {n['sp'].Symbol(k): par[k] for k in valued}
    with mc.scratch():
        text, fname = generate(sols, methods, name, pv)
    if name.replace('test: ', '') not in fname:
        return 'file for %s is called %s' % (name, fname)
    # as the user is told to: give the parameters without a value one
    for p in [p for p in par if p not in valued]:
        text, k = re.subn(r'(?m)^(\s*%s\s*=\s*)XXXXX' % p, r'\g<1>%r' % par[p], text)
        if k != 1:
            return 'parameter %s is declared %d times' % (p, k)
    try:
        for T in forms.poses():
            want = forms.expected(sols, T, par) if sols else []
            got = run_code(text, T)
            if got is False or got is None:
                got = []
            got = [tuple(float(v) for v in g) for g in got]
            if not graphs.same_sets(got, want):
                return 'at pose %s returns %s, the solutions are %s' % (T[0][3], sorted(got)[:4], sorted(want)[:4])
        if run_code(text, None, shape=3) != 'refused':
            return 'a 3x3 target is not refused'
        run_code(text, None, main=True)
    except mc.CaseTimeout:
        raise
    except Exception as e:
        return 'generated code fails: %s: %s' % (type(e).__name__, str(e)[:200])
    return None


def work(c):
    return mc.guarded(check, c, seconds=240)[1]


def all_cases(quick):
    for k in (0, 1, 2, 3, 4) if quick else (0, 1, 2, 3, 4, 5):
        if k == 5:
            for fs, deps in forms.cases(5, True):
                yield fs, deps, 1
            continue
        for fs, deps in forms.cases(k, quick or k > 3):
            for mode in ((0, 1, 3) if k < 3 else (1,)) + ((2,) if k == 1 or k == 2 and len(set(fs)) == 1 else ()):
                if mode == 2 and 'x2z2' in fs:      # divides by a parameter that is zero
                    continue
                yield fs, deps, mode

    for fs, deps in forms.big((5, 6, 7)):
        yield fs, deps, 1


def run(ctx):
    graphs.ns()
    for c, bad in mc.pmap(work, all_cases(ctx.quick), chunk=10):
        ctx.count('states')
        ctx.count('transitions', len(forms.poses()) + 2)
        ctx.count('traces_validated_against_impl')
        k = 'formulas %s, depends on %s, %s parameter values' % (' '.join(c[0]), c[1], ('without', 'with', 'with whole and zero', 'with some')[c[2]])
        if bad:
            ctx.violation(k, bad)
        elif ctx.cov['states'] % 300 == 1:
            ctx.sample(k)
    ctx.cov['exhaustive'] = True
    ctx.assumptions.append('formulas are drawn from the shapes the solver leaves produce')
