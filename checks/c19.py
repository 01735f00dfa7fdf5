"""C19 the LaTeX report is well formed, and what it says is what was derived."""
import itertools
import os
import re
import fk
import fkspace
import forms
import graphs
import mc
import texmath

SPECS = [
    [('0', 0, 'R', 1), ('-pi/2', 0, 'R', 0), ('0', 1, 'R', 1), ('-pi/2', 1, 'R', 1), ('pi/2', 0, 'R', 0), ('-pi/2', 0, 'R', 0)],
    [('0', 0, 'R', 1), ('pi/2', 0, 'R', 1), ('-pi/2', 0, 'P', '0'), ('0', 0, 'R', 0), ('-pi/2', 0, 'R', 0), ('pi/2', 0, 'R', 0)],
    [('0', 0, 'P', '0'), ('pi/2', 1, 'P', 'pi/2'), ('-pi/2', 0, 'R', 1), ('0', 1, 'R', 0), ('-pi/2', 0, 'R', 0), fkspace.FIX],
    [('0', 0, 'R', 1), ('0', 1, 'R', 0), ('0', 1, 'R', 0), fkspace.FIX, fkspace.FIX, fkspace.FIX],
    [('0', 0, 'R', 0), ('pi/2', 1, 'R', 0), ('0', 1, 'R', 0), ('0', 1, 'R', 0), ('pi/2', 0, 'R', 0), fkspace.FIX],
    [('0', 0, 'R', 0), ('-pi/3', 1, 'R', 1), ('0.7', 0, 'P', '0'), fkspace.FIX, fkspace.FIX, fkspace.FIX],
]
_mech = []


def one_mech(i):
    import ikbtbasics.kin_cl as kc
    with mc.quiet():
        dh, vv, params, joints, pv = fkspace.make(SPECS[i])
        m = kc.mechanism(dh.copy(), list(params), list(vv))
        m.pvals = dict(pv)
        m.forward_kinematics()
        m.get_mequation_set()
        allp = dict(pv)
        allp.update(fk.pvals_num({k: v for k, v in m.pvals.items() if k not in pv}))
        return (m, joints, allp, dh)


def mechs():
    if not _mech:
        _mech.extend(r for _, r in mc.pmap(one_mech, range(len(SPECS)), chunk=1))
    return _mech


def close(a, b):
    return abs(a - b) <= 1e-7 * (1 + abs(b))


def mech_part(text, mech, report):
    """columns of the forward kinematics and of the Jacobian in the report against the mechanism's own matrices"""
    m, joints, pv, dh = mech
    sp = graphs.ns()['sp']
    mats = [x for env, body in texmath.math_envs(text) for x in texmath.matrices(body)]
    cols4 = [x for x in mats if len(x) == 4 and all(len(r) == 1 for r in x)]
    cols6 = [x for x in mats if len(x) == 6 and all(len(r) == 1 for r in x)]
    sq4 = [x for x in mats if len(x) == 4 and all(len(r) == 4 for r in x)]
    six4 = [x for x in mats if len(x) == 6 and all(len(r) == 4 for r in x)]
    if len(cols4) != 4 or len(cols6) != 6 or len(sq4) != 1 or len(six4) != 1:
        return '%s: %d columns of the pose, %d of the Jacobian, %d poses, %d DH tables' % (report, len(cols4), len(cols6), len(sq4), len(six4))
    for i, j in itertools.product(range(4), range(4)):
        names = [['r_11', 'r_12', 'r_13', 'Px'], ['r_21', 'r_22', 'r_23', 'Py'], ['r_31', 'r_32', 'r_33', 'Pz'], None]
        s = sq4[0][i][j]
        if i < 3 and texmath.lhs_name(s) != names[i][j]:
            return '%s: left side element %d %d is %s' % (report, i, j, s)
        if i == 3 and texmath.value(s, {}) != (j == 3):
            return '%s: left side element %d %d is %s' % (report, i, j, s)
    for k in range(3):
        vals, num = {}, {}
        for n, (j, kind) in enumerate(joints):
            x = (fk.ANG if kind == 'R' else fk.LEN)[(k + n) % 3] + 0.05 * n
            num[j] = x
            vals[j.name] = complex(x)
        th = {j.name: num[j] for j, kind in joints if kind == 'R'}
        for a in range(1, 7):
            for b in range(a, 7):
                idx = [str(i) for i in range(a, b + 1)]
                for sel in ([idx] if a == b else [idx, [idx[0], idx[-1]]]):
                    if all('th_' + i in th for i in sel):
                        s = sum(th['th_' + i] for i in sel)
                        vals['c_' + ''.join(sel)] = fk.math.cos(s) + 0j
                        vals['s_' + ''.join(sel)] = fk.math.sin(s) + 0j
        for p, v in pv.items():
            vals[p.name] = complex(v)
            vals[re.sub(r'^([a-z]+)(\d+)$', r'\1_\2', p.name)] = complex(v)     # ca1 is typeset ca_{1}
        sub = {**num, **pv}
        for i, j in itertools.product(range(6), range(4)):
            got = texmath.value(six4[0][i][j], vals)
            if not close(got, complex(sp.sympify(dh[i, j]).subs(sub))):
                return '%s: DH table element %d %d is written %s' % (report, i, j, six4[0][i][j])
        for cols, M, what in ((cols4, m.T_06, 'pose'), (cols6, m.J66, 'Jacobian')):
            for j, col in enumerate(cols):
                for i, e in enumerate(col):
                    got = texmath.value(e[0], vals)
                    want = complex(sp.sympify(M[i, j]).subs(sub))
                    if not close(got, want):
                        return '%s: %s element %d %d is written %s' % (report, what, i + 1, j + 1, e[0])
    return None


def check(c):
    fs, deps, mi = c
    n = graphs.ns()
    sp = n['sp']
    sols, methods = forms.graph(fs, deps)
    name = forms.ROBOTS[(len(fs) * 3 + sum(len(x) for x in fs) + mi) % len(forms.ROBOTS)]
    mech = mechs()[mi]
    with mc.scratch():
        R, us, order = graphs.build([x for x, _ in sols] + ['th_4'], sols, methods, name, {}, [])
        R.Mech = mech[0]
        R.create_solution_set()
        n['ol'].output_latex_solution(R, us, R.solutionSet)
        n['ol'].output_FK_equations(R)
        files = sorted(f for f in os.listdir('LaTex') if not f.startswith('IK_'))
        texts = [open(os.path.join('LaTex', f)).read() for f in files]
    base = name.replace('test: ', '')
    if files != ['fk_equations_%s.tex' % base, 'ik_solution_%s.tex' % base]:
        return 'files written: %s' % files
    try:
        for t, f in zip(texts, files):
            bad = texmath.well_formed(t)
            if bad:
                return '%s: %s' % (f, bad)
            if f.startswith('fk') and not fs or f.startswith('ik') and len(fs) < 2:
                bad = mech_part(t, mech, f)
                if bad:
                    return bad
        return solution_part(texts[1], sols, R, methods)
    except texmath.Bad as e:
        return 'the report does not read: %s' % e


def solution_part(t, sols, R, methods):
    sp = graphs.ns()['sp']
    eqs = texmath.equations(t)
    want = {}
    for x, ss in sols:
        for i, e in enumerate(ss):
            want['%ss%d' % (x, i + 1)] = sp.sympify(e)
    for row in R.FinalEqnMatrix:
        for e in row:
            want[e.LHS.name] = e.RHS
    got = [x for x, _ in eqs]
    if sorted(got) != sorted(want):
        return 'equations for %s, should be for %s' % (sorted(set(got) - set(want)) or 'duplicates', sorted(set(want) - set(got)))
    for T in forms.poses()[:3]:
        vals = {**forms.pose_vals(T), **{k: complex(v) for k, v in graphs.PAR.items()}}
        # any values for the symbols of unknowns and versions: the texts must agree symbol by symbol
        names = sorted({s.name for e in want.values() for s in e.free_symbols} | {x for x, _ in sols})
        for i, s in enumerate(names):
            vals.setdefault(s, complex(0.31 + 0.0837 * i))
        for x, rhs in eqs:
            w = graphs.evaluate(want[x], vals)
            if w is None:
                continue
            try:
                v = texmath.value(rhs, vals)
            except ValueError:
                return '%s = %s does not evaluate' % (x, rhs)
            if not close(v, w):
                return 'equation for %s is written %s, is %s' % (x, rhs, want[x])
    # solution order
    m = re.search(r'\\begin\{enumerate\}(.*?)\\end\{enumerate\}', t, flags=re.S)
    items = [texmath.lhs_name(z) for z in re.findall(r'\\item\s*\{?\$(.*?)\$', m.group(1) if m else '')]
    if items != [x for x, _ in sols]:
        return 'unknowns in solution order: %s' % items
    # solution sets: one verbatim list, one table
    wantsets = sorted(tuple(str(v) for v in g) for g in R.solutionSet)
    verb = re.findall(r'\\begin\{verbatim\}(.*?)\\end\{verbatim\}', t, flags=re.S)
    ls = [tuple(re.findall(r"'([^']*)'", line)) for v in verb for line in v.splitlines() if line.startswith('(')]
    if sorted(ls) != wantsets:
        return 'solution sets listed: %s' % sorted(ls)[:3]
    tab = re.search(r'\\begin\{tabular\}\{([|l]*)\}(.*?)\\end\{tabular\}', t, flags=re.S)
    if not tab or tab.group(1).count('l') != len(sols):
        return 'table of solution sets is missing or has the wrong number of columns'
    rows = [tuple(re.findall(r'\$([^$]*)\$', r)) for r in tab.group(2).split('\\\\') if '$' in r]
    plain = [tuple(re.sub(r'[{}\\]|heta', '', v).replace('th_', 'th_').replace('t_', 'th_') if '\\theta' in v else re.sub(r'[{}]', '', v)
                   for v in r) for r in rows]
    if sorted(plain) != wantsets:
        return 'table of solution sets: %s' % sorted(plain)[:3]
    edges = {tuple(e) for v in verb for e in re.findall(r'\((\w+)-->(\w+)\)', v)}
    wedges = {(u.unknown.name, d.name) for u in R.solution_nodes for d in u.unknown.dependencies}
    if edges != wedges:
        return 'edges listed %s, are %s' % (sorted(edges), sorted(wedges))
    for x, _ in sols:
        if methods[x] not in t:
            return 'solution method of %s is not reported' % x
    return None


def work(c):
    return mc.guarded(check, c, seconds=300)[1]


def run(ctx):
    graphs.ns()
    mechs()
    cs = []
    for mi in range(len(SPECS)):
        cs.append(((), (), mi))
        for k in (1, 2):
            for i, (fs, deps) in enumerate(forms.cases(k, ctx.quick)):
                if (k == 1 and mi == i % 3) or (i + mi) % len(SPECS) == 0:
                    cs.append((fs, deps, mi))
    for k in (3,) if ctx.quick else (3, 4):
        for i, (fs, deps) in enumerate(forms.cases(k, ctx.quick or k > 3)):
            cs.append((fs, deps, i % len(SPECS)))
    cs = [(*b, i % len(SPECS)) for i, b in enumerate(forms.big((5, 6)))] + cs
    for c, bad in mc.pmap(work, list(dict.fromkeys(cs)), chunk=6):
        ctx.count('states')
        ctx.count('transitions')
        ctx.count('traces_validated_against_impl')
        k = 'formulas %s, depends on %s, mechanism %d' % (' '.join(c[0]), c[1], c[2])
        if bad:
            ctx.violation(k, bad)
        elif ctx.cov['states'] % 100 == 1:
            ctx.sample(k)
    ctx.cov['exhaustive'] = True
    ctx.assumptions.append('formulas are drawn from the shapes the solver leaves produce; six mechanisms')
