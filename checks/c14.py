"""C14 ranking: arctangent and arcsine/arccosine answers compete, the better one becomes the solution, once."""
import itertools
import leaf
import mc
from c09 import d_success, drive

PTS = (0.4, 1.9, -2.3, -0.9)


def cases(quick):
    n = leaf.ns()
    sp, s = n['sp'], n['sy']
    P, Q, R, u = s['Px'], s['Py'], s['r_11'], s['th_1']
    S, C = sp.sin(u), sp.cos(u)
    d3, th2, t3 = s['d_3'], s['th_2'], sp.sin(s['th_3'])
    # one- and two-unknown equations by name, with their free symbol
    E1 = {'s': (P, S), 's-': (P, -2 * S + s['l_1']), 'c': (Q, C), 'cl': (Q, s['l_1'] * C - 3), 's2': (P, S * sp.sin(th2)),
          'c2': (Q, C * sp.cos(th2) + 1), 'sq': (R, S**2), 'sc': (R, S + 2 * C), 'no': (R, s['l_3'] + sp.sin(s['th_3'])), 'u': (R, u + 1),
          'sL': (S, P), 'cL': (-3 * C + 1, Q)}
    E2 = {'sd': (P, d3 * S), 'cd': (Q, d3 * C), 'st': (P, -t3 * S + 1), 'ct': (Q, t3 * C * 2), 'sx': (P, S + d3), 'cx': (Q, C + t3)}
    names1 = list(E1)
    names2 = list(E2)
    k2max = 2
    for n1 in range(0, 4):
        for a in itertools.permutations(names1, n1):
            for n2 in range(0, k2max + 1):
                if quick and n1 == 3 and n2:
                    continue
                for b in itertools.permutations(names2, n2):
                    fr, e1, e2 = [], [], []
                    frees = ['Px', 'Py', 'r_11', 'r_21', 'r_13']
                    for i, x in enumerate(a + b):
                        l, r = (E1.get(x) or E2.get(x))
                        f0 = [z for z in (P, Q, R) if l == z or r == z][0]
                        f1 = sp.Symbol(frees[i])
                        e = (l.subs(f0, f1), r.subs(f0, f1))
                        (e1 if i < len(a) else e2).append(e)
                        fr.append(frees[i])
                    yield '%s / %s' % (' '.join(a), ' '.join(b)), a, b, e1, e2, fr


def expect(a, b):
    """is a sine/cosine answer certain, is an arctangent answer certain (None: unsettled)"""
    sc = [x for x in a if x[0] in 'sc' and x != 'sc']
    e_sc = bool(sc) and sc[0] != 'sq'
    sin = [x for x in a if x in ('s', 's-', 's2', 'sL')]
    cos = [x for x in a if x in ('c', 'cl', 'c2', 'cL')]
    e_tan = bool(sin and cos) or ('sd' in b and 'cd' in b) or ('st' in b and 'ct' in b)
    e_tan1 = bool(sin and cos)
    return e_sc, e_tan, e_tan1


def snapshot(d):
    u = d['u']
    return (u.solved, list(u.solutions), u.nsolutions, u.solveorder, len(d['R'].solution_nodes), d['R'].solveN,
            list(u.versionNames), list(u.solutionNames), len(d['R'].notation_graph_edges))


def work(c):
    key, a, b, e1, e2, free = c
    un = [('th_1', False), ('th_2', True), ('th_3', False), ('d_3', False)]
    r = leaf.outcome('ranked', 'th_1', un, e1, e2)
    if r[0] == 'exc':
        return r[1]
    d = r[1]
    u = d['u']
    e_sc, e_tan, e_tan1 = expect(a, b)
    if (e_sc or e_tan) and not u.solved:
        return 'an equation solves it but it stays unsolved'
    if not u.solved:
        if u.solutions or d['R'].solution_nodes:
            return 'unsolved but has solutions %s' % u.solutions
        return None
    if u.solutions not in (u.tan_solutions, u.sincos_solutions):
        return 'solutions %s are neither the arctangent nor the arcsine/arccosine answer' % u.solutions
    if len(d['R'].solution_nodes) != 1 or u.solveorder != 1:
        return 'registered %d times, order %s' % (len(d['R'].solution_nodes), u.solveorder)
    if e_tan1 and len(u.solutions) != 1:
        return 'prefers %d solutions %s to the single arctangent solution' % (len(u.solutions), u.solutions)
    if e_sc and e_tan and not e_tan1:
        nv = lambda L: sum(1 for n, _ in un if L[0].has(leaf.ns()['sy'][n])) if L else 99
        if u.tan_solutions and u.sincos_solutions and len(u.tan_solutions) == len(u.sincos_solutions):
            if nv(u.solutions) > min(nv(u.tan_solutions), nv(u.sincos_solutions)):
                return 'prefers the answer that depends on more unknowns: %s' % u.solutions
    if u.nsolutions != len(u.solutions):
        return 'nsolutions %s for %s' % (u.nsolutions, u.solutions)
    eqs = e1 + e2
    # right for the equation(s) it came from
    bad = 'no equation'
    groups = [((e,), (f,)) for e, f in zip(eqs, free)] + \
        [((x, y), (f, g)) for (x, f), (y, g) in itertools.permutations(list(zip(eqs, free)), 2)]
    for es, fs in groups:
        if len(u.solutions) == 1 and len(es) == 1:
            continue
        bad = leaf.judge(u, list(es), list(fs), 'th_1', PTS, unsolved=('th_3', 'd_3'), must_all=not (len(es) == 2 and len(u.solutions) == 2))
        if bad is None:
            break
    if bad:
        return bad
    # the equation kept with the solution is one it was derived from
    if not (u.eqntosolve.RHS - u.eqntosolve.LHS).has(leaf.ns()['sy']['th_1']):
        return 'the recorded equation %s does not contain the unknown' % u.eqntosolve
    tan = u.solutions == u.tan_solutions
    recs, fs = [], []
    for e in [u.eqntosolve] + ([u.secondeqn] if tan else []):
        f = [x for x in free if e is not None and (e.RHS - e.LHS).has(leaf.ns()['sy'][x])]
        if len(f) != 1:
            return 'the %s answer is recorded with %s, which is none of the equations offered' % ('arctangent' if tan else 'arcsine', e)
        recs.append((e.LHS, e.RHS))
        fs.append(f[0])
    bad = 'one equation recorded twice' if len(set(fs)) < len(fs) else leaf.judge(
        u, recs, fs, 'th_1', PTS, unsolved=('th_3', 'd_3'), must_all=not (tan and len(u.solutions) == 2))
    if bad:
        return 'not right for the recorded equations %s: %s' % (recs, bad)
    # offering the solved unknown again must not solve it again
    before = snapshot(d)
    r2 = mc.guarded(d['tree'].tick, 'again', d['bb'], seconds=60)
    if r2[0] == 'exc':
        return 'second tick: ' + r2[1]
    if snapshot(d) != before:
        return 'offered again, the solved unknown is solved again: %s -> %s' % (before, snapshot(d))
    return None


def run(ctx):
    drive(ctx, cases(ctx.quick), work)
