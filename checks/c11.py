"""C11 the leaf for A sin(u) + B cos(u) = C."""
import leaf
import mc
from c09 import d_success, drive

PTS = (0.4, 1.9, -2.3, -0.9, 2.9)


def cases(quick):
    n = leaf.ns()
    sp, s = n['sp'], n['sy']
    P, u = s['Px'], s['th_1']
    S, C = sp.sin(u), sp.cos(u)
    co = leaf.coefs()
    for i, A in enumerate(co):
        for j, B in enumerate(co):
            for D in leaf.consts()[:(2 if quick else 8)] + [s['r_12'] * s['l_1']]:
                k = 'A=%s B=%s D=%s ' % (A, B, D)
                yield k + 'rhs', [(P, A * S + B * C + D)], ['Px'], True
                if not quick or (D == 0 or (A.is_number and B.is_number)):
                    yield k + 'lhs', [(A * S + B * C + D, P)], ['Px'], True
                    yield k + 'both', [(P - B * C, A * S + D)], ['Px'], True
                    yield k + 'factored', [(P, s['l_1'] * (A * S + B * C + D))], ['Px'], True
                    yield k + 'quotient', [(P, (A * S + B * C + D) / s['l_2'])], ['Px'], True
                    if A + s['l_3'] != 0:
                        yield k + 'split', [(P, A * S + B * C + s['l_3'] * S)], ['Px'], True
            yield 'homogeneous A=%s B=%s' % (A, B), [(sp.Integer(0), A * s['r_12'] * S + B * s['Px'] * C)], ['Px'], True
            yield 'homogeneous sides A=%s B=%s' % (A, B), [(A * s['r_12'] * S, B * s['Px'] * C)], ['Px'], True
    bad = [S * C, S * C + S, S * C + C, S**2 + C, C**2 + S, S**2 + C**2, S + C + u, u * S + C, S + u * C, S + C + sp.sin(2 * u),
           S * sp.sin(u + s['th_2']) + C, S + C * sp.cos(2 * u), S * C + S + C, sp.sqrt(S + C), (S + C)**2, S / C, S / C + S, 1 / S + C,
           S + C + sp.tan(u)]
    for b in bad:
        yield 'unusable %s' % b, [(P, b)], ['Px'], False
        yield 'unusable %s on the left' % b, [(b, P)], ['Px'], False
        for g in (2 * S - s['l_1'] * C + 1, S + C):
            yield 'unusable %s before %s' % (b, g), [(P, b), (s['Py'], g)], ['Px', 'Py'], True
    for k, eqs, fr in leaf.among([('Py', s['l_2'] * S - C + 1)], [S, S * C, S**2 + C, S + C + u, C - s['l_1']], quick):
        yield k, eqs, fr, True
    for b in (S, C, s['l_1'] * S + 2, C - s['l_1'], u, s['th_3'], sp.sin(s['th_3']) + sp.cos(s['th_3'])):
        yield 'not both: %s' % b, [(P, b)], ['Px'], False
        yield 'not both: %s before' % b, [(P, b), (s['Py'], S - 2 * C)], ['Px', 'Py'], True
    yield 'nothing', [], [], False
    yield 'plain zero', [(0, 2 * S + C - P)], ['Px'], True


def work(c):
    key, eqs, free, must = c
    un = [('th_1', False), ('th_2', True), ('th_3', False)]
    r = leaf.outcome('sinandcos', 'th_1', un, eqs)
    if r[0] == 'exc':
        return r[1]
    d = r[1]
    u = d['u']
    if not u.solved:
        if u.solutions or d['R'].solution_nodes:
            return 'left solutions %s on an unknown it did not solve' % u.solutions
        if d['status'] == d_success():
            return 'answered success without solving'
        return 'declined an equation it must solve' if must else None
    if d['status'] != d_success():
        return 'solved but did not answer success'
    if must is False:
        return 'accepted an equation it cannot solve: %s' % u.solutions
    n = leaf.ns()
    use = [i for i, e in enumerate(eqs) if (e[1] - e[0]).has(n['sp'].sin(n['sy']['th_1'])) and
           (e[1] - e[0]).has(n['sp'].cos(n['sy']['th_1']))]
    bad = None
    for i in use:
        bad = leaf.judge(u, [eqs[i]], [free[i]], 'th_1', PTS, unsolved=('th_3',))
        if bad is None:
            break
    if bad:
        return bad
    if len(u.solutions) != 2:
        return '%d solutions, must be 2' % len(u.solutions)
    if len(d['R'].solution_nodes) != 1:
        return 'solution not registered with the robot'
    return None


def run(ctx):
    drive(ctx, cases(ctx.quick), work)
