"""C13 the leaf for two simultaneous equations  A sin + B cos = C,  A cos - B sin = D."""
import itertools
import leaf
import mc
from c09 import d_success, drive

PTS = (0.4, 1.9, -2.3, -0.9, 3.0)


def cases(quick):
    n = leaf.ns()
    sp, s = n['sp'], n['sy']
    P, Q, R, u = s['Px'], s['Py'], s['r_11'], s['th_1']
    S, C = sp.sin(u), sp.cos(u)
    co = [c for c in leaf.coefs() if not c.has(R)]
    cn = leaf.consts()
    Z = sp.Integer(0)
    for (i, A), (j, B) in itertools.product(enumerate(co + [Z]), repeat=2):
        if A == 0 and B == 0:
            continue
        D, E = cn[(i + j) % len(cn)], cn[(i + 2 * j + 1) % len(cn)]
        e1, e2 = A * S + B * C, A * C - B * S
        for sg1, sg2 in ((1, 1), (1, -1), (-1, 1)):
            k = 'A=%s B=%s %+d%+d ' % (A, B, sg1, sg2)
            yield k, [(P, sg1 * e1 + D), (Q, sg2 * e2 + E)], ['Px', 'Py'], True
            if quick and (i + j) % 3:
                continue
            yield k + 'reversed', [(Q, sg2 * e2 + E), (P, sg1 * e1 + D)], ['Py', 'Px'], True
            yield k + 'left', [(sg1 * e1 + D, P), (sg2 * e2 + E, Q)], ['Px', 'Py'], True
            yield k + 'zero', [(Z, sg1 * e1 + D - P), (Z, sg2 * e2 + E - Q)], ['Px', 'Py'], True
            yield k + 'split', [(P - A * S * sg1, sg1 * B * C), (Q, sg2 * e2)], ['Px', 'Py'], True
            yield k + 'third between', [(P, sg1 * e1), (R, 5 * S), (Q, sg2 * e2)], ['Px', 'r_11', 'Py'], None
            yield k + 'repeated', [(P, sg1 * e1), (P, sg1 * e1), (Q, sg2 * e2)], ['Px', 'Px', 'Py'], True
            yield k + 'quadratic first', [(R, S**2), (P, sg1 * e1), (Q, sg2 * e2)], ['r_11', 'Px', 'Py'], True
            yield k + 'unknown itself first', [(R, u + 2), (P, sg1 * e1), (Q, sg2 * e2)], ['r_11', 'Px', 'Py'], True
        # not the canonical pair: mixed signs, other coefficients
        if A != 0 and B != 0:
            k = 'A=%s B=%s ' % (A, B)
            yield k + 'mixed signs', [(P, e1), (Q, A * C + B * S)], ['Px', 'Py'], False
            yield k + 'mixed signs 2', [(P, e1), (Q, -A * C - B * S)], ['Px', 'Py'], False
            yield k + 'same roles', [(P, e1), (Q, e1 + 1)], ['Px', 'Py'], False
            yield k + 'scaled', [(P, e1), (Q, 2 * e2)], ['Px', 'Py'], None
        # coefficients fit, but the rest of an equation still contains the unknown
        for rest in (S**2, S * C, u, sp.sin(2 * u), C**2 - S**2, sp.sin(u + s['th_2']), u * S):
            k = 'A=%s B=%s rest %s ' % (A, B, rest)
            if quick and (i + j) % 4:
                continue
            yield k + 'in 1', [(P, e1 + rest), (Q, e2)], ['Px', 'Py'], None
            yield k + 'in 2', [(P, e1), (Q, e2 + rest)], ['Px', 'Py'], None
            yield k + 'in both', [(P, e1 + rest), (Q, e2 + rest)], ['Px', 'Py'], None
    # the pair anywhere among other equations of the unknown, from which no other pair can be made
    e1, e2 = s['l_1'] * S + s['l_2'] * C, s['l_1'] * C - s['l_2'] * S
    others = [S**2, S * C + 1, u + 2, sp.sin(2 * u), u * C, C**2 * s['l_1']]
    for k, eqs, fr in leaf.among([('Px', e1), ('Py', e2)], others, quick):
        yield k, eqs, fr, True
    # one side of one equation is zero (the other one fixes the angle); the point is put on it by the length l_2
    l1, l2 = s['l_1'], s['l_2']
    for A, B in ((l1, l2), (l2, l1), (-l1, l2), (l2, -l1), (l1 + 1, 2 * l2), (1, l2), (l2, 3)):
        e1, e2 = A * S + B * C, A * C - B * S
        for (sg1, sg2), z in itertools.product(((1, 1), (1, -1), (-1, 1), (-1, -1)), (0, Z)):
            k = 'zero side A=%s B=%s %+d%+d %s' % (A, B, sg1, sg2, type(z).__name__)
            yield k, [(z, sg1 * e1), (Q, sg2 * e2)], ['l_2', 'Py'], True
            yield k + ' second', [(Q, sg1 * e1), (z, sg2 * e2)], None, True
            yield k + ' constant', [(s['l_3'], sg1 * e1 + s['l_3']), (Q, sg2 * e2 + 1)], ['l_2', 'Py'], True
            yield k + ' twisted', [(z, sg2 * e2), (Q, sg1 * e1)], ['l_2', 'Py'], True
    yield 'homogeneous', [(Z, S), (Z, C)], [None, None], False
    yield 'one equation', [(P, 2 * S + C)], ['Px'], False
    yield 'nothing', [], [], False
    yield 'plain zeros', [(0, S + 2 * C - P), (0, 2 * S - C - Q)], ['Px', 'Py'], True
    yield 'algebraic', [(P, 2 * u + 1), (Q, u - s['l_1'])], ['Px', 'Py'], False
    yield 'algebraic with a sine', [(P, S), (Q, u - s['l_1'])], ['Px', 'Py'], False


def work(c):
    key, eqs, free, must = c
    un = [('th_1', False), ('th_2', True), ('th_3', False)]
    r = leaf.outcome('simu', 'th_1', un, eqs)
    if r[0] == 'exc':
        return r[1]
    d = r[1]
    u = d['u']
    if not u.solved:
        if d['R'].solution_nodes or u.solutions:
            return 'left solutions %s on an unknown it did not solve' % u.solutions
        if d['status'] == d_success():
            return 'answered success without solving'
        return 'declined a pair it must solve' if must else None
    if d['status'] != d_success():
        return 'solved but did not answer success'
    if must is False:
        return 'accepted a pair it cannot solve: %s' % u.solutions
    if len(u.solutions) != 1:
        return '%d solutions, must be 1' % len(u.solutions)
    if len(d['R'].solution_nodes) != 1:
        return 'solution not registered with the robot'
    if free is None:            # the equation that fixes l_2 first
        eqs, free = eqs[::-1], ['l_2', 'Py']
    bad = 'no pair'
    for (i, a), (j, b) in itertools.combinations(list(enumerate(eqs)), 2):
        bad = leaf.judge(u, [a, b], [free[i], free[j]], 'th_1', PTS, unsolved=('th_3',))
        if bad is None:
            break
    return bad


def run(ctx):
    drive(ctx, cases(ctx.quick), work)
