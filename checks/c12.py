"""C12 the two-equation arctangent leaf."""
import itertools
import leaf
import mc
from c09 import d_success, drive

PTS = (0.4, 1.9, -2.3, -0.9, 3.0)


def cases(quick):
    """(key, one-unknown equations, two-unknown equations, free symbols, factor (unsolved unknown or None), must)"""
    n = leaf.ns()
    sp, s = n['sp'], n['sy']
    P, Q, u = s['Px'], s['Py'], s['th_1']
    S, C = sp.sin(u), sp.cos(u)
    co, cn = leaf.coefs(), leaf.consts()
    for i, A in enumerate(co):
        for j, B in enumerate(co):
            k = 'A=%s B=%s ' % (A, B)
            D, E = cn[(i + j) % len(cn)], cn[(i + 2 * j + 1) % len(cn)]
            for D, E in ((cn[0], cn[0]), (D, E)) if quick else ((cn[0], cn[0]), (D, E), (E, D), (cn[3], cn[1])):
                kk = k + 'D=%s E=%s ' % (D, E)
                yield kk + 'rhs', [(P, A * S + D), (Q, B * C + E)], [], ['Px', 'Py'], None, True
                yield kk + 'cos first', [(Q, B * C + E), (P, A * S + D)], [], ['Py', 'Px'], None, True
                if (i + j) % 3 == 0 or not quick:
                    yield kk + 'lhs', [(A * S + D, P), (B * C + E, Q)], [], ['Px', 'Py'], None, True
                    yield kk + 'mixed', [(P, A * S + D), (B * C + E, Q)], [], ['Px', 'Py'], None, True
                    yield kk + 'in the other list', [], [(P, A * S + D), (Q, B * C + E)], ['Px', 'Py'], None, True
                    yield kk + 'zero', [(sp.Integer(0), A * S + D - P), (sp.Integer(0), B * C + E - Q)], [], ['Px', 'Py'], None, True
                for fac, F in (('d_3', s['d_3']), ('th_3', sp.sin(s['th_3'])), ('th_3', sp.cos(s['th_3']))):
                    if quick and (i + j) % 2 and F != s['d_3']:
                        continue
                    yield kk + 'common factor %s' % F, [], [(P, A * F * S + D), (Q, B * F * C + E)], ['Px', 'Py'], fac, True
                    if D == 0:
                        yield kk + 'common factor %s left' % F, [], [(A * F * S, P), (Q, B * F * C + E)], ['Px', 'Py'], fac, True
    bad = [S**2, S * C, u * S, S + u, sp.sin(2 * u), S * sp.sin(u + s['th_2']), 1 / S, S * sp.sin(2 * u), S**2 + S]
    badc = [C**2, S * C, u * C, C + u, sp.cos(2 * u), C * sp.sin(u + s['th_2']), 1 / C, C * sp.cos(2 * u), C**2 + C]
    for a, b in itertools.product(bad, badc + [2 * C + s['l_1'], -C]):
        # a common factor that contains the unknown cancels, so that the pair may be solved (correctly) or declined
        own = (b / C - a / S) == 0
        must, fac = (None, 'th_1') if own else (False, None)
        yield 'unusable %s, %s' % (a, b), [(P, a), (Q, b)], [], ['Px', 'Py'], fac, must
        yield 'unusable %s, %s left' % (a, b), [(a, P), (b, Q)], [], ['Px', 'Py'], fac, must
    for a, b in itertools.product([2 * S + s['l_1'], -S], badc):
        yield 'unusable %s, %s' % (a, b), [(P, a), (Q, b)], [], ['Px', 'Py'], None, False
    th = sp.sin(s['th_3'])
    for t, (a, b) in (('factor only in one', (th * S, C)), ('factor only in the other', (S, th * C)), ('different factors', (th * S, s['d_3'] * C)),
                      ('unsolved constant', (S + th, C)), ('unsolved constant in cos', (S, C + th)),
                      ('unsolved constants', (S + s['d_3'], C + s['d_3']))):
        for A, B in ((1, 1), (-1, s['l_1']), (s['l_1'], -3)):
            yield '%s %s %s' % (t, A, B), [], [(P, A * a), (Q, B * b)], ['Px', 'Py'], None, False
    R1, R2 = s['r_11'], s['r_21']
    for b in bad[:8]:
        yield 'unusable %s before a pair' % b, [(R1, b), (P, 2 * S - s['l_1']), (Q, s['l_2'] * C)], [], ['r_11', 'Px', 'Py'], None, True
        yield 'unusable %s after the sine' % b, [(P, 2 * S - s['l_1']), (R1, b), (Q, s['l_2'] * C)], [], ['Px', 'r_11', 'Py'], None, True
    for b in badc[:8]:
        yield 'unusable %s before a pair (cos)' % b, [(P, 2 * S - s['l_1']), (R1, b), (Q, s['l_2'] * C)], [], ['Px', 'r_11', 'Py'], None, True
    for k, eqs, fr in leaf.among([('Px', 2 * S - s['l_1']), ('Py', s['l_2'] * C)], [S**2, S * C, C**2 + C, S + u, 1 / C], quick):
        yield k, eqs, [], fr, None, True
        yield k + ' with two unknowns', [], eqs, fr, None, True
        for j in range(1, len(eqs)):
            yield k + ' cut at %d' % j, eqs[:j], eqs[j:], fr, None, True
    yield 'unsolved sine first', [], [(R1, th * S), (P, S + 1), (R2, C)], ['r_11', 'Px', 'r_21'], None, True
    yield 'unsolved cosine first', [], [(P, S + 1), (R1, s['d_3'] * C), (R2, C)], ['Px', 'r_11', 'r_21'], None, True
    yield 'sine only', [(P, S), (Q, 2 * S + 1)], [], ['Px', 'Py'], None, False
    yield 'cosine only', [(P, C), (Q, 2 * C + 1)], [], ['Px', 'Py'], None, False
    yield 'nothing', [], [], [], None, False
    yield 'plain zero', [(0, 2 * S + 1 - P), (0, C - Q)], [], ['Px', 'Py'], None, True


def work(c):
    key, e1, e2, free, fac, must = c
    un = [('th_1', False), ('th_2', True), ('th_3', False), ('d_3', False)]
    r = leaf.outcome('tan', 'th_1', un, e1, e2)
    if r[0] == 'exc':
        return r[1]
    d = r[1]
    u = d['u']
    if d['status'] != d_success():
        if u.solutions or u.tan_solutions:
            return 'declined but left solutions %s' % u.solutions
        return 'declined a pair it must solve' if must else None
    if u.solutions != u.tan_solutions:
        return 'solutions handed to the ranking differ: %s / %s' % (u.solutions, u.tan_solutions)
    if len(u.tan_eqnlist) != 2:
        return 'the ranking is given %d equations, must be 2' % len(u.tan_eqnlist)
    if u.solved:
        return 'marked solved before the ranking'
    if must is False:
        return 'accepted a pair it cannot solve: %s' % u.solutions
    eqs = e1 + e2
    n = leaf.ns()
    # the pair used must be two of the given equations
    if fac is None:
        # one solution, right for one sine and one cosine equation of the list
        if len(u.solutions) != 1:
            return '%d solutions, must be 1' % len(u.solutions)
        sn, cs = n['sp'].sin(n['sy']['th_1']), n['sp'].cos(n['sy']['th_1'])
        bad = 'no pair'
        for (i, a), (j, b) in itertools.permutations(list(enumerate(eqs)), 2):
            if (a[1] - a[0]).has(sn) and (b[1] - b[0]).has(cs):
                bad = leaf.judge(u, [a, b], [free[i], free[j]], 'th_1', PTS, unsolved=('th_3', 'd_3'))
                if bad is None:
                    break
        return bad
    if len(u.solutions) != 2:
        return '%d solutions for a pair with an unsolved common factor, must be 2' % len(u.solutions)
    for sign, v3, vd in ((1, 0.7, 0.92), (-1, -0.7, -0.92), (1, 2.1, 1.4), (-1, -2.1, 3.3)):
        bad = leaf.judge(u, eqs, free, 'th_1', PTS, base={'th_3': v3, 'd_3': vd}, unsolved=('th_3', 'd_3'), must_all=False)
        if bad:
            return bad + ' (factor %s)' % ((v3, vd),)
    # the two branches are half a turn apart
    vals = dict(leaf.VALS)
    vals['th_1'] = 0.4
    vals = leaf.fill(eqs, free, vals)
    vv = {k: v for k, v in vals.items() if k not in ('th_1', 'th_3', 'd_3')}
    x, y = [leaf.num(z, vv).real for z in u.solutions]
    if not leaf.same_angle(x, y + 3.141592653589793):
        return 'the two branches %s are not half a turn apart' % u.solutions
    return None


def run(ctx):
    drive(ctx, cases(ctx.quick), work)
