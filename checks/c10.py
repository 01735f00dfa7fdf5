"""C10 the arcsine/arccosine leaf."""
import leaf
import mc
from c09 import d_success, drive

PTS = (0.4, 1.9, -2.3, -0.9)


def cases(quick):
    n = leaf.ns()
    sp, s = n['sp'], n['sy']
    P, u = s['Px'], s['th_1']
    for fn, f in (('sin', sp.sin), ('cos', sp.cos)):
        F = f(u)
        for A in leaf.coefs():
            for B in leaf.consts():
                k = '%s: A=%s B=%s ' % (fn, A, B)
                yield k + 'rhs', [(P, A * F + B)], ['Px'], True
                yield k + 'lhs', [(A * F + B, P)], ['Px'], True
                if not quick or A.is_number or B == 0:
                    yield k + 'factored', [(P, A * (F + B))], ['Px'], None
                    yield k + 'quotient', [(P, (A * F + B) / s['l_2'])], ['Px'], None
                    yield k + 'zero', [(sp.Integer(0), A * F + B - P)], ['Px'], True
                    yield k + 'both', [(P + s['l_3'] * F, A * F + B)], ['Px'], None
                    yield k + 'split', [(P, A * F + B + s['l_3'] * F)], ['Px'], True
        bad = [F**2, F**2 + F, s['l_1'] * F**2 - 2, f(2 * u), u * F, F + u, sp.tan(u) + F, f(u + s['th_2']),
               1 / F, sp.sqrt(F + 2), sp.sin(u) * sp.cos(u), sp.sin(u) + sp.cos(u), F * f(u + s['th_2']), F * f(2 * u),
               F + f(2 * u), F + f(u + s['th_2']), u, u**2 + F, F / u]
        for b in bad:
            yield '%s: unusable %s' % (fn, b), [(P, b)], ['Px'], False
            yield '%s: unusable %s on the left' % (fn, b), [(b, P)], ['Px'], False
            yield '%s: unusable %s on both sides' % (fn, b), [(b + P, F * 2)], ['Px'], False
        yield '%s: cancelled' % fn, [(P + F, F + s['l_1'])], ['Px'], False
        g = s['l_1'] * F - 2
        for b in (sp.sin(u) + sp.cos(u), sp.sin(u) * sp.cos(u), s['th_3'] + 1, sp.sin(s['th_3']), u + s['l_1']):
            yield '%s: %s first' % (fn, b), [(P, b), (s['Py'], g)], ['Px', 'Py'], True
        for b in bad:
            yield '%s: unusable %s before' % (fn, b), [(P, b), (s['Py'], g)], ['Px', 'Py'], True
            yield '%s: unusable %s after' % (fn, b), [(s['Py'], g), (P, b)], ['Py', 'Px'], True
        for k, eqs, fr in leaf.among([('Py', g)], [F**2, sp.sin(u) + sp.cos(u), sp.sin(u) * sp.cos(u), u * F, s['l_1'] / F], quick):
            yield '%s: %s' % (fn, k), eqs, fr, True
        yield '%s: plain zero' % fn, [(0, g - s['Py'])], ['Py'], True
        for b in (sp.cos(u), sp.sin(u), s['l_2'] * sp.sin(u) + 1):
            yield '%s: %s also' % (fn, b), [(P, b), (s['Py'], g)], ['Px', 'Py'], True
    yield 'other unknown only', [(P, sp.sin(s['th_3']) + s['l_1'])], ['Px'], False
    yield 'nothing', [], [], False


def used(eqs, free, u, pts, sols, unsolved=('th_3',)):
    """the solutions must be right for one of the equations mentioning the unknown"""
    out = []
    for e, f in zip(eqs, free):
        if not (e[0] - e[1]).has(leaf.ns()['sy']['th_1']):
            continue
        bad = leaf.judge(u, [e], [f], 'th_1', pts, unsolved=unsolved, must_all=True)
        if bad is None:
            return None
        out.append(bad)
    return out[0] if out else 'no equation at all'


def work(c):
    key, eqs, free, must = c
    un = [('th_1', False), ('th_2', True), ('th_3', False)]
    r = leaf.outcome('sincos', 'th_1', un, eqs)
    if r[0] == 'exc':
        return r[1]
    d = r[1]
    u = d['u']
    claimed = d['status'] == d_success()
    if not claimed:
        if u.solutions or u.sincos_solutions:
            return 'declined but left solutions %s' % u.solutions
        return 'declined an equation it must solve' if must else None
    if u.solutions != u.sincos_solutions:
        return 'solutions handed to the ranking differ: %s / %s' % (u.solutions, u.sincos_solutions)
    if not u.sincos_eqnlist:
        return 'no equation handed to the ranking'
    if u.solved:
        return 'marked solved before the ranking'
    if must is False:
        return 'accepted an equation it cannot solve: %s' % u.solutions
    bad = used(eqs, free, u, PTS, None)
    if bad:
        return bad
    if len(u.solutions) != 2:
        return '%d solutions, must be 2' % len(u.solutions)
    return None


def run(ctx):
    drive(ctx, cases(ctx.quick), work)
