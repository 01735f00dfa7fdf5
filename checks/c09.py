"""C09 the algebra leaf solves every linear equation correctly and nothing else."""
import leaf
import mc


def cases(quick):
    """(key, target, [(lhs, rhs)], [free], must) - must: True must solve, False must decline, None either (but correctly)"""
    n = leaf.ns()
    sp, s = n['sp'], n['sy']
    P = s['Px']
    for tn in ('d_1', 'th_1'):
        u = s[tn]
        for A in leaf.coefs():
            for B in leaf.consts() + [s['th_2'] - sp.pi / 2]:
                k = '%s: A=%s B=%s ' % (tn, A, B)
                yield k + 'rhs', tn, [(P, A * u + B)], ['Px'], True
                yield k + 'lhs', tn, [(A * u + B, P)], ['Px'], True
                yield k + 'factored', tn, [(P, A * (u + B))], ['Px'], True
                if not quick or A.is_number:
                    yield k + 'quotient', tn, [(P, (A * u + B) / s['l_2'])], ['Px'], True
                    yield k + 'zero', tn, [(sp.Integer(0), A * u + B - P)], ['Px'], True
                    yield k + 'both', tn, [(P + s['l_3'] * u, A * u + B)], ['Px'], True
                    yield k + 'split', tn, [(P, A * u + B + s['l_3'] * u)], ['Px'], True
        bad = [u**2, -u**2 + s['l_1'], s['l_1'] * u**2 + u, 1 / u, sp.sqrt(u**2 + 1), sp.sin(u + s['th_2']), sp.cos(u - s['th_2']),
               u * sp.sin(u), sp.sin(u), s['l_1'] * sp.cos(u), sp.sin(u) + u, u**3 + u, sp.sqrt(u) * s['l_1'], sp.sin(2 * u),
               (u + s['l_1']) * (u - s['l_2']), u * sp.sin(u + s['th_2']), s['l_1'] / (u + s['l_2'])]
        good = [2 * u + s['l_3'], -s['l_1'] * u + 5]
        for b in bad:
            yield '%s: unusable %s' % (tn, b), tn, [(P, b)], ['Px'], False
            yield '%s: unusable %s on the left' % (tn, b), tn, [(b, P)], ['Px'], False
            for g in good:
                yield '%s: unusable %s before %s' % (tn, b, g), tn, [(P, b), (s['Py'], g)], ['Px', 'Py'], True
                yield '%s: unusable %s after %s' % (tn, b, g), tn, [(s['Py'], g), (P, b)], ['Py', 'Px'], True
        for g in good:
            yield '%s: plain zero %s' % (tn, g), tn, [(0, g - P)], ['Px'], True
        for k, eqs, fr in leaf.among([('Px', s['l_2'] * u + s['th_2'])], [u**2, sp.sin(u) + u, u * sp.sin(u), 1 / u, sp.cos(u + s['th_2'])], quick):
            yield '%s: %s' % (tn, k), tn, eqs, fr, True
        yield '%s: cancelled' % tn, tn, [(P + u, u + s['l_1'])], ['Px'], False
        yield '%s: cancelled factored' % tn, tn, [(P + 2 * u, 2 * (u + s['l_1']))], ['Px'], False
        yield '%s: other unknown only' % tn, tn, [(P, s['th_3'] + s['l_1'])], ['Px'], False
        yield '%s: nothing' % tn, tn, [], [], False


def work(c):
    key, tn, eqs, free, must = c
    un = [(tn, False), ('th_2', True), ('th_3', False)]
    r = leaf.outcome('algebra', tn, un, eqs)
    if r[0] == 'exc':
        return r[1]
    d = r[1]
    u = d['u']
    if not u.solved:
        if u.solutions:
            return 'left solutions %s on an unknown it did not solve' % u.solutions
        if d['R'].solution_nodes:
            return 'registered a solution node without solving'
        if d['status'] == d_success():
            return 'answered success without solving'
        return 'declined an equation it must solve' if must else None
    if d['status'] != d_success():
        return 'solved but did not answer success'
    if must is False:
        return 'accepted an equation that is not linear: %s' % u.solutions
    bad = leaf.judge(u, eqs, free, tn, (0.37, -1.9), angular=False, unsolved=('th_3',), must_all=False)
    if bad:
        return bad
    if len(u.solutions) != 1:
        return '%d solutions for a linear equation' % len(u.solutions)
    if len(d['R'].solution_nodes) != 1 or d['R'].solution_nodes[0].unknown is not u:
        return 'solution not registered with the robot'
    return None


def d_success():
    return leaf.ns()['b3'].SUCCESS


def drive(ctx, cs, work):
    seen = {}
    for c in cs:
        if seen.setdefault(c[0], c) != c:
            raise RuntimeError('two cases named ' + c[0])
    cs = list(seen.values())
    for c, bad in mc.pmap(work, cs, chunk=12):
        ctx.count('states')
        ctx.count('transitions')
        ctx.count('traces_validated_against_impl')
        if bad:
            ctx.violation(c[0], bad)
        elif ctx.cov['states'] % 400 == 1:
            ctx.sample(c[0])
    ctx.cov['exhaustive'] = True
    ctx.assumptions += ['symbols stand for generic nonzero numbers', 'equations are drawn from the grammar in the check']


def run(ctx):
    drive(ctx, cases(ctx.quick), work)
