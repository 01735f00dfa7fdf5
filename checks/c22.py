"""C22: the equation transforms.  sub_transform: every placement of related expressions in a matrix equation, every pattern of
solved unknowns, ticked to rest.  x2z2_transform: every ordered list (to a length) of two-unknown equations, unknown offered and
definition of the combined angles.  After every tick every equation must still hold wherever it held before."""
import itertools
import sympy as sp
import mc
import memo
import truth

th_1, th_2, th_3, th_4, th_5, th_23, th_34 = sp.symbols('th_1 th_2 th_3 th_4 th_5 th_23 th_34')
l_1, l_2, l_3, d_1, x, y = sp.symbols('l_1 l_2 l_3 d_1 x y')
Px, Py, Pz = sp.symbols('Px Py Pz')
s, c = sp.sin, sp.cos
ENVS = [{th_1: .31, th_2: -.83, th_3: 1.27, th_4: 2.11, th_5: -1.71, d_1: .53, l_1: .7, l_2: -1.3, l_3: .4},
        {th_1: -2.4, th_2: 1.1, th_3: .45, th_4: -.6, th_5: 2.9, d_1: -1.9, l_1: 1.1, l_2: .3, l_3: .8}]


def vocabulary(quick):
    v = [s(th_1) * c(th_2), s(th_1) * c(th_2) + s(th_3), -s(th_1) * c(th_2), l_1 * s(th_3) - s(th_1) * c(th_2), d_1 + l_1, d_1 + l_1 + l_2 * c(th_1),
         c(th_1), l_1 * c(th_1) * s(th_2), s(d_1 + l_1), sp.Integer(1), sp.Integer(0), th_2 + th_3, s(th_2 + th_3) * l_2,
         s(th_3), c(th_1) ** 2 + s(th_3) * c(th_1)]
    if not quick:
        v += [sp.Integer(-1), l_1, -l_1 * c(th_1), th_4, c(th_4 + th_2 + th_3), s(th_3) * c(th_4) + s(th_4)]
    return v


PLACES = [((0, 0), (1, 2), (2, 3)), ((2, 1), (0, 3), (1, 1)), ((2, 2), (1, 0), (0, 1))]


def unknowns(solved, R=None):
    import ikbtbasics.kin_cl as kc
    us = []
    for i, q in enumerate((th_1, th_2, th_3, th_4, d_1)):
        u = kc.unknown(q)
        u.n = i + 1
        u.solved = q in solved
        us.append(u)
    return us


def nunk(e, us):
    return len([u for u in us if not u.solved and e.has(u.symbol)])


def subst(item):
    es, place, solved, pre = item
    import b3
    import ikbtbasics.ik_classes as ik
    import ikbtleaves.sub_transform as stf
    import ikbtfunctions.helperfunctions as hf
    Td, Ts = hf.ik_lhs(), sp.zeros(4)
    for e, p in zip(es, PLACES[place]):
        Ts[p] = e
    us = unknowns(solved)
    R = ik.Robot()
    m0 = ik.kc.matrix_equation(Td, Ts)
    R.mequation_list = [m0]
    two = ik.kc.matrix_equation(Td, Ts * 2)      # a second equation, which is not to be touched into falsehood
    two.Td = m0.Td * 2
    R.mequation_list.append(two)
    envs = []
    for e0 in ENVS:
        env = dict(e0)
        for i in range(3):
            for j in range(4):
                env[Td[i, j]] = truth.value(m0.Ts[i, j], e0).real
        envs.append(env)
    bb = b3.Blackboard()
    bb.set('Robot', R)
    bb.set('unknowns', us)
    for k in ('eqns_1u', 'eqns_2u', 'eqns_3pu'):
        bb.set(k, ['stale ' + k])
    t = b3.BehaviorTree()
    t.root = stf.sub_transform()
    n = 0
    for _ in range(8):
        before = str([m.Ts for m in R.mequation_list])
        old = m0.Ts.copy()
        r = mc.guarded(t.tick, 'x', bb)
        n += 1
        if r != ('ok', b3.SUCCESS):
            return n, 'answer %s' % (r,)
        R = bb.get('Robot')
        us2 = bb.get('unknowns')
        if [(u.symbol, u.solved) for u in us2] != [(u.symbol, u.solved) for u in us]:
            return n, 'unknowns changed'
        for m in R.mequation_list:
            for i in range(3):
                for j in range(4):
                    for env in envs:
                        d = truth.differs(m.Td[i, j], m.Ts[i, j], env)
                        if d:
                            return n, d
        for i in range(3):
            for j in range(4):
                new = R.mequation_list[0].Ts[i, j]
                if new != old[i, j] and nunk(new, us) >= nunk(old[i, j], us):
                    return n, '%s was replaced by %s, which does not have fewer unknowns' % (old[i, j], new)
        after = str([m.Ts for m in R.mequation_list])
        if after == before:
            break
        L = [bb.get(k) for k in ('eqns_1u', 'eqns_2u', 'eqns_3pu')]
        if any(isinstance(e, str) for l in L for e in l):
            return n, 'equations changed but the equation lists were not rebuilt'
    else:
        return n, 'does not come to rest'
    m = R.mequation_list[0]
    cells = [(i, j) for i in range(3) for j in range(4)]
    for p in cells:
        for q in cells:
            e1, e2 = m.Ts[q], m.Ts[p]
            if e1 == e2 or e1 == 0 or e2 == 0:
                continue
            for sg in (1, -1):
                if e2.has(sg * e1):
                    new = e2.subs(sg * e1, sg * m.Td[q])
                    if nunk(new, us) < nunk(e2, us):
                        return n, '%s contains %s but was not rewritten' % (e2, sg * e1)
    return n, None


# ---- sum of squares ----------------------------------------------------------------------------
def candidates():
    """name -> (LHS, RHS without its constant k)"""
    P1 = Px * c(th_1) + Py * s(th_1)
    return {
        'A': (P1, l_3 * c(th_23) - l_2 * s(th_23) + l_1 * c(th_2), True),
        'B': (-Pz, l_3 * s(th_23) + l_2 * c(th_23) + l_1 * s(th_2), True),
        'Bneg': (Pz, -l_3 * s(th_23) - l_2 * c(th_23) - l_1 * s(th_2), True),
        'D': (-Px * s(th_1) + Py * c(th_1), l_2 * c(th_2) * s(th_3), True),     # squares keep two unknowns with A
        'E': (Px * c(th_2) + Pz, l_1 * s(th_3), False),                        # unsolved unknown on the left
        'F': (sp.Integer(0), l_1 * s(th_2) * c(th_3), True),                   # no position
        'G': (P1, l_1 * c(th_2) + l_2 * c(th_4), True),
        # as A and B with a joint length, still there in the sum of their squares
        'I': (P1, l_3 * c(th_23) - l_2 * s(th_23) + d_1 * c(th_2), True),
        'J': (-Pz, l_3 * s(th_23) + l_2 * c(th_23) + d_1 * s(th_2), True),
        'H': (Pz, l_1 * s(th_2) + l_2 * s(th_4), True),
        # with E: the squares leave one unknown on the right and one on the left
        'N': (Py * s(th_2) - Pz, l_1 * c(th_3), False),
    }


GOOD = [{'A', 'B'}, {'A', 'Bneg'}]
GOOD_D1 = {'I', 'J'}


def squares(item):
    names, cur, define, solved = item
    import b3
    import ikbtbasics.ik_classes as ik
    import ikbtbasics.kin_cl as kc
    import ikbtleaves.x2y2_transform as xt
    C = candidates()
    R = ik.Robot()
    us = unknowns(solved)
    u23 = kc.unknown(th_23)
    u23.n = 23
    us.append(u23)
    aux = {'sum': th_2 + th_3, 'difference': th_2 - th_3, 'none': None}[define]
    if aux is not None:
        R.kequation_aux_list.append(kc.kequation(th_23, aux))
    k = sp.symbols('k_0:9')
    eqs, envs = [], []
    for e0 in ENVS:
        env = dict(e0)
        env.update({Px: .9, Py: -.35, Pz: 1.4})
        env[th_23] = truth.value(aux if aux is not None else th_2 + th_3, e0).real
        for n, i in zip(names, range(9)):
            L, Rr, _ = C[n]
            env[k[i]] = (truth.value(L, env) - truth.value(Rr, env)).real
        envs.append(env)
    for n, i in zip(names, range(9)):
        L, Rr, _ = C[n]
        eqs.append(kc.kequation(L - k[i], Rr))
    R.mequation_list = []
    bb = b3.Blackboard()
    bb.set('Robot', R)
    bb.set('unknowns', us)
    bb.set('eqns_1u', [])
    bb.set('eqns_2u', list(eqs))
    bb.set('eqns_3pu', [])
    bb.set('curr_unk', [u for u in us if u.symbol == cur][0])
    t = b3.BehaviorTree()
    t.root = xt.x2z2_transform()
    naux = len(R.kequation_aux_list)
    r = mc.guarded(t.tick, 'x', bb)
    if r[0] != 'ok':
        return r[1]
    R = bb.get('Robot')
    if any(u.solved != (u.symbol in solved) or u.solutions for u in bb.get('unknowns')):
        return 'the transform marks an unknown as solved'
    new = R.kequation_aux_list[naux:]
    good = cur in (th_2, th_3) and any(g <= set(names) for g in GOOD + [GOOD_D1] * (d_1 in solved)) and th_1 in solved and th_3 not in solved and th_2 not in solved
    if r[1] == b3.FAILURE:
        if new:
            return 'answers failure, but adds %s' % (new,)
        if good and define != 'none':
            return 'a usable pair is not found among %s' % (eqs,)
        return None
    if r[1] != b3.SUCCESS:
        return 'answer %s' % r[1]
    if len(new) != 1:
        return 'answers success with %d new equations' % len(new)
    e = new[0]
    n = len([u for u in us if not u.solved and (sp.sympify(e.LHS).has(u.symbol) or sp.sympify(e.RHS).has(u.symbol))])
    if n != 1:
        return 'new equation %s has %d unknowns' % (e, n)
    for env in envs:
        d = truth.differs(e.LHS, e.RHS, env)
        if d:
            return 'new equation %s' % d
    return None


def run(ctx):
    memo.install()
    ctx.assumptions += ['truth at two generic joint configurations stands for an identity of the trigonometric polynomials',
                        'three related entries of the matrix equation at a time; lists of at most three (thorough four) equations']
    V = vocabulary(ctx.quick)
    sol = [(), (th_1,), (th_2, th_3), (th_1, th_2, th_3, th_4, d_1)]
    items = []
    for n, es in enumerate(itertools.permutations(V, 3)):
        for pl in ((n % 3,) if ctx.quick else (0, 1, 2)):
            for sv in ((sol[n % 4],) if ctx.quick else sol):
                items.append((es, pl, sv, 0))
    if ctx.only:
        items = [i for i in items if 'sub %s' % (i,) == ctx.only]
    for it, (n, bad) in mc.pmap(subst, items):
        ctx.count('states', n)
        ctx.count('transitions', n)
        ctx.count('traces_validated_against_impl')
        if bad:
            ctx.violation('sub %s' % (it,), bad)
    names = list(candidates())
    sq = []
    for n in (0, 1, 2, 3) if ctx.quick else (0, 1, 2, 3, 4):
        for p in itertools.permutations(names, n):
            if n == 3 and ctx.quick and not any(g <= set(p) for g in GOOD + [GOOD_D1]) and 'E' not in p:
                continue
            if 'N' in p and (n > 2 or 'E' not in p):
                continue
            for define in ('sum', 'difference', 'none'):
                if GOOD_D1 & set(p):
                    if GOOD_D1 <= set(p):
                        sq += [(p, u, define, sv) for u in (th_3, th_2) for sv in ((th_1, d_1), (th_1,))]
                    continue
                sq.append((p, th_3, define, (th_1,)))
                if n <= 2 or not ctx.quick:
                    sq.append((p, th_2, define, (th_1,)))
                    sq.append((p, th_1, define, ()))
                    sq.append((p, th_3, define, ()))
                    sq.append((p, th_4, define, (th_1, th_2)))
                    sq.append((p, th_3, define, (th_1, th_2)))
    if ctx.only:
        sq = [i for i in sq if 'squares %s' % (i,) == ctx.only]
    # the simplifications, once, before the processes split up
    for it in sq[:]:
        if len(it[0]) == 2 and it[1] == th_3:
            squares(it)
    for it, bad in mc.pmap(squares, sq):
        ctx.count('states')
        ctx.count('transitions')
        ctx.count('traces_validated_against_impl')
        if bad:
            ctx.violation('squares %s' % (it,), bad)
    ctx.sample({'entries': [str(e) for e in items[-1][0]] if items else None, 'equations': sq[-1][0] if sq else None})
