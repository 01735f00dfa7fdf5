"""C23: the equation lists.  Every placement of a vocabulary of equations in matrix equations, every subset and every order of
unknowns being solved between rescans; every history of changes of the problem itself between scans: after each scan (or tick of the update leaf) the lists hold exactly the equations with one,
two and more unsolved unknowns, shortest first, and nothing else changed."""
import itertools
import sympy as sp
import mc

t1, t2, t3, t4, t23, d5 = sp.symbols('th_1 th_2 th_3 th_4 th_23 d_5')
l1, l2, Px, Py, r1, r2 = sp.symbols('l_1 l_2 Px Py r_11 r_23')
s, c = sp.sin, sp.cos
UN = [t1, t2, t3, t23, d5]


def vocabulary():
    """(LHS, RHS), sides sharing no unknown (as the sides of the kinematic equations do)"""
    return [(r1, s(t1)), (r1 * c(t1) + Px, l1), (Px, d5 + l1), (r1, s(t1) * c(t2)), (r1 * s(t1), l1 * c(t3) + l2), (Px * c(t1) - Py * s(t1) - d5, s(t2)),
            (r2, c(t23) * s(t1) * d5), (Py, l2), (sp.Integer(0), s(t23)), (r2 * c(t1) * c(t2), s(t3) * s(t23)),
            (r1, t1), (r1 + t1 * t2, sp.Integer(0)), (l1 * c(t1) + Px, l1 * c(t2) * c(t3) + l2 * s(t2) * s(t3)), (Px, s(t2)), (Py * s(t2), s(t3) + d5 * l1 * l2 * r1)]


def aux():
    return [(t23, t2 + t3), (t23, t2 - t3)]


def split_equations():
    """every way one to four unknowns can be on the two sides of an equation, with and without constants beside them"""
    out = []
    f = {t1: s(t1), t2: c(t2), t3: s(t3), t23: c(t23), d5: d5}
    for k in (1, 2, 3, 4):
        for qs in itertools.combinations(UN, k):
            for side in itertools.product((0, 1), repeat=k):
                parts = [[f[q] for q, z in zip(qs, side) if z == w] for w in (0, 1)]
                for cl in (sp.Integer(0), Px, sp.Integer(1)):
                    for cr in (sp.Integer(0), l1):
                        yl = sp.Mul(*parts[0]) + cl if parts[0] else cl
                        yr = sp.Add(*[l2 * x for x in parts[1]]) + cr if parts[1] else cr
                        out.append((yl, yr))
    return out


def nunk(l, r, solved, un=None):
    fs = sp.sympify(l).free_symbols | sp.sympify(r).free_symbols
    return len([u for u in (un or UN) if u in fs and u not in solved])


def ops(e):
    return int(sp.count_ops(e.RHS)) + int(sp.count_ops(e.LHS))


def key(e):
    return (sp.sympify(e.LHS), sp.sympify(e.RHS))


def check_lists(L, cells, auxs, solved, with_aux3, sorted_=True, un=None):
    if len(L) != 3 or not all(isinstance(x, list) for x in L):
        return 'not three lists'
    want = {1: set(), 2: set(), 3: set()}
    for l, r in cells:
        n = nunk(l, r, solved, un)
        if n:
            want[min(n, 3)].add((sp.sympify(l), sp.sympify(r)))
    extra = {1: set(), 2: set(), 3: set()}
    for l, r in auxs:
        n = nunk(l, r, solved, un)
        if n:
            extra[min(n, 3)].add(sp.sympify(l) - sp.sympify(r))
    for i in (1, 2, 3):
        got = [key(e) for e in L[i - 1]]
        for w in want[i]:
            if got.count(w) == 0:
                return 'equation %s = %s with %d unsolved unknowns is not in list %d: %s' % (w[0], w[1], i, i, L[i - 1])
            if got.count(w) > 1:
                return 'equation %s = %s is in list %d twice' % (w[0], w[1], i)
        seen = set()
        for g in got:
            if g in want[i]:
                continue
            df = sp.expand(g[0] - g[1])
            if df in extra[i] or -df in extra[i]:
                seen.add(df)
                seen.add(-df)
                continue
            return 'list %d has %s = %s, which does not belong there' % (i, g[0], g[1])
        if i < 3 or with_aux3:
            for w in extra[i]:
                if w not in seen:
                    return 'the sum of angles equation 0 = %s is not in list %d: %s' % (w, i, L[i - 1])
        if sorted_:
            o = [ops(e) for e in L[i - 1]]
            if o != sorted(o):
                return 'list %d is not ordered by length: %s' % (i, L[i - 1])
    return None


def build(cells, two, auxi):
    import ikbtbasics.ik_classes as ik
    import ikbtbasics.kin_cl as kc
    R = ik.Robot()
    places = [(0, 0), (1, 3), (2, 2), (0, 3), (2, 0), (1, 1), (2, 3), (0, 2)]
    ms = []
    half = (len(cells) + 1) // 2 if two else len(cells)
    for part in (cells[:half], cells[half:]):
        if not part:
            continue
        Td, Ts = sp.zeros(4), sp.zeros(4)
        for p, (l, r) in zip(places, part):
            Td[p], Ts[p] = l, r
        ms.append(ik.kc.matrix_equation(Td, Ts))
    if two and ms:                                  # the same equation once more, in another matrix
        ms.append(ik.kc.matrix_equation(ms[0].Td, ms[0].Ts))
    R.mequation_list = ms
    if auxi is not None:
        R.kequation_aux_list = [kc.kequation(*aux()[auxi])]
    us = []
    for i, q in enumerate(UN):
        u = kc.unknown(q)
        u.n = i + 1
        us.append(u)
    return R, us


def history(item):
    idx, two, auxi, order, how = item
    import b3
    import ikbtleaves.updateL as ul
    V = vocabulary()
    cells = [V[i] if isinstance(i, int) else i for i in idx]
    R, us = build(cells, two, auxi)
    auxs = [aux()[auxi]] if auxi is not None else []
    by = {u.symbol: u for u in us}
    n = 0
    snap = str([(m.Td, m.Ts) for m in R.mequation_list]) + str(R.kequation_aux_list)
    bb = b3.Blackboard()
    bb.set('Robot', R)
    bb.set('unknowns', us)
    t = b3.BehaviorTree()
    t.root = ul.updateL()
    solved = []
    for step in [None] + list(order):
        if step is not None:
            by[step].solved = True
            solved.append(step)
        n += 1
        if how == 'scan':
            r = mc.guarded(R.scan_for_equations, us)
        elif how == 'mscan':
            r = mc.guarded(R.scan_Mequation, R.mequation_list[0], us)
        else:
            r = mc.guarded(t.tick, 'x', bb)
            if r == ('ok', b3.SUCCESS):
                r = ('ok', [bb.get(k) for k in ('eqns_1u', 'eqns_2u', 'eqns_3pu')])
            elif r[0] == 'ok':
                r = ('exc', 'the update leaf answers %s' % (r[1],))
        if r[0] != 'ok':
            return n, r[1]
        cl = cells
        if how == 'mscan':
            m = R.mequation_list[0]
            cl = [(m.Td[i, j], m.Ts[i, j]) for i in range(3) for j in range(4)]
        bad = check_lists(r[1], cl, auxs if how != 'mscan' else [], solved, how == 'leaf', sorted_=how != 'leaf' or not auxs)
        if bad:
            return n, 'solved %s: %s' % (solved, bad)
        if str([(m.Td, m.Ts) for m in R.mequation_list]) + str(R.kequation_aux_list) != snap:
            return n, 'the scan changes the equations'
        if [u.symbol for u in us] != UN or any(u.solved != (u.symbol in solved) for u in us):
            return n, 'the scan changes the unknowns'
    return n, None


SETS = [(0, 3, 5), (6, 9, 2), (8, 14)]
OPS = [('solve', t1), ('solve', t3), ('aux', 0), ('cell', 9), ('cell', 0), ('robot', 1), ('unknown',), ('mark', t1), ('mark', t3), ('nothing',)]


def changing(item):
    """scans between which the problem itself changes: an equation is added or rewritten in place, an unknown is added, another robot
    is worked on"""
    first, ops, how = item
    import b3
    import ikbtbasics.kin_cl as kc
    import ikbtleaves.updateL as ul
    V = vocabulary()
    cells = [V[i] for i in SETS[first]]
    R, us = build(cells, 0, None)
    auxs, solved, un = [], [], list(UN)
    bb = b3.Blackboard()
    bb.set('Robot', R)
    bb.set('unknowns', us)
    t = b3.BehaviorTree()
    t.root = ul.updateL()
    n = 0
    for op in [('nothing',)] + list(ops):
        n += 1
        if op[0] == 'solve':
            [u for u in us if u.symbol == op[1]][0].solved = True
            solved = [q for q in solved if q != op[1]] + [op[1]]
        elif op[0] == 'mark':            # recognised by leaves that could not solve it after all
            u = [u for u in us if u.symbol == op[1]][0]
            for k in ('readytosolve', 'solvable_tan', 'solvable_sincos'):
                setattr(u, k, True)
            u.solvemethod += 'arcsin'
            u.eqntosolve = kc.kequation(r1, s(op[1]))
            u.solutions = u.solutions + [sp.asin(r1)]
        elif op[0] == 'aux' and not auxs:
            auxs = [aux()[op[1]]]
            R.kequation_aux_list.append(kc.kequation(*auxs[0]))
        elif op[0] == 'cell':
            m = R.mequation_list[0]
            m.Td[0, 0], m.Ts[0, 0] = V[op[1]]
            cells = [V[op[1]]] + cells[1:]
        elif op[0] == 'robot':
            cells = [V[i] for i in SETS[op[1]]]
            R, us = build(cells, 0, None)
            auxs, solved, un = [], [], list(UN)
            bb.set('Robot', R)
            bb.set('unknowns', us)
        elif op[0] == 'unknown' and t4 not in un:
            u = kc.unknown(t4)
            u.n = 6
            us.append(u)
            un.append(t4)
            m = R.mequation_list[0]
            m.Td[2, 1], m.Ts[2, 1] = r2, s(t4) * c(t1)
            cells = cells + [(r2, s(t4) * c(t1))]
        if how == 'scan':
            r = mc.guarded(R.scan_for_equations, us)
        else:
            r = mc.guarded(t.tick, 'x', bb)
            if r == ('ok', b3.SUCCESS):
                r = ('ok', [bb.get(k) for k in ('eqns_1u', 'eqns_2u', 'eqns_3pu')])
            elif r[0] == 'ok':
                r = ('exc', 'the update leaf answers %s' % (r[1],))
        if r[0] != 'ok':
            return n, r[1]
        bad = check_lists(r[1], cells, auxs, solved, how == 'leaf', sorted_=how != 'leaf' or not auxs, un=un)
        if bad:
            return n, 'after %s: %s' % (ops[:n - 1], bad)
        if bb.get('Robot') is not R or bb.get('unknowns') is not us:
            return n, 'the update leaf exchanges the robot or the unknowns'
    return n, None


def helpers(item):
    """count_unknowns / get_unknowns / get_variables / get_deps / find_obj on every subset of solved unknowns"""
    i, mask = item
    import ikbtbasics.kin_cl as kc
    import ikbtfunctions.helperfunctions as hf
    l, r = vocabulary()[i]
    us = [kc.unknown(q) for q in UN]
    solved = [q for b, q in enumerate(UN) if mask >> b & 1]
    for u in us:
        u.solved = u.symbol in solved
    for e in (l, r, sp.sympify(l) - r):
        e = sp.sympify(e)
        there = [q for q in UN if q in e.free_symbols]
        uns = [q for q in there if q not in solved]
        x = mc.guarded(hf.count_unknowns, us, e)
        if x != ('ok', len(uns)):
            return 'count_unknowns(%s) with %s solved: %s' % (e, solved, x[1])
        x = mc.guarded(hf.get_unknowns, us, e)
        if x[0] != 'ok' or sorted(str(u.symbol) for u in x[1]) != sorted(map(str, uns)):
            return 'get_unknowns(%s) with %s solved: %s' % (e, solved, x[1])
        x = mc.guarded(hf.get_variables, us, e)
        if x[0] != 'ok' or sorted(str(u.symbol) for u in x[1]) != sorted(map(str, there)):
            return 'get_variables(%s): %s' % (e, x[1])
        x = mc.guarded(hf.get_deps, us, e)
        if uns:
            if x[0] == 'ok':
                return 'get_deps(%s) accepts unsolved dependencies %s' % (e, uns)
        elif x[0] != 'ok' or {u.symbol for u in x[1]} != set(there):
            return 'get_deps(%s): %s' % (e, x[1])
    for u in us:
        if mc.guarded(hf.find_obj, u.symbol, us) != ('ok', u):
            return 'find_obj(%s)' % u
    if mc.guarded(hf.find_obj, t4, us) != ('ok', None):
        return 'find_obj of a symbol that is no unknown'
    return None


def run(ctx):
    ctx.assumptions += ['equations whose two sides share an unknown are not among those enumerated (the kinematic equations have none)']
    V = vocabulary()
    n = len(V)
    items = []
    orders2 = [(t1, t2, t3), (t23, t1, d5), (t3, t23, t2, t1, d5), (d5, t2)]
    sizes = (1, 2, 3) if ctx.quick else (1, 2, 3, 4)
    k = 0
    for m in sizes:
        for idx in itertools.permutations(range(n), m) if m < 3 else itertools.combinations(range(n), m):
            for auxi in (None, 0, 1):
                k += 1
                hows = ('scan', 'leaf', 'mscan') if m == 1 or not ctx.quick else (('scan', 'leaf', 'mscan')[k % 3],)
                for how in hows:
                    for two in (0, 1) if m < 3 else (k % 2,):
                        ordr = orders2 if m == 1 else (orders2[(k + two) % 4],)
                        for o in ordr:
                            if how == 'mscan' and (two or auxi):
                                continue
                            items.append((idx, two, auxi, o, how))
    if not ctx.quick:
        items += [((i, j), 0, a, o, 'leaf') for i in range(n) for j in range(i) for a in (None, 0) for o in itertools.permutations(UN, 3)]
    # every order of solving all unknowns, over all equations at once
    everything = tuple(range(8)), tuple(range(7, n))
    for e in everything:
        for o in itertools.permutations(UN):
            for how in ('scan', 'leaf'):
                items.append((e, 0, 0, o, how))
    # an equation next to another way of writing it
    for l, r in V:
        for v in ((r, l), (l - r, sp.Integer(0)), (sp.Integer(0), r - l), (l + Px, r + Px), (-l, -r), (2 * l, 2 * r), (l - l2, r - l2)):
            if v == (l, r):
                continue
            for cs in (((l, r), v), (v, (l, r)), ((l, r), v, (l, r))):
                for how in ('scan', 'leaf', 'mscan'):
                    items.append((cs, 0, None, (t1, t23, t3), how))
    se = split_equations()
    # (several at a time; neighbours differ in constants and sides)
    for k in range(0, len(se), 6):
        for how in ('scan', 'leaf') if not ctx.quick else (('scan', 'leaf')[k // 6 % 2],):
            items.append((tuple(se[k:k + 6]), 0, None, orders2[k % 4] if k % 4 != 2 else (t2, t1), how))
    if not ctx.quick:
        items += [((e,), 0, None, o, how) for e in se for o in orders2 for how in ('scan', 'leaf', 'mscan')]
    if ctx.only:
        items = [i for i in items if str(i) == ctx.only]
    for it, (k, bad) in mc.pmap(history, items):
        ctx.count('states', k)
        ctx.count('transitions', k)
        ctx.count('traces_validated_against_impl')
        if bad:
            ctx.violation(str(it), bad)
    ch = []
    for n_ in (1, 2, 3) if ctx.quick else (1, 2, 3, 4):
        for ops_ in itertools.product(OPS, repeat=n_):
            for first in (0, 1, 2):
                if ctx.quick and n_ == 3 and (first or len(set(ops_)) < 3):
                    continue
                for how in ('scan', 'leaf'):
                    ch.append((first, ops_, how))
    for it, (k, bad) in mc.pmap(changing, [i for i in ch if not ctx.only or 'changing %s' % (i,) == ctx.only]):
        ctx.count('states', k)
        ctx.count('transitions', k)
        ctx.count('traces_validated_against_impl')
        if bad:
            ctx.violation('changing %s' % (it,), bad)
    hs = [(i, m) for i in range(n) for m in range(2 ** len(UN))]
    for it, bad in mc.pmap(helpers, hs):
        ctx.count('states')
        if bad and (not ctx.only or ctx.only == 'helpers %s' % (it,)):
            ctx.violation('helpers %s' % (it,), bad)
    ctx.sample({'history': str(items[-1]) if items else None})
