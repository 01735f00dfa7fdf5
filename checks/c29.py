"""C29 solver leaves have no memory: whatever was tried before, in vain or with success, on this or another unknown, an unknown
is solved from its equations exactly as if it were the first one looked at."""
import itertools
import c25
import leaf
import mc

NAMES = ('th_1', 'th_2', 'th_3', 'd_3')


def menu(target):
    """name -> (one-unknown equations, equations with two unknowns); other is the other angle"""
    n = leaf.ns()
    sp, s = n['sp'], n['sy']
    u, o = s[target], s['th_3' if target == 'th_1' else 'th_1']
    P, Q, S, C, Z = s['Px'], s['Py'], sp.sin(u), sp.cos(u), sp.Integer(0)
    l1, l2, l3, d, so, co = s['l_1'], s['l_2'], s['l_3'], s['d_3'], sp.sin(o), sp.cos(o)
    return {
        'linear': ([(P, 2 * u + l3)], []), 'square': ([(P, u**2 + l1)], []), 'linear in sum': ([(s['th_12'], u + s['th_2'])], []),
        'sine': ([(P, l1 * S + l3)], []), 'cosine': ([(P, -3 * C + l3)], []),
        'sine squared': ([(P, S**2)], []), 'cosine squared': ([(P, l1 * C**2)], []), 'u sine': ([(P, u * S)], []),
        'sine product': ([(P, S * sp.sin(u + s['th_2']))], []), 'cosine product': ([(P, C * sp.cos(u + s['th_2']) + l3)], []),
        'pair': ([(P, l1 * S + l3), (Q, l2 * C)], []), 'pair with length': ([], [(P, d * S), (Q, d * C)]),
        'pair with angle': ([], [(P, so * S), (Q, so * C)]), 'half with angle': ([], [(P, so * S), (Q, C)]),
        'pair plus angle': ([], [(P, S + so), (Q, C + so)]), 'pair of squares': ([(P, S**2), (Q, C**2)], []),
        'sine and cosine': ([(P, l1 * S + l2 * C)], []), 'homogeneous': ([(Z, l1 * S + l2 * C)], []), 'mixed product': ([(P, S * C + S)], []),
        'two mixed': ([(P, l1 * S + l2 * C), (Q, l1 * C - l2 * S)], []), 'mixed and product': ([(P, l1 * S + l2 * C), (Q, S * C)], []),
        'other angle': ([(P, so + l1)], []), 'nothing': ([], []),
        # equations shared by both angles; the list they are in depends on what is solved
        'square and other': (None, [(P, u**2 + l1 * o)]), 'other squared': (None, [(P, o**2 + l1 * u)]),
        'sine squared and other': (None, [(P, S**2 + l1 * so)]), 'other sine squared': (None, [(P, so**2 + l1 * S)]),
        'mixed product and other': (None, [(P, S * C + l1 * so + l2 * co)]), 'mixed and other product': (None, [(P, so * co + l1 * S + l2 * C)]),
        'squares and others': (None, [(P, S**2 + so), (Q, C**2 + co)]), 'others squared': (None, [(P, so**2 + S), (Q, co**2 + C)]),
    }


SHORT = ('linear', 'sine', 'cosine', 'sine squared', 'cosine product', 'pair', 'pair with angle', 'half with angle', 'pair plus angle',
         'sine and cosine', 'two mixed')


def tree():
    n = leaf.ns()
    b3 = n['b3']

    def pair(k):
        xs = [c() for c in n['leaves'][k]]
        for x in xs:
            x.Name, x.BHdebug = k, False
        return b3.Sequence(xs)
    rk = n['rank']()
    rk.Name, rk.BHdebug = 'rank', False
    t = b3.BehaviorTree()
    t.root = b3.Priority([pair('algebra'), b3.Sequence([b3.OrNode([pair('tan'), pair('sincos')]), rk]), pair('simu'), pair('sinandcos')])
    return t


class World:
    def __init__(self, solved, t=None):
        n = leaf.ns()
        b3, kc, ik = n['b3'], n['kc'], n['ik']
        self.t, self.bb, self.R = t or tree(), b3.Blackboard(), ik.Robot()
        self.us = {}
        for nm in NAMES:
            k = kc.unknown(n['sy'][nm])
            if nm in solved:
                k.solved, k.solutions, k.nsolutions = True, [n['sp'].Symbol('known')], 1
            self.us[nm] = k
        self.bb.set('unknowns', list(self.us.values()))
        self.bb.set('Robot', self.R)
        self.bb.set('Tm', None)

    def solved(self):
        return frozenset(k for k, u in self.us.items() if u.solved)

    def step(self, target, name):
        kc = leaf.ns()['kc']
        e1, e2 = menu(target)[name]
        u = self.us[target]
        if e1 is None:
            free = {x.symbol for x in self.us.values() if not x.solved}
            e1, e2 = ([e for e in e2 if (len((e[0].free_symbols | e[1].free_symbols) & free) < 2) == one] for one in (True, False))
        bb = self.bb
        bb.set('curr_unk', u)
        for k, es in (('eqns_1u', e1), ('eqns_2u', e2), ('eqns_3pu', [])):
            bb.set(k, [kc.kequation(a, b) for a, b in es])
        was, nodes = u.solved, len(self.R.solution_nodes)
        st = self.t.tick('mc', bb)
        if was:
            return ('already solved', len(self.R.solution_nodes) - nodes, str(u.solutions))
        if not u.solved:
            return (st, False, str(u.solutions), len(self.R.solution_nodes) - nodes)
        return (st, True, str(u.solutions), u.nsolutions, str(u.eqntosolve), len(self.R.solution_nodes) - nodes)


_fresh = {}
TH = ('th_1', 'th_3')


def fresh(solved, act):
    return _fresh[solved, act]


def work_fresh(k):
    """what the leaves do with it as the very first thing in a process"""
    return c25.child(World(k[0]).step, *k[1])


def other_robot(pre, act, solved, act2):
    """a step for one robot, then the same leaves are given another robot"""
    t = tree()
    World(pre, t).step(*act)
    got = World(solved, t).step(*act2)
    want = fresh(solved, act2)
    if got != want:
        return '%s from "%s" with %s solved: %s, first thing tried it gives %s' % (act2[0], act2[1], sorted(solved), got, want)
    return None


def work_other(c):
    return mc.guarded(other_robot, *c, seconds=60)[1]


def history(acts):
    w = World({'th_2'})
    for i, a in enumerate(acts):
        before = w.solved()
        known = str(w.us[a[0]].solutions)
        got = w.step(*a)
        want = ('already solved', 0, known) if a[0] in before else fresh(before, a)
        if got != want:
            return 'at step %d, %s from "%s" with %s solved: %s, first thing tried it gives %s' % (
                i + 1, a[0], a[1], sorted(before), got, want)
    return None


def work(acts):
    r = mc.guarded(history, acts, seconds=60)
    return r[1]


def run(ctx):
    leaf.ns()
    A = [(t, m) for t in ('th_1', 'th_3') for m in menu('th_1')]
    B = [(t, m) for t in ('th_1', 'th_3') for m in SHORT]
    hs = list(itertools.product(A, repeat=2))
    # a history is worth its third step only if the second did not simply repeat a solved unknown
    hs += [h for h in itertools.product(*([B] if ctx.quick else [A]) * 3) if ctx.quick is False or h[2][0] == 'th_1']
    if not ctx.quick:
        hs += list(itertools.product([a for a in B if a[0] == 'th_1'], repeat=4))
    hs = list(dict.fromkeys(hs))
    none = frozenset({'th_2'})
    ks = [(none | set(x), a) for x in ((), TH[:1], TH[1:]) for a in A if a[0] not in x]
    for k, (kind, r) in mc.pmap(work_fresh, ks, chunk=4):
        ctx.count('states')
        _fresh[k] = tuple(r) if kind == 'ok' else r
    ws = [(none | {TH[1 - i]}, (TH[i], m)) for i in (0, 1) for m in menu('th_1')]
    for c, bad in mc.pmap(work_other, [w + v for w in ws for v in ws if ctx.quick is False or len({w[1][0], v[1][0]}) == 2], chunk=20):
        ctx.count('histories')
        ctx.count('states', 2)
        ctx.count('transitions', 2)
        ctx.count('traces_validated_against_impl')
        if bad:
            ctx.violation('another robot: %s from %s, %s solved; then %s from %s' % (c[1] + (sorted(c[0]),) + c[3]), bad)
    for h, bad in mc.pmap(work, hs, chunk=20):
        ctx.count('histories')
        ctx.count('states', len(h))
        ctx.count('transitions', len(h))
        ctx.count('traces_validated_against_impl')
        key = '; '.join('%s from %s' % a for a in h)
        if bad:
            ctx.violation(key, bad)
        elif ctx.cov['histories'] % 900 == 1:
            ctx.sample(key)
    ctx.cov['exhaustive'] = True
    ctx.assumptions.append('equation lists are drawn from a menu of 31 shapes per unknown; the right answer to each alone is the subject of C09 to C14')
