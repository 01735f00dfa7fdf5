"""C31 completion: every history of unknowns being solved, added and attempted, looked at by the completion detector in both of its
modes, alone and as the end of a solving loop."""
import copy
import itertools
import time
import mc

NAMES = ['th_1', 'd_2', 'th_3', 'th_23', 'th_5', 'th_234', 'th_4', 'th_6', 'th_34', 'th_45', 'th_56', 'th_345', 'th_456', 'th_123']
# what a solver may leave on an unknown: not looked at, recognised, attempted in vain, solved
KINDS = ('new', 'ready', 'vain', 'solved')


def make(n, kinds):
    import sympy as sp
    import ikbtbasics.kin_cl as kc
    us = []
    for nm, k in zip(NAMES[:n], kinds):
        u = kc.unknown(sp.Symbol(nm))
        u.n = int(nm.split('_')[1])
        put(u, k)
        us.append(u)
    return us


def put(u, k):
    import sympy as sp
    import ikbtbasics.kin_cl as kc
    if k == 'ready':
        u.readytosolve, u.solvemethod = True, 'algebra'
        u.eqntosolve = kc.kequation(sp.Symbol('Px'), u.symbol)
    if k == 'vain':
        u.solutions, u.nsolutions, u.solvemethod = [sp.Symbol('Px')], 1, 'arcsin'
    if k == 'solved':
        u.solved, u.solutions, u.nsolutions, u.solvemethod = True, [sp.Symbol('Px'), sp.Symbol('Py')], 2, 'sinANDcos'


def state(us):
    return [(u.symbol, {k: copy.copy(v) for k, v in vars(u).items()}) for u in us]


def board(bb):
    return {k: (id(v), repr(v)) for k, v in bb._base_memory.items()} if hasattr(bb, '_base_memory') else None


def alone(c):
    """a history of lists of unknowns, looked at one after another by the same detector on the same blackboard"""
    flag, hist = c
    import b3
    import ikbtbasics.ik_classes as ik
    from ikbtleaves.comp_detect import comp_det
    t, bb = b3.BehaviorTree(), b3.Blackboard()
    d = comp_det()
    if flag is not None:
        d.FailAllDone = flag
    t.root = d
    R = ik.Robot()
    for kinds in hist:
        us = make(len(kinds), kinds)
        lists = {k: [k] for k in ('eqns_1u', 'eqns_2u', 'eqns_3pu')}
        for k, v in (('unknowns', us), ('Robot', R), ('Tm', None), ('curr_unk', us[0]), *lists.items()):
            bb.set(k, v)
        before = state(us)
        r = mc.guarded(t.tick, 'mc', bb, seconds=20)
        done = all(k == 'solved' for k in kinds)
        want = b3.SUCCESS if done != bool(flag) else b3.FAILURE
        if r[0] == 'exc':
            return r[1]
        if r[1] != want:
            return 'unknowns %s: answer %s, must be %s' % (kinds, r[1], want)
        if state(us) != before or bb.get('unknowns') is not us or any(bb.get(k) is not v or v != [k] for k, v in lists.items()) or \
                bb.get('curr_unk') is not us[0] or bb.get('Robot') is not R:
            return 'unknowns %s: looking changes something' % (kinds,)
    return None


def loop(c):
    """a solving loop: in each round as many unknowns as the script says get solved (and added); it must run until all are
    solved, no longer, and at most its number of rounds"""
    n, limit, script = c
    import b3
    from ikbtleaves.comp_detect import comp_det
    us = make(n, ['new'] * n)
    rounds = []

    class Work(b3.Action):
        def tick(self, tick):
            s, a = script[len(rounds)] if len(rounds) < len(script) else (0, 0)
            rounds.append(1)
            for u in [u for u in us if not u.solved][:s]:
                put(u, 'solved')
            for _ in range(a):
                us.append(make(len(us) + 1, ['new'] * (len(us) + 1))[-1])
            return b3.SUCCESS
    bb = b3.Blackboard()
    bb.set('unknowns', us)
    bb.set('Robot', None)
    t = b3.BehaviorTree()
    t.root = b3.RepeatUntilSuccess(b3.Sequence([Work(), comp_det()]), limit)
    r = mc.guarded(t.tick, 'mc', bb, seconds=20)
    if r[0] == 'exc':
        return r[1]
    uns, tot, want, ok = n, n, 0, False
    for k in range(limit):
        s, a = script[k] if k < len(script) else (0, 0)
        uns = max(0, uns - s) + a
        want += 1
        if uns == 0:
            ok = True
            break
    if len(rounds) != want:
        return 'ran %d rounds, must run %d' % (len(rounds), want)
    if (r[1] == b3.SUCCESS) != ok:
        return 'answer %s after %d rounds, %d unknowns unsolved' % (r[1], want, uns)
    return None


def work(c):
    time.sleep = lambda s: None
    return alone(c[1]) if c[0] == 'alone' else loop(c[1])


def cases(quick):
    for n in range(1, 5 if quick else 7):
        for kinds in itertools.product(KINDS, repeat=n):
            for flag in (None, False, True):
                yield 'alone', (flag, (kinds,))
    for n in (5, 7, 10, 14):
        for odd in KINDS:
            for at in itertools.chain(((i,) for i in range(n)), itertools.combinations(range(n), 2)):
                for flag in (None, True):
                    yield 'alone', (flag, (tuple(odd if i in at else 'solved' for i in range(n)),))
    short = [k for n in (1, 2, 3) for k in itertools.product(('new', 'vain', 'solved'), repeat=n)]
    for h in itertools.product(short, repeat=2):
        for flag in (None, True) if not quick or len(h[0]) + len(h[1]) < 6 else (None,):
            yield 'alone', (flag, h)
    if not quick:
        for h in itertools.product(short[:12], repeat=3):
            yield 'alone', (None, h)
    for n in (1, 2, 3):
        for limit in (1, 2, 3, 4):
            for script in itertools.product([(0, 0), (1, 0), (2, 0), (1, 1)], repeat=min(limit, 3 if quick else 4)):
                yield 'loop', (n, limit, script)


def key(c):
    return '%s %s' % c


def run(ctx):
    with mc.quiet():
        import b3  # noqa
        import ikbtleaves.comp_detect  # noqa
        import ikbtbasics.ik_classes  # noqa
    cs = list(cases(ctx.quick))
    if ctx.only:
        cs = [c for c in cs if key(c) == ctx.only]
    for c, bad in mc.pmap(work, cs, chunk=40):
        ctx.count('states')
        ctx.count('transitions', len(c[1][1]) if c[0] == 'alone' else len(c[1][2]))
        ctx.count('traces_validated_against_impl')
        if bad:
            ctx.violation(key(c), bad)
        elif ctx.cov['states'] % 300 == 1:
            ctx.sample(key(c))
    ctx.cov['exhaustive'] = True
