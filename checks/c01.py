"""C01 composite nodes: every tree in the bound, every reachable state, every combination of child answers."""
import itertools
import bt
import mc

RULE = 'status returned by the tree and the order in which leaves run equal the reference interpreter'


def judge(mod, ms, imp, is_, left):
    if left:
        return 'stopped early: %d leaves that had to run did not' % len(left)
    if ms != is_:
        return 'answered %s, must answer %s' % (bt.NAMES.get(is_, is_), bt.NAMES[ms])
    a = [e[1] for e in mod.ev if e[0] == 'tick']
    b = [e[1] for e in imp.log if e[0] == 'tick']
    if a != b:
        return 'ran nodes %s, must run %s' % (b, a)
    return None


def trees(quick):
    L = ('L',)
    C = bt.COMPOSITES
    for k in C:
        for n in range(0, 4 if quick else 5):
            yield (k,) + (L,) * n
    l2 = [L] + [(k, L, L) for k in C]
    for k in C:
        for cs in itertools.product(l2, repeat=2):
            if cs != (L, L):
                yield (k,) + cs
    # wide nodes and deep trees: all children but one (two) give one fixed answer
    one = {a: ('L', a) for a in 'SF'}
    for k in C:
        for n in (5, 9, 12):
            for a in 'SF':
                for i in range(n):
                    yield (k,) + (one[a],) * i + (L,) + (one[a],) * (n - 1 - i)
            for a, i in itertools.product('SF', range(0, n, 4)):
                yield (k,) + tuple(('L', 'SFR') if j in (i, n - 1) else one[a] for j in range(n))
    for depth in (5, 8):
        for ks in itertools.product(C, repeat=2):
            for a in 'SF':
                t = (ks[0], one[a], L)
                for d in range(depth):
                    t = (ks[d % 2], one[a], t) if d % 3 else (ks[d % 2], t, one[a])
                yield t
    if not quick:
        for k in C:
            for cs in itertools.product(l2, repeat=3):
                if sum(c == L for c in cs) in (1, 2):
                    yield (k,) + cs
        l3 = [('L', 'SFR')]
        for k, k2, k3 in itertools.product(C, repeat=3):
            yield (k, l3[0], (k2, l3[0], (k3, l3[0], l3[0])))
            yield (k, (k2, (k3, l3[0], l3[0]), l3[0]), l3[0])


def work(t):
    return bt.check_tree(t, judge, 6, 2)


def run(ctx):
    bt.classes()
    ts = list(trees(ctx.quick))
    for t, (st, tr, d, bad) in mc.pmap(work, ts):
        ctx.count('trees')
        ctx.count('states', st)
        ctx.count('transitions', tr)
        ctx.count('traces_validated_against_impl', tr)
        if bad:
            ctx.violation(bad[0], bad[1])
        else:
            ctx.sample('%s: %d states, %d ticks' % (bt.show(t), st, tr))
    ctx.cov['exhaustive'] = True
    ctx.cov['rule'] = RULE
    ctx.assumptions += ['trees of up to 4 leaves and 3 levels, nodes of up to 12 children and trees of up to 9 levels of which one or two leaves are free; every answer S/F/R/E of every leaf at every tick',
                        'every history of two ticks apart; from the third tick on, histories are merged when the '
                        'reference model is in the same state; depth 6 ticks']
