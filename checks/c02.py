"""C02 decorators and timed nodes under a virtual clock: every tree, reachable state, answer and clock step."""
import itertools
import bt
import mc
from c01 import judge


def trees(quick):
    L = ('L',)
    ns = (0, 1, 2, 3) if quick else (0, 1, 2, 3, 4)

    def decos(c, ns=ns, inf=True):
        yield ('Inverter', c)
        for k in bt.LOOPERS:
            for n in ns:
                yield (k, n, c)
            if inf and k != 'Limiter':
                yield (k, -1, c)
        yield ('MaxTime', 2, c)
    yield ('Wait', 0)
    yield ('Wait', 2)
    for d in decos(L):
        yield d
    S2 = ('L', 'SFR')
    small = (0, 1, 2) if quick else (0, 1, 2, 3)
    for inner in decos(S2, small, inf=False):
        for d in decos(inner, small, inf=inner[0] == 'Inverter'):
            yield d
    for k in bt.COMPOSITES:
        for d in decos((k, S2, S2), (1, 2), inf=k != 'OrNode'):
            yield d
        for a in list(decos(S2, (1, 2), inf=False)) + [('Wait', 2)]:
            yield (k, a, S2)
            yield (k, S2, a)
    for k, n in itertools.product(bt.LOOPERS, (1, 2)):
        yield (k, n, ('Wait', 2))
    yield ('MaxTime', 2, ('Wait', 2))
    yield ('MaxTime', 0, L)


def pairs():
    """two nodes that remember something in one tree, one inside the other but opened later, or side by side"""
    S2, R2 = ('L', 'SFR'), ('L', 'SR')

    def d(k, c):
        return (k, 2, c) if k in bt.LOOPERS else (k, 3, c)
    ks = list(bt.LOOPERS) + ['MaxTime']
    for a in ks:
        for k in ('MemSequence', 'Sequence'):
            for b in ks:
                yield d(a, (k, R2, (b, 2, S2)))
            yield d(a, (k, R2, ('Wait', 2)))
            yield (k, d(a, S2), ('Wait', 2))
    for k in ('MemSequence', 'MemPriority', 'Priority', 'OrNode'):
        for a, b in itertools.product(ks, repeat=2):
            yield (k, d(a, S2), (b, 2, S2))
    for a in ks:
        yield ('MemSequence', ('Wait', 1), d(a, ('MemSequence', R2, ('Wait', 2))))
    yield ('OrNode', ('Wait', 1), ('MemSequence', R2, ('Wait', 2)))


def long_trees():
    """limits of up to 30 rounds, times of fractions of a second and of minutes: (tree, ticks, answers per tick, clock steps)"""
    for n in (7, 12, 30):
        for k, a in (('Repeater', 'S'), ('Repeater', 'F'), ('RepeatUntilSuccess', 'F'), ('RepeatUntilFailure', 'S')):
            yield (k, n, ('L', a)), 3, n + 5, (0,)
        for a in 'SF':
            yield ('Limiter', n, ('L', a)), n + 3, 6, (0,)
            yield ('Sequence', ('L', 'S'), ('Limiter', n, ('L', a))), n + 3, 6, (0,)
    for k in bt.LOOPERS:
        yield (k, 6, ('L', 'SFR')), 9 if k == 'Limiter' else 3, 8, (0,)
    for k in ('Repeater', 'RepeatUntilSuccess'):
        yield (k, 4, ('RepeatUntilFailure', 3, ('L', 'SF'))), 2, 13, (0,)
    for t in (0.25, 0.5, 1.75, 90):
        st = (0, t / 2, t, t * 1.25)
        yield ('Wait', t), 5, 6, st
        yield ('MaxTime', t, ('L',)), 4, 6, st
        yield ('Sequence', ('L', 'S'), ('Wait', t)), 4, 6, st
        yield ('MaxTime', t, ('Wait', 2 * t)), 5, 6, st


def inf(t):
    return (len(t) > 1 and t[1] == -1) or any(inf(c) for c in bt.kids(t))


def work(job):
    if job[0] == 'long':
        t, depth, horizon, steps = job[1:]
        return bt.check_tree(t, judge, depth, 2, steps, horizon=horizon, cap=24)
    t = job[1]
    steps = (0, 1, 3) if bt.uses_clock(t) else (0,)
    return bt.check_tree(t, judge, 3 if inf(t) else 5, 2, steps, horizon=5 if inf(t) else 6, cap=24)


def run(ctx):
    bt.classes()
    jobs = [('short', t) for t in list(trees(ctx.quick)) + list(pairs())] + [('long',) + x for x in long_trees()]
    for (_, t, *_r), (st, tr, d, bad) in mc.pmap(work, jobs, chunk=1):
        ctx.count('trees')
        ctx.count('states', st)
        ctx.count('transitions', tr)
        ctx.count('traces_validated_against_impl', tr)
        if bad:
            ctx.violation(bad[0], bad[1])
        else:
            ctx.sample('%s: %d states, %d ticks' % (bt.show(t), st, tr))
    ctx.cov['exhaustive'] = True
    ctx.assumptions += ['repeat limits 0..3 (up to 30 with a leaf of one or two answers) and unlimited; a leaf that answered 6 times (5 under an unlimited loop) in one tick answers RUNNING '
                        'from then on (unlimited loops would not end otherwise)',
                        'clock steps of 0, 1 and 3 s (fractions of a second to two minutes for single nodes) between ticks; time stands still inside a tick']
