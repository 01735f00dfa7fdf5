"""C24 the whole solver on every small robot of a bounded family: no step derives anything false, the generated code returns
the joint values."""
import itertools
import fk
import fkspace
import mc
import memo
import solverrun

F = fkspace.FIX
# alpha, has a, kind, offset
CORE = [('0', 1, 'R', 0), ('pi/2', 0, 'R', 1), ('-pi/2', 1, 'P', '0'), ('pi/2', 1, 'R', 0), ('-pi/2', 0, 'R', 1)]
WIDE = [(a, b, 'R', o) for a in ('0', 'pi/2', '-pi/2', 'pi') for b, o in ((0, 0), (1, 0), (0, 1), (1, 1))] + \
       [(a, b, 'P', o) for a in ('0', 'pi/2', '-pi/2') for b in (0, 1) for o in ('0', 'pi/2')]
ODD = [('0.7', 1, 'R', 1), ('-pi/3', 0, 'R', 1), ('pi/4', 1, 'P', '0'), ('0.7', 0, 'P', '0')]


def arms(quick):
    """(DH rows, order in which the unknowns are listed)"""
    two = [(a, b) for a in CORE for b in CORE]
    if quick:
        two += [(a, b) for n, (a, b) in enumerate(itertools.product(WIDE, repeat=2)) if n % 5 == 2]
    else:
        two += list(itertools.product(WIDE, repeat=2))
    for t in two:
        yield (*t, F, F, F, F), (0, 1)
        yield (*t, F, F, F, F), (1, 0)
    for n, t in enumerate(itertools.product(CORE, repeat=3)):
        yield (*t, F, F, F), (0, 1, 2)
        for k, o in enumerate(itertools.permutations(range(3))):
            if k and (not quick or (n + k) % 25 == 0):
                yield (*t, F, F, F), o
    # a fixed link between joints or after them, twist angles that get symbols
    for n, (a, b) in enumerate(itertools.product(CORE, repeat=2)):
        if not quick or n % 4 == 0:
            yield (a, F, b, F, F, F), (0, 1)
            yield (a, b, ('pi/2', 1, '-', 0), F, F, F), (0, 1)
            yield (a, b, F, F, F, ('0', 1, '-', 0)), (0, 1)
    for n, (a, b) in enumerate(list(itertools.product(ODD, CORE + ODD)) + list(itertools.product(CORE, ODD))):
        if not quick or n % 6 == 0:
            yield (a, b, F, F, F, F), (0, 1)
    if not quick:
        for t in itertools.product(CORE, repeat=4):
            yield (*t, F, F), (0, 1, 2, 3)
        for n, t in enumerate(itertools.product(WIDE, repeat=3)):
            if n % 37 == 5:
                yield (*t, F, F, F), (0, 1, 2)


def key(c):
    return '%s, unknowns listed %s' % (fkspace.show(c[0]), c[1])


def check(c):
    spec, order = c
    memo.install()
    dh, vv, params, joints, pv = fkspace.make(spec)
    js = [s for s, _ in joints]
    lengths = [s for s, k in joints if k == 'P']
    envs = solverrun.configurations(dh, js, pv, lengths)
    full = solverrun.rank(dh, vv, envs[0], [i for i, r in enumerate(spec) if r[2] != '-']) == len(js)
    with mc.scratch():
        with mc.quiet():
            w, R, us, g = solverrun.run(dh, vv, params, pv, [js[i] for i in order], envs, lengths=lengths)
        if not w.ticks:
            raise AssertionError('no leaf ran')
        if w.bad:
            return w, 0, w.bad[0]
        un = [str(u.symbol) for u in us if not u.solved and u.symbol in js]
        if un and full:
            return w, 0, 'not solved: %s' % un
        if un:
            return w, 0, None
        fn, err = solverrun.code()
        if err:
            return w, 0, err
        n, bad, first = solverrun.incomplete(fn, [u.symbol for u in us if u.solved], dh, js, pv, R.kequation_aux_list,
                                             fk.grid(joints), envs[0], lengths)
        return w, n, ('generated code misses the joint values at %d of %d poses; %s' % (bad, n, first)) if bad else None


def work(c):
    r = mc.guarded(check, c, seconds=170)
    if r[0] == 'exc':
        return 0, 0, 0, 0, r[1]
    w, n, bad = r[1]
    return w.ticks, w.equations, len(w.solved), n, bad


def run(ctx):
    import b3  # noqa: loaded once, before the forks
    cs = list(arms(ctx.quick))
    if ctx.only:
        cs = [c for c in cs if key(c) == ctx.only]
    for c, (ticks, eqs, solved, poses, bad) in mc.pmap(work, cs, chunk=1):
        ctx.count('robots')
        ctx.count('transitions', ticks)
        ctx.count('states', ticks)
        ctx.count('equations_checked', eqs)
        ctx.count('unknowns_solved', solved)
        ctx.count('poses', poses)
        ctx.count('traces_validated_against_impl')
        if bad:
            ctx.violation(key(c), bad)
        elif ctx.cov['robots'] % 60 == 1:
            ctx.sample('%s: %d leaf executions, %d equations, %d poses' % (key(c), ticks, eqs, poses))
    ctx.cov['exhaustive'] = True
    ctx.assumptions.append('truth of an equation is decided at three generic configurations; numeric parameter values are generic')
