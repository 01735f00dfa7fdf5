"""C04 blackboard scoping: all operation sequences; and all interleavings of two trees sharing a blackboard."""
import itertools
import bt
import mc
import vtime

SC = [(None, None), ('t1', None), ('t2', None), ('t1', 'n1'), ('t1', 'n2'), ('t2', 'n1'), ('n1', 't1')]
KEYS = ['k', 'unknowns']
FALSE = [0, False, '', ()]


def seqs(depth):
    ops = [('set', b, s, k) for b in (0, 1) for s in range(len(SC)) for k in range(2)]
    ops += [(o, 0, s, k) for o in ('inc', 'dec', 'setf') for s in range(len(SC)) for k in range(2)]
    return ops, depth


def check_seq(ops):
    """A fresh pair of blackboards, the operations in order, then every cell of both is read."""
    import b3
    bbs = [b3.Blackboard(), b3.Blackboard()]
    ref = [{}, {}]
    for i, (op, b, s, k) in enumerate(ops):
        ts, ns = SC[s]
        cell = (s, k)
        if op == 'set':
            v = 10 ** (i + 1)
            bbs[b].set(KEYS[k], v, ts, ns)
            ref[b][cell] = v
        elif op == 'setf':                  # values that count as false
            v = FALSE[i % len(FALSE)]
            bbs[b].set(KEYS[k], v, ts, ns)
            ref[b][cell] = v
        else:
            if type(ref[b].get(cell)) is not int:
                return None
            v = i + 1 if op == 'inc' else -10 ** (i + 3)
            bbs[b].inc(KEYS[k], v, ts, ns)
            ref[b][cell] += v
        for bi in (0, 1):
            for s2 in range(len(SC)):
                for k2 in range(2):
                    got = bbs[bi].get(KEYS[k2], *SC[s2])
                    want = ref[bi].get((s2, k2))
                    if got != want or type(got) is not type(want):
                        return 'after %s: %r read from scope %s of blackboard %d is %r, must be %r' % (
                            i + 1, KEYS[k2], SC[s2], bi, got, ref[bi].get((s2, k2)))
    for bi in (0, 1):
        if bbs[bi].get('TotalCost') != 0:
            return 'TotalCost of a new blackboard is %r' % bbs[bi].get('TotalCost')
    return None


def work_ops(first):
    ops, depth = first[1]
    n = t = 0
    for rest in itertools.product(ops, repeat=depth - 1):
        seq = (first[0],) + rest
        n += 1
        r = mc.guarded(check_seq, seq, seconds=600) if False else safe(seq)
        if r:
            return n, (str(seq), r)
    return n, None


def safe(seq):
    try:
        return check_seq(seq)
    except BaseException as e:  # noqa
        return 'raised %s: %s' % (type(e).__name__, e)


# ------------------------------------------------------------------ two trees, one blackboard
def work_pair(arg):
    (ta, tb, share, sched) = arg
    bt.classes()
    n = 0

    def run(ch):
        clock = bt.VClock()
        with vtime.running(clock):
            script = []

            def ask(path, alpha):
                if not script or script[0][0] != path:
                    raise bt.Diverged('leaf %s run out of turn' % (path,))
                return script.pop(0)[1]
            impls = [bt.Impl(ta, ask), bt.Impl(tb, ask)]
            bb = impls[0].bb
            impls[1].bb = bb
            if share:                      # one root object used by both trees
                impls[1].bt.root = impls[0].bt.root
                impls[1].nodes = impls[0].nodes
                impls[1].log = impls[0].log
            rec = []

            def askm(path, alpha):
                a = bt.CODE[alpha[ch.choose(len(alpha))]]
                rec.append((path, a))
                return a
            models = [bt.Model(ta, askm, clock.time), bt.Model(tb, askm, clock.time)]
            hist = []
            for who in sched:
                del rec[:]
                want = models[who].tick()
                script[:] = list(rec)
                hist.append('%s:%s' % ('AB'[who], ' '.join(bt.NAMES[a] for _, a in rec)))
                try:
                    got = impls[who].tick()
                except Exception as e:
                    return hist, 'raised %s %s' % (type(e).__name__, e)
                if got != want or script:
                    return hist, 'tree %s answered %s, alone it answers %s' % (
                        'AB'[who], bt.NAMES.get(got, got), bt.NAMES[want])
            return hist, None
    for hist, bad in mc.explore(run):
        n += 1
        if bad:
            return n, ('%s | %s | shared=%s | %s' % (bt.show(ta), bt.show(tb), share, '; '.join(hist)), bad)
    return n, None


def run(ctx):
    ops, depth = seqs(3 if ctx.quick else 4)
    for it, (n, bad) in mc.pmap(work_ops, [(o, (ops, depth)) for o in ops], chunk=1):
        ctx.count('operation_sequences', n)
        ctx.count('transitions', n * depth)
        if bad:
            ctx.violation(bad[0], bad[1])
    L = ('L', 'SR')
    shapes = [('MemSequence', L, L), ('MemPriority', ('L', 'FR'), L), ('Repeater', 2, L), ('Limiter', 1, L),
              ('RepeatUntilSuccess', 2, ('L', 'FR')), ('RepeatUntilFailure', 2, L), ('MaxTime', 1, L), ('Sequence', L, L)]
    scheds = list(itertools.product((0, 1), repeat=4 if ctx.quick else 5))
    items = [(a, a, sh, s) for a in shapes for sh in (False, True) for s in scheds]
    items += [(a, b, False, s) for a, b in itertools.combinations(shapes[:6], 2) for s in scheds]
    for it, (n, bad) in mc.pmap(work_pair, items):
        ctx.count('schedules')
        ctx.count('interleaved_histories', n)
        ctx.count('transitions', n * len(it[3]))
        if bad:
            ctx.violation(bad[0], bad[1])
        else:
            ctx.sample('%s and %s, shared root %s, order %s: %d histories' % (
                bt.show(it[0]), bt.show(it[1]), it[2], ''.join('AB'[w] for w in it[3]), n))
    ctx.cov['states'] = ctx.cov['operation_sequences'] + ctx.cov['interleaved_histories']
    ctx.cov['traces_validated_against_impl'] = ctx.cov['states']
    ctx.cov['exhaustive'] = True
    ctx.assumptions += ['7 scopes x 2 keys x 2 blackboards, every sequence of set/increment up to the depth, all cells read '
                        'after every operation']
