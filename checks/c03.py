"""C03 node life cycle and accounting."""
import itertools
import bt
import mc


def has(t, k):
    return t[0] == k or any(has(c, k) for c in bt.kids(t))


def has_memcost(t):
    return t[0] in ('MemSequence', 'MemPriority') or any(has_memcost(c) for c in bt.kids(t))


def close(a, b):
    return abs(a - b) < 1e-12


def judge_for(t, log):
    costs = not has_memcost(t)
    openlist = not has(t, 'OrNode')

    def judge(mod, ms, imp, is_, left):
        if left or ms != is_:
            return 'answered %s, must answer %s' % (bt.NAMES.get(is_, is_), bt.NAMES[ms])
        if list(mod.ev) != list(imp.log):
            for i, (a, b) in enumerate(itertools.zip_longest(mod.ev, imp.log)):
                if a != b:
                    return 'life cycle event %d is %s, must be %s' % (i, b, a)
        n = imp.bb.get('node_count', imp.bt.id)
        if n != mod.n:
            return 'node_count is %s after a tick that ran %d nodes' % (n, mod.n)
        for p, (ticks, succ) in mod.life.items():
            nd = imp.nodes[p]
            if nd.N_ticks_all != ticks:
                return 'node %s counts %s ticks, had %d' % (p, nd.N_ticks_all, ticks)
            if nd.N_success != succ:
                return 'node %s counts %s successes, had %d' % (p, nd.N_success, succ)
        if costs:
            ran = {e[1] for e in mod.ev}
            for p, c in mod.cost.items():
                if p in ran and imp.nodes[p].Cost != c:
                    return 'cost of composite %s is %s, the children it ran cost %s' % (p, imp.nodes[p].Cost, c)
            tot = imp.bb.get('TotalCost')
            if tot != mod.total:
                return 'the total cost on the blackboard is %s, the nodes run cost %d' % (tot, mod.total)
        if log:
            want = ''.join('%s %s\n' % (a, imp.nodes[p].Name) for a, p in mod.journal if a == 'S' or log > 1)
            got = imp.bt.log_file.getvalue()
            if got != want:
                return 'with log_flag %d the log reads %r, must be %r' % (log, got, want)
        for p, (tik, suc) in mod.st4.items():
            nd = imp.nodes[p]
            n, k = mod.life[p]
            if list(nd.N_suc2) != suc:
                return 'leaf %s counts successes per state %s, had %s' % (p, nd.N_suc2, suc)
            if not close(nd.prob(), k / n):
                return 'leaf %s estimates success %s, %d of %d ticks succeeded' % (p, nd.prob(), k, n)
            want = [b / a if a else 0.5 for a, b in zip(tik, suc)]
            if not all(map(close, nd.prob_state(), want)):
                return 'leaf %s estimates success per state %s, must be %s' % (p, nd.prob_state(), want)
            c, s = mod.leafcost(p), (n - 1) % 4
            for mode, cost, u, u2 in ((None, c, k / n / c, want[s] / c), ('RATIO', 0, k / n, want[s]),
                                      ('NEG_COST', 0, 0, 0), ('RATIO', 1, k / n, want[s]), ('RATIO', c, k / n / c, want[s] / c),
                                      ('NEG_COST', c, -c * k / n, -c * want[s])):
                if mode:            # else the mode a node has at first
                    nd.Utility_Mode = mode
                nd.Cost = cost
                if not close(nd.get_Utility(), u) or not close(nd.get_Utility2(), u2):
                    return 'leaf %s has utilities %s, %s (%s, cost %s), must be %s, %s' % (
                        p, nd.get_Utility(), nd.get_Utility2(), mode, cost, u, u2)
            nd.Cost = c
            nd.Utility_Mode = 'RATIO'
            nd.p_reset()
            if nd.N_ticks_all or nd.N_success or nd.prob() != 0.1 or list(nd.prob_state()) != [0.5] * 4:
                return 'leaf %s still reports %s, %s after its statistics were reset' % (p, nd.prob(), nd.prob_state())
        if openlist:
            last = {p: i for i, (k, p) in enumerate(mod.ev) if k == 'enter'}
            want = [p for p in sorted(last, key=last.get) if p in mod.mem]
            got = [x._path for x in (imp.bb.get('open_nodes', imp.bt.id) or [])]
            if got != want:
                return 'open nodes reported %s, running nodes are %s' % (got, want)
        for p, nd in imp.nodes.items():
            o = bool(imp.bb.get('is_open', imp.bt.id, nd.id))
            if o != (p in mod.mem):
                return 'node %s is marked %s' % (p, 'open' if o else 'closed')
        return None
    return judge


def trees(quick):
    L = ('L',)
    C = bt.COMPOSITES
    yield L
    for k in C:
        for n in (0, 1, 2, 3):
            yield (k,) + (L,) * n
    S3 = ('L', 'SFR')
    l2 = [S3] + [(k, S3, S3) for k in C] + [('Inverter', S3), ('RepeatUntilSuccess', 2, S3), ('Repeater', 2, S3),
                                            ('Limiter', 1, S3), ('RepeatUntilFailure', 2, S3)]
    for k in C:
        for a, b in itertools.product(l2, repeat=2):
            if (a, b) != (S3, S3) and (not quick or a == S3 or b == S3 or a == b):
                yield (k, a, b)
    for d in (('Inverter',), ('RepeatUntilSuccess', 2), ('Repeater', 2), ('RepeatUntilFailure', 3), ('Limiter', 2)):
        yield d + (L,)
        for k in C:
            yield d + ((k, S3, S3),)


def work(tl):
    t, log = tl
    return bt.check_tree(t, judge_for(t, log), 5, 2, horizon=12, log=log)


def run(ctx):
    bt.classes()
    jobs = [(t, k) for i, t in enumerate(trees(ctx.quick)) for k in range(3) if k == i % 3 or i < 16 or not ctx.quick]
    for (t, _), (st, tr, d, bad) in mc.pmap(work, jobs, chunk=1):
        ctx.count('trees')
        ctx.count('states', st)
        ctx.count('transitions', tr)
        ctx.count('traces_validated_against_impl', tr)
        if bad:
            ctx.violation(bad[0], bad[1])
        else:
            ctx.sample('%s: %d states, %d ticks' % (bt.show(t), st, tr))
    ctx.cov['exhaustive'] = True
    ctx.assumptions += ['counters are compared on every explored history (at least every history of two ticks, then one '
                        'history per reference state up to depth 5)',
                        'open-node list not compared for trees with an or-node: it may finish while a child runs']
