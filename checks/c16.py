"""C16 the solution set is the full product of branches, every version defined from versions defined before."""
import itertools
import graphs
import mc

PX = 0.377


def orders(k, quick):
    """permutations of the robot's list of unknowns against the solving order"""
    if k <= 3:
        return list(itertools.permutations(range(k)))
    return [tuple(range(k)), tuple(reversed(range(k)))]


def cases(quick):
    for k in range(0, 5 if quick else 6):
        for nsols, deps in graphs.all_graphs(k):
            for o in orders(k, quick):
                yield nsols, deps, o, None
    # the two solutions of an unknown depend on different unknowns
    for k in range(1, 4 if quick else 5):
        for nsols, deps in graphs.all_graphs(k):
            for sp in graphs.splits(nsols, deps):
                if any(sp):
                    for o in orders(k, quick) if k < 3 else [tuple(range(k)), tuple(reversed(range(k)))]:
                        yield nsols, deps, o, sp
    # chains and stars of 6 and 7 unknowns
    for k in (6, 7):
        for nsols in itertools.product((1, 2), repeat=k):
            if quick and sum(nsols) - k > 4:
                continue
            yield nsols, tuple(() if i == 0 else (i - 1,) for i in range(k)), tuple(range(k)), None
            yield nsols, tuple(() if i == 0 else (0,) for i in range(k)), tuple(range(k)), None
            yield nsols, tuple(() for i in range(k)), tuple(range(k)), None


def key(c):
    return 'branches %s, depends on %s, listed %s' % c[:3] + (', branch by branch %s' % (c[3],) if c[3] else '')


def check(c):
    nsols, deps, order, split = c
    n = graphs.ns()
    names = graphs.NAMES
    k = len(nsols)
    sols = graphs.affine(nsols, deps, split=split)
    steps = []

    def hook(R, us, done):
        i = len(done) - 1
        u = done[-1]
        steps.append((u.solved, u.readytosolve, u.solveorder, R.solveN, len(R.solution_nodes),
                      R.solution_nodes[-1].unknown is u, {d.name for d in u.dependencies}, list(u.solutionNames),
                      u.nsolutions, len(u.versionNames), u.nversions))
    R, us, done = graphs.build([names[i] for i in order], sols, hook=hook)
    want_edges = set()
    for i in range(k):
        nm = names[i]
        deg = nsols[i]
        for j in deps[i]:
            deg *= nsols[j]
            want_edges.add((nm, names[j]))
        want = (True, False, i + 1, i + 1, i + 1, True, {names[j] for j in deps[i]},
                ['%ss%d' % (nm, b + 1) for b in range(nsols[i])], nsols[i], deg, deg)
        if steps[i] != want:
            return 'after solving %s: bookkeeping %s, should be %s' % (nm, steps[i], want)
        u = done[i]
        for b, s in enumerate(u.solutionNames):
            if u.versionNames.count(s) != deg // nsols[i]:
                return 'version names of %s: %s' % (nm, u.versionNames)
    got = [(e.StartNode.name, e.dependsOn.name) for e in R.notation_graph_edges]
    if sorted(got) != sorted(want_edges):
        return 'solution graph edges %s, should be %s' % (sorted(got), sorted(want_edges))
    if [x.unknown.name for x in R.solution_nodes] != names[:k]:
        return 'solution order %s' % R.solution_nodes
    graphs.versions(R)
    rows = R.FinalEqnMatrix
    nv = 1
    for x in nsols:
        nv *= x
    if k == 0:
        nv = len(rows)
        if any(r for r in rows) or len(rows) > 1:
            return 'rows without unknowns: %s' % rows
    if len(rows) != nv or R.nversions != nv:
        return '%d rows, nversions %s, should be %d' % (len(rows), R.nversions, nv)
    if k and len(R.solutionSet) != nv:
        return 'solution set has %d members, should be %d' % (len(R.solutionSet), nv)
    # all versions are evaluated in solving order (as reports and generated code list them), then the set is read off
    vals = {'Px': PX}
    for col, nm in enumerate(names[:k]):
        for r, row in enumerate(rows):
            if len(row) != k:
                return 'row %d has %d equations' % (r, len(row))
            e = row[col]
            for s in e.RHS.free_symbols:
                if s.name not in vals:
                    return 'row %d: %s uses %s, which is not defined before' % (r, e, s)
            if e.LHS.name in vals:
                return '%s is defined twice' % e.LHS
            if not (e.LHS.name.startswith(nm + 'v') and e.LHS.name[len(nm) + 1:].isdigit()):
                return 'row %d: %s is no version of %s' % (r, e.LHS, nm)
            vals[e.LHS.name] = graphs.evaluate(e.RHS, vals).real
    vecs = []
    for g in R.solutionSet:
        g = [str(v) for v in g]
        if [v.rsplit('v', 1)[0] for v in g] != names[:k]:
            return 'solution %s does not name every unknown once, in solving order' % (g,)
        if any(v not in vals for v in g):
            return 'solution %s uses a version that is not defined' % (g,)
        vecs.append(tuple(vals[v] for v in g))
    want = [tuple(b[x] for x in names[:k]) for b in graphs.branches(sols, {'Px': complex(PX)})]
    if k and not graphs.same_sets(vecs, want):
        return 'the %d versions are not the %d branches' % (len(set(vecs)), len(want))
    return None


def work(c):
    r = mc.guarded(check, c, seconds=60)
    return r[1]


def run(ctx):
    cs = list(dict.fromkeys(cases(ctx.quick)))
    graphs.ns()
    for c, bad in mc.pmap(work, cs, chunk=40):
        ctx.count('states')
        ctx.count('transitions', max(1, len(c[0])))
        ctx.count('traces_validated_against_impl')
        if bad:
            ctx.violation(key(c), bad)
        elif ctx.cov['states'] % 700 == 1:
            ctx.sample(key(c))
    ctx.cov['exhaustive'] = True
    ctx.assumptions.append('unknowns have one or two solutions (no solver leaf yields more)')
