"""C28 diagnostic output is only output: with debug printing on, everything is decided, derived and solved as with it off; the
result log of a tree holds exactly the answers given."""
import io
import itertools
import bt
import c01
import c09
import c10
import c11
import c12
import c13
import c14
import c24
import fkspace
import leaf
import mc
import memo
import solverrun

FLAG = [False]


def force():
    """every node's debug switch reads as FLAG says, whatever the code that builds the tree assigns"""
    from b3.core.basenode import BaseNode
    if not isinstance(BaseNode.__dict__.get('BHdebug'), property):
        BaseNode.BHdebug = property(lambda s: FLAG[0], lambda s, v: None)


# ------------------------------------------------------------------ single leaves
def leafcases(quick):
    un = [('th_1', False), ('th_2', True), ('th_3', False), ('d_3', False)]
    src = [('algebra', ((c[0], c[1], c[2], ()) for c in c09.cases(quick))),
           ('sincos', ((c[0], 'th_1', c[1], ()) for c in c10.cases(quick))),
           ('sinandcos', ((c[0], 'th_1', c[1], ()) for c in c11.cases(quick))),
           ('tan', ((c[0], 'th_1', c[1], c[2]) for c in c12.cases(quick))),
           ('simu', ((c[0], 'th_1', c[1], ()) for c in c13.cases(quick))),
           ('ranked', ((c[0], 'th_1', c[3], c[4]) for c in c14.cases(quick)))]
    step = {'algebra': 3, 'sincos': 2, 'sinandcos': 5, 'tan': 5, 'simu': 9, 'ranked': 9}
    for kind, cs in src:
        for n, (key, tn, e1, e2) in enumerate(cs):
            # every list of several equations or unusable shapes, a part of the products of coefficients
            if not quick or 'un' in key or n % step[kind] == 0:
                yield 'leaf', '%s leaf: %s' % (kind, key), (kind, tn, [x for x in un if x[0] != tn] + [(tn, False)], e1, e2)


def unk(u):
    return (str(u.symbol), u.solved, u.readytosolve, u.solvable_tan, str(u.solutions), str(u.tan_solutions), str(u.sincos_solutions),
            u.nsolutions, u.solvemethod, u.solveorder, str(u.eqntosolve), str(u.secondeqn), str(u.assumption))


def runleaf(data):
    kind, tn, un, e1, e2 = data
    r = mc.guarded(leaf.run_leaf, kind, tn, un, e1, e2, seconds=60)
    if r[0] == 'exc':
        return ('raised', r[1])
    d = r[1]
    bb = d['bb']
    cu = bb.get('curr_unk')
    return (('answer', d['status']), ('current unknown', str(cu.symbol) if cu else None), ('unknowns', [unk(u) for u in d['unknowns']]),
            ('registered', [str(x.unknown.symbol) for x in d['R'].solution_nodes]),
            ('lists', [str(bb.get(n)) for n in ('eqns_1u', 'eqns_2u', 'eqns_3pu')]))


# ------------------------------------------------------------------ the whole solver
def runsolver(data):
    spec, order = data
    r = mc.guarded(solve, spec, order, seconds=150)
    return r[1] if r[0] != 'exc' else ('raised', r[1])


def solve(spec, order):
    memo.install()
    dh, vv, params, joints, pv = fkspace.make(spec)
    js = [s for s, _ in joints]
    steps = []
    import b3

    def spy(real):
        def tick(self, tick):
            st = real(self, tick)
            bb = tick.blackboard
            us = bb.get('unknowns')
            if us:
                cu = bb.get('curr_unk')
                steps.append((type(self).__name__, st, str(getattr(cu, 'symbol', None)), [(str(u.symbol), u.solved, str(u.solutions)) for u in us]))
            return st
        return tick
    solverrun.leaves()
    undo = [(c, c.__dict__['tick']) for c in solverrun.subclasses(b3.Action) if 'tick' in c.__dict__]
    for c, t in undo:
        c.tick = spy(t)
    try:
        with mc.scratch(), mc.quiet():
            w, R, us, g = solverrun.run(dh, vv, params, pv, [js[i] for i in order], [])
            code = open(solverrun.codefile()).read()
    finally:
        for c, t in undo:
            c.tick = t
    body = [x for x in code.split('\n') if not x.strip().startswith('#')]
    return (('leaf executions', steps), ('unknowns', [unk(u) for u in us]), ('equations', [str(e) for e in R.kequation_aux_list]),
            ('generated code', body))


def difference(a, b):
    """first difference of two runs"""
    if a == b:
        return None
    for x, y in itertools.zip_longest(a, b):
        if x != y:
            if isinstance(x, tuple) and isinstance(y, tuple) and len(x) == 2 and isinstance(x[1], list) and isinstance(y[1], list):
                for i, (p, q) in enumerate(itertools.zip_longest(x[1], y[1])):
                    if p != q:
                        return '%s, item %d: quiet %s, with debug output %s' % (x[0], i, str(p)[:300], str(q)[:300])
            return 'quiet %s, with debug output %s' % (str(x)[:300], str(y)[:300])


# ------------------------------------------------------------------ trees: log and debug output
class Log(bt.Model):
    def tick(self):
        self.lines = []
        return bt.Model.tick(self)

    def go(self, t, p):
        st = bt.Model.go(self, t, p)
        self.lines.append((p, st))
        return st


def logcheck(data):
    """every history of two ticks of one tree, log level 0, 1, 2, debug output on and off"""
    tree = data
    n = 0
    for level in (0, 1, 2):
        for dbg in (False, True):
            FLAG[0] = dbg
            for bad in mc.explore(lambda ch: logrun(tree, level, ch)):
                n += 1
                if bad:
                    return n, 'log level %d, debug output %s: %s' % (level, 'on' if dbg else 'off', bad)
    return n, None


def logrun(tree, level, ch):
    asked = []
    script = []

    def ask_model(p, al):
        a = bt.CODE[al[ch.choose(len(al))]] if len(asked) < 6 else bt.R
        asked.append(a)
        script.append(a)
        return a

    mod = Log(tree, ask_model, lambda: 0.0)
    try:
        imp = bt.Impl(tree, lambda p, al: script.pop(0))
        for p, nd in imp.nodes.items():
            nd.Name = 'n' + '.'.join(map(str, p))
        imp.bt.log_flag, imp.bt.log_file = level, io.StringIO()
        want = []
        for k in (1, 2):
            ms = mod.tick()
            want += ['%s n%s' % (bt.NAMES[st], '.'.join(map(str, p))) for p, st in mod.lines
                     if st == bt.S and level or st == bt.F and level > 1]
            with mc.quiet():
                st = imp.tick()
            if st != ms:
                return 'tick %d answers %s, must answer %s' % (k, bt.NAMES.get(st, st), bt.NAMES[ms])
            got = imp.bt.log_file.getvalue().split('\n')[:-1]
            if got != want:
                return 'after tick %d the log holds %s, must hold %s' % (k, got, want)
    except Exception as e:
        return 'raised %s: %s' % (type(e).__name__, e)
    return None


def logtrees(quick):
    S3 = ('L', 'SFR')
    C = bt.COMPOSITES
    for k in C:
        yield (k, S3, S3)
        yield ('Inverter', (k, S3, S3))
        for k2 in C:
            yield (k, S3, (k2, S3, S3))
    if not quick:
        for k in C:
            yield (k, S3, S3, S3)
            for k2 in C:
                yield (k, (k2, S3, S3), S3)
                yield ('Repeater', 2, (k, S3, (k2, S3)))


def work(c):
    force()
    kind, key, data = c
    if kind == 'log':
        n, bad = logcheck(data)
        return n, bad
    f = runleaf if kind == 'leaf' else runsolver
    out = []
    for v in (False, True):
        FLAG[0] = v
        with mc.quiet():
            out.append(f(data))
    FLAG[0] = False
    n = 2 if kind == 'leaf' else sum(len(o[0][1]) for o in out if o[0] != 'raised')
    return n, difference(*out) or (out[0][1] if kind == 'solver' and out[0][0] == 'raised' else None)


def run(ctx):
    import b3  # noqa: loaded once, before the forks
    leaf.ns()
    bt.classes()
    cs = [('solver', 'robot ' + c24.key(c), c) for n, c in enumerate(c24.arms(ctx.quick)) if not ctx.quick or n % 9 == 0]
    cs += [('log', 'log of ' + bt.show(t), t) for t in logtrees(ctx.quick)]
    cs += list(leafcases(ctx.quick))
    if ctx.only:
        cs = [c for c in cs if c[1] == ctx.only]
    for c, (n, bad) in mc.pmap(work, cs, chunk=1):
        ctx.count('cases')
        ctx.count('states', n)
        ctx.count('transitions', n)
        ctx.count('traces_validated_against_impl', n)
        ctx.count(c[0] + '_cases')
        if bad:
            ctx.violation(c[1], bad)
        elif ctx.cov['cases'] % 300 == 1:
            ctx.sample('%s: same with and without (%d executions)' % (c[1], n))
    ctx.cov['exhaustive'] = True
    ctx.assumptions.append('text printed is not compared; generated code is compared without its comments')
