"""Reference interpreter for behaviour trees + driver that runs the real b3 code in lock step.

A tree is a nested tuple: ('L',) leaf, ('L','SF') leaf restricted to answers, (kind, child, ...) composite,
(kind, n, child) decorator.  Paths are tuples of child positions."""
import io
import itertools
import mc
import vtime

S, F, R, E = 1, 2, 3, 4
NAMES = {S: 'S', F: 'F', R: 'R', E: 'E'}
CODE = {v: k for k, v in NAMES.items()}
COMPOSITES = ('Sequence', 'Priority', 'OrNode', 'MemSequence', 'MemPriority')
LOOPERS = ('Repeater', 'RepeatUntilSuccess', 'RepeatUntilFailure', 'Limiter')
DECOS = LOOPERS + ('Inverter', 'MaxTime')


def show(t):
    if t[0] == 'L':
        return 'leaf'
    if t[0] == 'Wait':
        return 'Wait(%s)' % t[1]
    if t[0] in COMPOSITES:
        return '%s(%s)' % (t[0], ','.join(show(c) for c in t[1:]))
    if t[0] == 'Inverter':
        return 'Inverter(%s)' % show(t[1])
    return '%s[%s](%s)' % (t[0], t[1], show(t[2]))


def kids(t):
    if t[0] in ('L', 'Wait'):
        return ()
    if t[0] in COMPOSITES or t[0] == 'Inverter':
        return t[1:]
    return (t[2],)


# ------------------------------------------------------------------ the reference model
class Model:
    """mem: path -> dict(open=bool, ...).  ask(path, alphabet) gives a leaf's answer.  now() is the clock."""

    def __init__(self, tree, ask, clock):
        self.tree, self.ask, self.clock = tree, ask, clock
        self.mem = {}
        self.life = {}         # path -> list of counters ticks,success
        self.st4 = {}          # leaf path -> ticks and successes in each of the four sensing states
        self.total = 0         # cost of everything run so far
        self.journal = []      # (answer, path) of every node that succeeded or failed, in order of completion
        self.cost = {}
        self.persist = {}      # Limiter: completions so far

    def tick(self):
        self.ev = []
        self.n = 0
        return self.go(self.tree, ())

    def key(self):
        return (tuple(sorted((p, tuple(sorted(m.items()))) for p, m in self.mem.items())),
                tuple(sorted(self.persist.items())))

    def go(self, t, p):
        ev = self.ev
        self.n += 1
        ev.append(('enter', p))
        if p not in self.mem:
            self.mem[p] = {}
            ev.append(('open', p))
            if t[0] in ('MemSequence', 'MemPriority') or t[0] in LOOPERS:
                self.mem[p]['i'] = 0
            if t[0] in ('MaxTime', 'Wait'):
                self.mem[p]['t'] = self.clock()
        ev.append(('tick', p))
        st = self.body(t, p)
        lf = self.life.setdefault(p, [0, 0])
        if t[0] == 'L':
            s4 = self.st4.setdefault(p, ([0] * 4, [0] * 4))
            s4[0][lf[0] % 4] += 1
            s4[1][lf[0] % 4] += (st == S)
        lf[0] += 1
        lf[1] += (st == S)
        self.total += self.cost_of(t, p)
        if st in (S, F):
            self.journal.append((NAMES[st], p))
        if st != R:
            del self.mem[p]
            ev.append(('close', p))
        ev.append(('exit', p))
        return st

    def body(self, t, p):
        k = t[0]
        m = self.mem[p]
        if k == 'L':
            return self.ask(p, t[1] if len(t) > 1 else 'SFRE')
        if k == 'Wait':
            return S if self.clock() - m['t'] > t[1] else R
        if k in COMPOSITES:
            cs = t[1:]
            start = m['i'] if k.startswith('Mem') else 0
            stop_on = {'Sequence': (F, R, E), 'MemSequence': (F, R, E), 'Priority': (S, R, E),
                       'MemPriority': (S, R, E), 'OrNode': ()}[k]
            res = S if 'Sequence' in k else F
            self.cost[p] = 0
            for i in range(start, len(cs)):
                st = self.go(cs[i], p + (i,))
                self.cost[p] += self.cost_of(cs[i], p + (i,))
                if k == 'OrNode' and st == S:
                    res = S
                if st in stop_on:
                    if st == R and k.startswith('Mem'):
                        m['i'] = i
                    return st
            return res
        c, cp = kids(t)[0], p + (0,)
        if k == 'Inverter':
            st = self.go(c, cp)
            return {S: F, F: S}.get(st, st)
        if k == 'MaxTime':
            late = self.clock() - m['t'] > t[1]
            st = self.go(c, cp)
            return F if late else st
        n = t[1]
        if k == 'Limiter':
            done = self.persist.get(p, 0)
            if done >= n:
                return F
            st = self.go(c, cp)
            if st in (S, F):
                self.persist[p] = done + 1
            return st
        again = {'Repeater': (S, F), 'RepeatUntilSuccess': (F,), 'RepeatUntilFailure': (S,)}[k]
        st = {'Repeater': S}.get(k, E)
        i = m['i']
        while n < 0 or i < n:
            st = self.go(c, cp)
            if st in again:
                i += 1
            else:
                break
        m['i'] = i
        return st

    def cost_of(self, t, p):
        return self.cost.get(p, 0) if t[0] in COMPOSITES else self.leafcost(p)

    @staticmethod
    def leafcost(p):
        return 1 + sum((i + 1) * 3 ** j for j, i in enumerate(p))


# ------------------------------------------------------------------ the real thing
_cls = {}


def classes():
    """b3 classes wrapped so that their (public) enter/open/close/exit callbacks and ticks are recorded."""
    if _cls:
        return _cls
    import b3

    def wrap(base):
        class W(base):
            def enter(self, tick):
                self.rec('enter')
                return super(W, self).enter(tick)

            def open(self, tick):
                self.rec('open')
                return super(W, self).open(tick)

            def tick(self, tick):
                self.rec('tick')
                return super(W, self).tick(tick)

            def close(self, tick):
                self.rec('close')
                return super(W, self).close(tick)

            def exit(self, tick):
                self.rec('exit')
                return super(W, self).exit(tick)

            def rec(self, what):
                self._log.append((what, self._path))
        W.__name__ = base.__name__
        return W

    class Leaf(b3.Action):
        def tick(self, tick):
            # what a learning leaf does: say which state it is in and count its tick there
            self.state = self.N_ticks % 4
            self.N_ticks += 1
            self.N_tik2[self.state] += 1
            return self._ask(self._path, self._alpha)
    for k in COMPOSITES + DECOS + ('Wait',):
        _cls[k] = wrap(getattr(b3, k))
    _cls['L'] = wrap(Leaf)
    return _cls


class Impl:
    def __init__(self, tree, ask, log=0):
        import b3
        self.log, self.ask, self.nodes = [], ask, {}
        self.bt = b3.BehaviorTree()
        self.bb = b3.Blackboard()
        self.bt.root = self.build(tree, ())
        self.bt.log_flag, self.bt.log_file = log, io.StringIO()

    def build(self, t, p):
        C = classes()
        cs = [self.build(c, p + (i,)) for i, c in enumerate(kids(t))]
        if t[0] == 'L':
            n = C['L']()
            n._ask = lambda path, al: self.ask(path, al)
            n._alpha = t[1] if len(t) > 1 else 'SFRE'
        elif t[0] == 'Wait':
            n = C['Wait'](t[1] * 1000)
        elif t[0] in COMPOSITES:
            n = C[t[0]](cs)
        elif t[0] == 'Inverter':
            n = C['Inverter'](cs[0])
        else:
            n = C[t[0]](cs[0], t[1])
        if t[0] not in COMPOSITES:
            n.Cost = Model.leafcost(p)
        n._path, n._log = p, self.log
        n.Name = 'node ' + ''.join(map(str, p))
        self.nodes[p] = n
        return n

    def tick(self):
        del self.log[:]
        return self.bt.tick('target', self.bb)


class VClock:
    def __init__(self):
        self.t = 1000.0

    def time(self):
        return self.t

    def sleep(self, s):
        self.t += s


def uses_clock(t):
    return t[0] in ('MaxTime', 'Wait') or any(uses_clock(c) for c in kids(t))


def one_tick(tree, history, chooser, steps, horizon, judge, log=0):
    """Replay history (list of [dt, answers]) on both sides, then run one more tick whose answers chooser picks.
    Returns (entry, modelkey, problem)."""
    clock = VClock()
    with vtime.running(clock):
        script = []

        def ask_impl(path, alpha):
            if script:
                pp, a = script.pop(0)
                if pp != path:
                    raise Diverged('the leaf at %s was run where %s should have been' % (path, pp))
                return a
            raise Diverged('leaf %s was run although the model ends the tick here' % (path,))
        rec = []
        live = [None]

        def ask_model(path, alpha):
            if live[0] is not None:
                a = live[0].pop(0)[1]
            else:
                if len(rec) >= horizon:
                    a = R
                else:
                    a = CODE[alpha[chooser.choose(len(alpha))]]
            rec.append((path, a))
            return a
        mod = Model(tree, ask_model, clock.time)
        try:
            imp = Impl(tree, ask_impl, log)
        except Exception as e:
            return None, None, 'cannot build: %s: %s' % (type(e).__name__, e)
        out = None
        for h, (dt, answers) in enumerate(history + [None and 0 or (None, None)]):
            last = answers is None
            if last:
                dt = steps[chooser.choose(len(steps))] if len(steps) > 1 else steps[0]
            clock.t += dt
            del rec[:]
            live[0] = None if last else list(answers)
            ms = mod.tick()
            script[:] = list(rec)
            entry = [dt, list(rec)]
            try:
                is_ = imp.tick()
            except Diverged as e:
                return entry, None, str(e)
            except Exception as e:
                return entry, None, 'raised %s: %s' % (type(e).__name__, e)
            if last:
                out = judge(mod, ms, imp, is_, script)
        return entry, mod.key(), out


class Diverged(Exception):
    pass


def fmt(tree, hist):
    return show(tree) + ' ticks: ' + '; '.join(
        ('+%g ' % h[0] if h[0] else '') + ' '.join('%s=%s' % (''.join(map(str, p)) or 'root', NAMES[a]) for p, a in h[1])
        for h in hist)


def check_tree(tree, judge, depth, full_depth, steps=(0,), horizon=6, cap=64, log=0):
    """BFS over the reachable (model) states of one tree; histories shorter than full_depth ticks are kept apart
    even when they reach the same model state (the first `cap` of them per depth)."""
    seen = set()
    frontier = [[]]
    states = trans = 0
    d = 0
    while frontier and d < depth:
        nxt = []
        apart = 0
        for hist in frontier:
            for entry, key, problem in mc.explore(
                    lambda ch: one_tick(tree, hist, ch, steps, horizon, judge, log)):
                trans += 1
                if problem:
                    return states, trans, d, (fmt(tree, hist + ([entry] if entry else [])), problem)
                if d + 1 < full_depth and apart < cap:
                    nxt.append(hist + [entry])
                    apart += 1
                    if key not in seen:
                        seen.add(key)
                        states += 1
                elif key not in seen:
                    seen.add(key)
                    states += 1
                    nxt.append(hist + [entry])
        frontier = nxt
        d += 1
    return states, trans, d, None
