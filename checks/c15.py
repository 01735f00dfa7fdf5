"""C15 the assigner offers every unsolved unknown in turn, and never a solved one while another is unsolved."""
import itertools
import mc


def run(ctx):
    with mc.quiet():
        import sympy as sp
        import b3
        import ikbtbasics.kin_cl as kc
        from ikbtleaves.assigner_leaf import assigner
    syms = sp.symbols('th_1 th_2 d_3 th_4 th_5 th_6 th_23 th_234 th_45')
    depth = 7 if ctx.quick else 10

    def fresh(n):
        us = [kc.unknown(s) for s in syms[:n]]
        bb = b3.Blackboard()
        bb.set('unknowns', us)
        t = b3.BehaviorTree()
        a = assigner()
        a.Name = 'asgn'
        t.root = a
        return us, bb, t

    def replay(n, hist):
        """hist: list of moves; a move is the tuple of (indices solved before the tick, number of unknowns appended)"""
        us, bb, t = fresh(n)
        offers = []
        for solved, add in hist:
            for i in solved:
                us[i].solved = True
            for _ in range(add):
                us.append(kc.unknown(syms[len(us)]))
            r = mc.guarded(t.tick, 'mc', bb, seconds=10)
            if r[0] == 'exc':
                return us, offers, r[1]
            cur = bb.get('curr_unk')
            idx = [i for i, u in enumerate(us) if u is cur]
            if not idx:
                return us, offers, 'offered something that is not in the list of unknowns: %s' % cur
            if r[1] != b3.SUCCESS and any(not u.solved for u in us):
                return us, offers, 'did not succeed although an unknown is unsolved'
            offers.append((idx[0], cur.solved, tuple(u.solved for u in us)))
        return us, offers, None

    def name(n, hist):
        return '%d unknowns, moves %s' % (n, ' '.join('%s%s' % (''.join('s%d' % i for i in s), '+' * a) or '-' for s, a in hist))

    seen = {}

    def explore(n, hist, start):
        us, offers, err = replay(n, hist)
        ctx.count('transitions')
        ctx.count('traces_validated_against_impl')
        if err:
            ctx.violation('error ' + name(n, hist), err)
            return
        if offers:
            i, sol, state = offers[-1]
            if sol and not all(state):
                ctx.violation('solved ' + name(n, hist), 'offers the solved unknown %s while %s are unsolved' % (
                    us[i].symbol, [str(u.symbol) for u in us if not u.solved]))
                return
        # nothing stays unoffered for longer than one round
        for w in range(len(offers), 0, -1):
            st = offers[w - 1][2]
            if st != offers[-1][2] or len(st) != len(us):
                break
            win = offers[w - 1:]
            if len(win) == len(us) + 1:
                missed = [str(us[i].symbol) for i in range(len(us)) if not us[i].solved and i not in [o[0] for o in win]]
                if missed:
                    ctx.violation('starved ' + name(n, hist), '%s not offered in %d ticks' % (missed, len(win)))
                    return
                break
        # merge equal futures: unknowns solved, and everything offered since the set last changed
        tail = []
        for o in reversed(offers):
            if o[2] != offers[-1][2]:
                break
            tail.append(o[0])
        key = (tuple(u.solved for u in us), tuple(tail[:len(us) + 2]), offers[-1][0] if offers else None, bb_counter(n, hist))
        if seen.get(key, 99) <= len(hist):
            return
        seen[key] = len(hist)
        ctx.count('states')
        if ctx.cov['states'] % 500 == 1:
            ctx.sample(name(n, hist) + ' offered ' + str([o[0] for o in offers]))
        if len(hist) == depth:
            return
        uns = [i for i, u in enumerate(us) if not u.solved]
        moves = [((), 0)]
        # adversary: the unknown just offered gets solved, or any other, or two; a sum-of-angle unknown is appended
        moves += [((i,), 0) for i in uns]
        if len(uns) > 1:
            moves += [((uns[0], uns[-1]), 0)]
        if len(us) < 6:
            moves += [((), 1)] + [((i,), 1) for i in uns[:1]]
        for m in moves:
            explore(n, hist + [m], start)

    def bb_counter(n, hist):
        # the position the real assigner keeps is part of the state; take the whole global blackboard as it is
        us, bb, t = fresh(n)
        for solved, add in hist:
            for i in solved:
                us[i].solved = True
            for _ in range(add):
                us.append(kc.unknown(syms[len(us)]))
            with mc.quiet():
                t.tick('mc', bb)
        return bb.get('counter')

    for n in range(1, 6):
        explore(n, [], 0)
    # long runs with a fixed list: every unsolved unknown is offered in every window of n+1 ticks, whatever is solved
    for n in range(1, 10):
        for solved in itertools.product((0, 1), repeat=n):
            if all(solved):
                continue
            us, bb, t = fresh(n)
            for u, s in zip(us, solved):
                u.solved = bool(s)
            got = []
            for _ in range(3 * n + 3):
                r = mc.guarded(t.tick, 'mc', bb, seconds=10)
                ctx.count('transitions')
                got.append(us.index(bb.get('curr_unk')))
            ctx.count('states')
            for w in range(len(got) - n):
                miss = [i for i in range(n) if not solved[i] and i not in got[w:w + n + 1]]
                if miss or any(solved[i] for i in got[w:w + n + 1]):
                    ctx.violation('fixed %s' % (solved,), 'solved flags %s: offers %s' % (solved, got))
                    break
    # only being solved takes an unknown off the round: not that a leaf once recognised it, nor what a failed attempt left on it
    for n in range(1, 7):
        for state in itertools.product('sur', repeat=n):
            if 'r' not in state:
                continue
            us, bb, t = fresh(n)
            for u, s in zip(us, state):
                u.solved = s == 's'
                if s == 'r':
                    u.readytosolve = True
                    u.secondeqn = u.eqntosolve = kc.kequation(sp.Symbol('Px'), u.symbol)
                    u.solvemethod, u.argument = 'algebra', sp.Symbol('Px')
                    u.solutions, u.nsolutions = [sp.Symbol('Px')], 1
            got = []
            for _ in range(2 * n + 3):
                mc.guarded(t.tick, 'mc', bb, seconds=10)
                ctx.count('transitions')
                got.append(us.index(bb.get('curr_unk')))
            ctx.count('states')
            for w in range(len(got) - n):
                miss = [i for i in range(n) if state[i] != 's' and i not in got[w:w + n + 1]]
                if miss or (set(state) != {'s'} and any(state[i] == 's' for i in got[w:w + n + 1])):
                    ctx.violation('attempted %s' % (state,), 'unknowns %s (r: attempted in vain): offers %s' % (state, got))
                    break
    ctx.cov['exhaustive'] = True
