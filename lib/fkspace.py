"""The bounded space of DH tables explored for forward kinematics, equations and Jacobians."""
import itertools

FIX = ('0', 0, '-', 0)


def expand(quick=True):
    """yield (name, spec) with alpha written as a string sympy understands"""
    al = ['0', 'pi/2', '-pi/2', 'pi', '0.7', '-pi/3']
    kinds = [('R', 0), ('R', 1), ('P', '0'), ('P', 'pi/2')]
    full = [(a, b, k, o) for a in al for b in (0, 1) for k, o in kinds]
    red = [(a, b, k, o) for a in ('0', 'pi/2', '-pi/2', '0.7') for b, (k, o) in
           ((1, ('R', 0)), (0, ('R', 1)), (1, ('P', '0')))]
    base = [FIX] * 6
    for pos in range(6):
        for r in full:
            s = list(base)
            s[pos] = r
            yield s
    for pos in range(5):
        space = red if quick else full[::1]
        pairs = itertools.product(space, repeat=2)
        for n, (r1, r2) in enumerate(pairs):
            if quick and pos not in (0, 3) and (n + pos) % 3:
                continue
            s = list(base)
            s[pos], s[pos + 1] = r1, r2
            yield s
    tri = [('0', 1, 'R', 0), ('pi/2', 0, 'R', 1), ('-pi/2', 1, 'P', '0'), ('0.7', 1, 'R', 1)]
    for pos in ((0, 2, 3) if quick else (0, 1, 2, 3)):
        for n, t in enumerate(itertools.product(tri, repeat=3)):
            if quick and (n + pos) % 2:
                continue
            s = list(base)
            s[pos:pos + 3] = t
            yield s
    if not quick:
        four = tri[:3]
        for pos in (0, 2):
            for t in itertools.product(four, repeat=4):
                s = list(base)
                s[pos:pos + 4] = t
                yield s
    # whole six joint arms
    six = [[('0', 0, 'R', 1), ('-pi/2', 0, 'R', 0), ('0', 1, 'R', 1), ('-pi/2', 1, 'R', 1), ('pi/2', 0, 'R', 0), ('-pi/2', 0, 'R', 0)],
           [('0', 0, 'R', 1), ('pi/2', 0, 'R', 1), ('-pi/2', 0, 'P', '0'), ('0', 0, 'R', 0), ('-pi/2', 0, 'R', 0), ('pi/2', 0, 'R', 0)],
           [('0', 0, 'P', '0'), ('pi/2', 1, 'P', 'pi/2'), ('-pi/2', 0, 'P', '0'), ('pi/2', 0, 'R', 0), ('-pi/2', 0, 'R', 0), ('pi/2', 0, 'R', 1)]]
    for s in six:
        yield s


def show(s):
    return ' | '.join('%s,%s,%s%s' % (a, 'a' if b else '0', k, ('' if not o or o == '0' else ('+off' if k == 'R' else '@' + str(o))))
                      if (a, b, k, o) != FIX else '.' for a, b, k, o in s)


def make(spec):
    import sympy as sp
    import fk
    return fk.symtable([(sp.sympify(a) if '.' not in a else sp.Float(a), b, k, sp.sympify(o) if k == 'P' else o)
                        for a, b, k, o in spec])
