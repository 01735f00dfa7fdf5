"""Is an equation true at a joint configuration?  Values of defined symbols (th_12 = th_1 + th_2 ..) follow from definitions."""
import math
import sympy as sp


def value(e, env):
    e = sp.sympify(e)
    try:
        return complex(e.xreplace({s: sp.Float(env[s], 30) for s in e.free_symbols}).evalf(15))
    except KeyError as x:
        raise Undefined(str(x))


class Undefined(Exception):
    pass


def define(aux, env, base=()):
    """extend env with the symbols the auxiliary equations define (LHS a new symbol, RHS known).  A symbol that has two
    definitions keeps the first; all equations are checked for truth afterwards, so a wrong one shows."""
    env = dict(env)
    todo = [(sp.sympify(e.LHS), sp.sympify(e.RHS)) for e in aux]
    again = True
    while again:
        again = False
        for l, r in todo:
            if l.is_Symbol and l not in env and all(s in env for s in r.free_symbols):
                env[l] = value(r, env).real
                again = True
    return env


def differs(l, r, env, tol=1e-7):
    """None if l = r at env, else a text"""
    try:
        a, b = value(l, env), value(r, env)
    except Undefined as x:
        return 'undefined symbol %s in %s = %s' % (x, l, r)
    if abs(a - b) > tol * (1 + abs(a)) or a != a or b != b:
        return '%s = %s is false: %.6g, %.6g' % (l, r, a.real, b.real)
    return None


def pose_env(T):
    env = {sp.Symbol('r_%d%d' % (i + 1, j + 1)): float(T[i, j]) for i in range(3) for j in range(3)}
    env.update({sp.Symbol(n): float(T[i, 3]) for i, n in enumerate(('Px', 'Py', 'Pz'))})
    return env
