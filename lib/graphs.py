"""Synthetic solution graphs: a robot whose unknowns were solved by formulas chosen here, handed to the real
bookkeeping (unknown.set_solved, Robot.create_solution_set, make_LHS_versions) and the real report and code generators.
The oracle evaluates the same formulas by nested enumeration of the branches, knowing nothing of versions."""
import cmath
import itertools
import math
import mc

_ns = {}


def ns():
    if not _ns:
        with mc.quiet():
            import sympy as sp
            import ikbtbasics.kin_cl as kc
            import ikbtbasics.ik_classes as ik
            import ikbtfunctions.helperfunctions as hf
            import ikbtfunctions.output_latex as ol
            import ikbtfunctions.output_python as op
            import ikbtfunctions.output_cpp as oc
        _ns.update(sp=sp, kc=kc, ik=ik, hf=hf, ol=ol, op=op, oc=oc)
    return _ns


PAR = {'l_1': 0.7, 'l_2': 1.3, 'a_3': -0.45, 'l_4': 0.9}
POSE = ['r_11', 'r_12', 'r_13', 'r_21', 'r_22', 'r_23', 'r_31', 'r_32', 'r_33', 'Px', 'Py', 'Pz']


def S(n):
    return ns()['sp'].Symbol(n)


def build(unknowns, sols, methods=None, name='Mc_Robot', pvals=None, params=None, hook=None):
    """unknowns: names in the order of the robot's list; sols: [(name, [solution expr])] in solving order."""
    n = ns()
    sp, kc, ik = n['sp'], n['kc'], n['ik']
    R = ik.Robot()
    R.name = name
    us = [kc.unknown(sp.Symbol(x)) for x in unknowns]
    by = {u.name: u for u in us}
    order = []
    for i, (x, ss) in enumerate(sols):
        u = by[x]
        u.solutions = list(ss)
        u.nsolutions = len(ss)
        u.solvemethod = (methods or {}).get(x, 'algebra' if len(ss) == 1 else 'arcsin')
        u.argument = sp.Symbol('Px')
        u.eqntosolve = kc.kequation(sp.Symbol('Px'), u.symbol)
        u.set_solved(R, us)
        order.append(u)
        if hook:
            hook(R, us, order)
    m = kc.mechanism(sp.zeros(6, 4), [], [1] * 6)
    m.pvals = dict(pvals or {})
    m.T_06 = sp.eye(4)
    m.J66 = sp.eye(6)
    R.Mech = m
    R.params = list(params or [])
    return R, us, order


def versions(R):
    R.create_solution_set()
    R.make_LHS_versions()


def evaluate(e, vals):
    """complex value of an expression with the given values; the branches of asin/acos/sqrt out of range come out complex"""
    sp = ns()['sp']
    if e.is_Symbol:
        return vals[e.name]
    if e.is_Number or e.is_NumberSymbol:
        return complex(e)
    a = [evaluate(x, vals) for x in e.args]
    if any(x is None for x in a):
        return None
    if e.is_Add:
        return sum(a)
    if e.is_Mul:
        r = 1
        for x in a:
            r *= x
        return r
    if e.is_Pow:
        if a[0] == 0 and a[1].real < 0:
            return None
        return a[0] ** a[1]
    if isinstance(e, sp.Abs):
        return complex(abs(a[0]))
    if isinstance(e, sp.atan2):
        if any(abs(x.imag) > 1e-9 for x in a):
            return None
        return complex(math.atan2(a[0].real, a[1].real))
    f = {sp.sin: cmath.sin, sp.cos: cmath.cos, sp.tan: cmath.tan, sp.asin: cmath.asin, sp.acos: cmath.acos, sp.atan: cmath.atan}[e.func]
    return f(a[0])


def branches(sols, vals):
    """all branches, by nested enumeration: list of {name: real value}; a branch that is not real is left out"""
    out = []

    def rec(i, got):
        if i == len(sols):
            out.append(got)
            return
        x, ss = sols[i]
        for e in ss:
            v = evaluate(ns()['sp'].sympify(e), {**vals, **got})
            if v is None or v != v or abs(v.imag) > 1e-9:
                continue
            rec(i + 1, {**got, x: complex(v.real)})
    rec(0, {})
    return [{k: v.real for k, v in b.items()} for b in out]


def same_sets(A, B, tol=1e-7):
    """two lists of equally long vectors are equal as multisets"""
    A, B = list(A), list(B)
    if len(A) != len(B):
        return False
    for a in A:
        for i, b in enumerate(B):
            if len(a) == len(b) and all(abs(x - y) <= tol * (1 + abs(x)) for x, y in zip(a, b)):
                del B[i]
                break
        else:
            return False
    return True


def subsets(n):
    return itertools.chain.from_iterable(itertools.combinations(range(n), r) for r in range(n + 1))


def all_graphs(k):
    """(nsols tuple, deps tuple of tuples of indices)"""
    for nsols in itertools.product((1, 2), repeat=k):
        for deps in itertools.product(*[list(subsets(i)) for i in range(k)]):
            yield nsols, deps


NAMES = ['th_1', 'd_2', 'th_23', 'th_3', 'th_2', 'th_5', 'th_6']


def splits(nsols, deps):
    """ways in which the two solutions of an unknown can share its dependencies: per unknown None (both use all) or the pair
    of sets the two use, together all of them"""
    def one(k, dd):
        if k == 1 or not dd:
            return [None]
        r = [None]
        for w in itertools.product((1, 2, 3), repeat=len(dd)):
            if any(x != 3 for x in w):
                r.append(tuple(tuple(d for d, x in zip(dd, w) if x & bit) for bit in (1, 2)))
        return r
    return itertools.product(*[one(k, dd) for k, dd in zip(nsols, deps)])


def affine(nsols, deps, names=NAMES, split=None):
    """solutions x_i = c_i +- b_i + sum w_ij x_j with coefficients that make all branches distinct"""
    sp = ns()['sp']
    sols = []
    for i, (k, dd) in enumerate(zip(nsols, deps)):
        def base(dd):
            return sp.Symbol('Px') * sp.Rational(i + 1, 7) + sum(sp.Symbol(names[j]) * sp.Rational(3 * i + 2 * j + 2, 5) for j in dd)
        one, two = (split[i] if split and split[i] else (dd, dd))
        if k == 1:
            ss = [base(dd) + sp.Rational(i + 1, 3)]
        else:
            ss = [base(one) + sp.Rational(2**i, 11), -base(two) * sp.Rational(1, 2) - sp.Rational(3**i, 13)]
        sols.append((names[i], ss))
    return sols
