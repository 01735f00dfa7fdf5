"""DH tables, an independent numeric forward kinematics / Jacobian, and evaluation of sympy results on grids."""
import itertools
import math
import numpy as np

PI = math.pi
# three distinct angles decide an identity that is affine in (cos t, sin t); two lengths decide an affine one
ANG = (0.4, 1.9, -2.3)
LEN = (0.7, -0.45, 1.3)


def link(al, a, d, th):
    """Craig's modified DH link: RotX(al) Trans(a,0,0) RotZ(th) Trans(0,0,d)"""
    ca, sa, ct, st = math.cos(al), math.sin(al), math.cos(th), math.sin(th)
    X = np.array([[1, 0, 0, a], [0, ca, -sa, 0], [0, sa, ca, 0], [0, 0, 0, 1.0]])
    Z = np.array([[ct, -st, 0, 0], [st, ct, 0, 0], [0, 0, 1, d], [0, 0, 0, 1.0]])
    return X @ Z


def fk_num(rows):
    """rows: numeric DH; returns list of T_0i"""
    T, out = np.eye(4), []
    for r in rows:
        T = T @ link(*r)
        out.append(T)
    return out


def jac_num(Ts, vv):
    """Jacobian of the last frame's velocity, expressed in the last frame (joint i moves along/about z_i)."""
    n = len(Ts)
    Te = Ts[-1]
    R = Te[:3, :3].T
    J = np.zeros((6, n))
    for i in range(n):
        z = Ts[i][:3, 2]
        if vv[i] == 1:
            J[:3, i] = R @ np.cross(z, Te[:3, 3] - Ts[i][:3, 3])
            J[3:, i] = R @ z
        else:
            J[:3, i] = R @ z
    return J


def symtable(spec):
    """spec: six rows (alpha, a, kind, off).  kind: 'R' revolute with d offset off, 'P' prismatic with angle off,
    '-' fixed.  Returns (sympy DH, vv, params, pvals, jointsyms, paramvalues)."""
    import sympy as sp
    rows, vv, params, joints, pv = [], [], [], [], {}
    for i, (al, a, kind, off) in enumerate(spec):
        th, d = sp.Integer(0), sp.Integer(0)
        av = sp.Integer(0)
        if a:
            av = sp.Symbol('a_%d' % (i + 1))
            params.append(av)
            pv[av] = 0.31 + 0.17 * i
        if kind == 'R':
            th = sp.Symbol('th_%d' % (i + 1))
            joints.append((th, 'R'))
            if off:
                d = sp.Symbol('l_%d' % (i + 1))
                params.append(d)
                pv[d] = 0.53 - 0.11 * i
        elif kind == 'P':
            d = sp.Symbol('d_%d' % (i + 1))
            joints.append((d, 'P'))
            th = off
        vv.append(0 if kind == 'P' else 1)
        rows.append([al, av, d, th])
    return sp.Matrix(rows), vv, params, joints, pv


def numrows(dh, sub):
    """numeric rows from a sympy DH table and a dict symbol -> value (independent of the code under test)"""
    return [[float(sp_n(dh[i, j], sub)) for j in range(4)] for i in range(dh.shape[0])]


def sp_n(e, sub):
    import sympy as sp
    return sp.sympify(e).subs(sub).evalf()


def grid(joints, extra=False):
    vals = [(ANG if k == 'R' else LEN) for _, k in joints]
    if extra:
        vals = [v + ((0.0, PI / 2) if k == 'R' else (0.0,)) for v, (_, k) in zip(vals, joints)]
    return itertools.product(*vals)


def pvals_num(p, given=None):
    """parameter values the code itself attached (strings such as 'np.cos(...)', of numbers or of given parameters) as numbers"""
    out = {}
    names = {str(k): v for k, v in (given or {}).items()}
    for k, v in p.items():
        if isinstance(v, str):
            v = eval(v, {**names, 'np': np, 'pi': np.pi, 'cos': np.cos, 'sin': np.sin})
        out[k] = float(v)
    return out
