"""Memoised sympy simplification (pure functions of their argument): histories that repeat one computation stay cheap."""
import sympy as sp

_memo = {}
_real = {}


def _wrap(name):
    real = getattr(sp, name)
    _real[name] = real

    def f(e, *a, **k):
        if a or k:
            return real(e, *a, **k)
        try:
            key = (name, type(e).__name__, sp.srepr(e))
        except Exception:
            return real(e)
        if key not in _memo:
            _memo[key] = real(e)
        r = _memo[key]
        return r.copy() if isinstance(r, sp.MatrixBase) else r
    return f


def _method():
    real = sp.Basic.simplify

    def simplify(self, *a, **k):
        if a or k:
            return real(self, *a, **k)
        key = ('method', sp.srepr(self))
        if key not in _memo:
            _memo[key] = real(self)
        return _memo[key]
    sp.Basic.simplify = simplify


def install():
    if not _real:
        _method()
        for n in ('simplify', 'trigsimp'):
            setattr(sp, n, _wrap(n))
