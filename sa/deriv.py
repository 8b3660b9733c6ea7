"""Formal derivative of a value graph with respect to one leaf occurrence."""
from __future__ import annotations

from fractions import Fraction

from . import expr as X


class NoDerivative(Exception):
    pass


def depends(e, x, memo):
    r = memo.get(e.id)
    if r is None:
        r = e is x or any(depends(a, x, memo) for a in X.children(e))
        memo[e.id] = r
    return r


def D(e, x, memo=None, dep=None):
    if memo is None:
        memo, dep = {}, {}
    r = memo.get(e.id)
    if r is None:
        r = _D(e, x, memo, dep)
        memo[e.id] = r
    return r


def _D(e, x, memo, dep):
    if e is x:
        return X.ONE
    if not depends(e, x, dep):
        return X.ZERO
    op, a = e.op, e.args
    d = lambda y: D(y, x, memo, dep)
    if op == "add":
        return X.add(*[d(y) for y in a])
    if op == "mul":
        out = []
        for k, y in enumerate(a):
            dy = d(y)
            if dy is X.ZERO:
                continue
            out.append(X.mul(dy, *[z for j, z in enumerate(a) if j != k]))
        return X.add(*out) if out else X.ZERO
    if op in ("div", "sdiv"):
        u, v = a
        return X.sub(X.div(d(u), v), X.div(X.mul(u, d(v)), X.power(v, X.num(2)))) if depends(v, x, dep) \
            else X.div(d(u), v)
    if op in ("pow", "spow"):
        u, v = a
        if not depends(v, x, dep):
            return X.mul(v, X.power(u, X.sub(v, X.ONE)), d(u))
        r = X.mul(X.power(u, v), X.fn("log", u), d(v))
        if depends(u, x, dep):
            r = X.add(r, X.mul(v, X.power(u, X.sub(v, X.ONE)), d(u)))
        return r
    if op == "ssqrt":
        return X.mul(X.num(Fraction(1, 2)), X.power(a[0], X.num(Fraction(-1, 2))), d(a[0]))
    if op == "exp":
        return X.mul(e, d(a[0]))
    if op in ("where", "phi"):
        return X.mk(op, a[0], d(a[1]), d(a[2])) if d(a[1]) is not d(a[2]) else d(a[1])
    if op == "red" and a[0] == "sum":
        return X.reduce_("sum", a[1], d(a[2])) if d(a[2]) is not X.ZERO else X.ZERO
    if op == "fn" and a[0] in ("cut", "rnd"):
        return d(a[1])
    if op == "fn" and a[0] == "tanh":
        return X.mul(X.sub(X.ONE, X.power(e, X.num(2))), d(a[1]))
    raise NoDerivative(op + (":" + str(a[0]) if op == "fn" else ""))
