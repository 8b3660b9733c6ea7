"""Leading-term analysis of value graphs in one variable.

Abstract value of a node f(d): (c, p) with f(d) = c*d^p*(1 + o(1)) as d tends to
infinity (``inf=True``) or to zero from above; c, p are expressions without d.
Which summand dominates is decided by the sign analysis of exponent differences.
"""
from __future__ import annotations

from . import expr as X
from . import canon as C
from .sign import Sign, Facts, N, Z, P


class NoLimit(Exception):
    pass


class Asym:
    def __init__(self, d, inf, ranges=None):
        self.d = d
        self.inf = inf
        self.sg = Sign(ranges)
        self.memo = {}

    def sign(self, e):
        s = self.sg.of(e, Facts())
        if s & (s - 1):
            # cancel equal terms before giving up
            try:
                z = C.rebuild(e) if hasattr(C, "rebuild") else e
                s &= self.sg.of(z, Facts())
            except Exception:
                pass
        return s

    def equal(self, a, b):
        if a is b:
            return True
        try:
            return C.same(a, b)
        except Exception:
            return False

    def of(self, e):
        r = self.memo.get(e.id)
        if r is None:
            r = self._of(e)
            self.memo[e.id] = r
        return r

    def free(self, e):
        return not any(x is self.d for x in X.walk(e))

    def cond(self, c):
        """truth of a condition in the limit, None if unknown"""
        if self.free(c):
            return self.sg.decide(c, Facts())
        if c.op == "not":
            r = self.cond(c.args[0])
            return None if r is None else not r
        if c.op == "and":
            rs = [self.cond(a) for a in c.args]
            return False if False in rs else True if None not in rs else None
        if c.op == "eq":
            a, b = c.args
            (c1, p1), (c2, p2) = self.of(a), self.of(b)
            if self.equal(p1, p2) and self.equal(c1, c2):
                return None
            return False
        if c.op == "lt":
            a, b = c.args
            c0, p0 = self.of(X.sub(b, a))
            s = self.sign(c0)
            return True if s == P else False if s == N else None
        return None

    def _of(self, e):
        op, a = e.op, e.args
        if e is self.d:
            return X.ONE, X.ONE
        if self.free(e):
            return e, X.ZERO
        if op == "mul":
            c, p = X.ONE, X.ZERO
            for x in a:
                cx, px = self.of(x)
                c, p = X.mul(c, cx), X.add(p, px)
            return c, p
        if op in ("div", "sdiv"):
            (c1, p1), (c2, p2) = self.of(a[0]), self.of(a[1])
            return X.div(c1, c2), X.sub(p1, p2)
        if op in ("pow", "spow"):
            if not self.free(a[1]):
                raise NoLimit("exponent")
            c, p = self.of(a[0])
            return X.power(c, a[1]), X.mul(p, a[1])
        if op == "ssqrt":
            c, p = self.of(a[0])
            h = X.num("1/2") if False else X.div(X.ONE, X.num(2))
            return X.power(c, h), X.mul(p, h)
        if op == "exp":
            c, p = self.of(a[0])
            g = p if self.inf else X.neg(p)
            if self.sign(g) == N:
                return X.ONE, X.ZERO
            raise NoLimit("exp")
        if op == "fn" and a[0] in ("cut", "rnd"):
            return self.of(a[1])
        if op == "fn" and a[0] == "abs":
            c, p = self.of(a[1])
            return X.fn("abs", c), p
        if op in ("where", "phi"):
            t = self.cond(a[0])
            if t is None:
                raise NoLimit("condition " + X.show(a[0], 4))
            return self.of(a[1] if t else a[2])
        if op == "add":
            best = None
            for x in a:
                c, p = self.of(x)
                if self.sign(c) == Z:
                    continue
                if best is None:
                    best = (c, p)
                    continue
                diff = X.sub(p, best[1])
                if self.equal(p, best[1]):
                    best = (X.add(best[0], c), p)
                    continue
                s = self.sign(self.simplify(diff))
                if not self.inf:
                    s = (P if s & N else 0) | (N if s & P else 0) | (s & Z)
                if s == P:
                    best = (c, p)
                elif s != N:
                    raise NoLimit(f"cannot compare exponents {X.show(p)} and {X.show(best[1])}")
            if best is None:
                return X.ZERO, X.ZERO
            if self.sign(best[0]) & Z:
                raise NoLimit("leading terms may cancel")
            return best
        raise NoLimit(op)

    def simplify(self, e):
        """sum of monomials with equal ones collected (exponents are small linear expressions)"""
        return linear(e)


def linear(e):
    """collect a linear combination; other nodes are atoms"""
    acc = {}
    const = [X.ZERO.args[0]]

    def go(x, k):
        v = X.numval(x)
        if v is not None:
            const[0] += k * v
        elif x.op == "add":
            for y in x.args:
                go(y, k)
        elif x.op == "mul":
            nums = [X.numval(y) for y in x.args if X.numval(y) is not None]
            rest = [y for y in x.args if X.numval(y) is None]
            for n in nums:
                k = k * n
            if len(rest) == 1:
                go(rest[0], k)
            elif rest and any(y.op == "add" for y in rest):
                s = next(y for y in rest if y.op == "add")
                o = [y for y in rest if y is not s]
                for t in s.args:
                    go(X.mul(t, *o), k)
            elif rest:
                r = X.mul(*rest)
                acc[r] = acc.get(r, 0) + k
            else:
                const[0] += k
        elif x.op == "div" and X.numval(x.args[1]) is not None:
            go(x.args[0], k / X.numval(x.args[1]))
        else:
            acc[x] = acc.get(x, 0) + k
    go(e, X.ONE.args[0])
    return X.add(X.num(const[0]), *[X.mul(X.num(v), x) for x, v in acc.items() if v != 0])
