"""The published formulas, as value graphs over the same leaves."""
from __future__ import annotations

from . import expr as X
from .expr import num


def leaf(n, *i):
    return X.leaf_norm([n, *i]) if n == "dist" else X.leaf(n, *i)


class Mol:
    """index helper for one molecule (optionally inside a batch)"""

    def __init__(self, lead=(), tag="", n="N"):
        self.lead = tuple(lead)
        self.tag = tag
        self.N = n

    def L(self, name, *i):
        return X.leaf(name + self.tag, *self.lead, *i)

    def dist(self, i, j):
        return X.leaf_norm(["dist" + self.tag, *self.lead, i, j]) if not self.tag else \
            X.leaf("dist" + self.tag, *self.lead, i, j)

    def real(self, i):
        return X.notb(X.eq(self.L("numbers", i), X.ZERO))

    def pair(self, i, j):
        return X.andb(self.real(i), self.real(j), X.notb(X.eqi(i, j)))

    def triple(self, i, j, k):
        return X.andb(self.real(i), self.real(j), self.real(k), X.notb(X.eqi(i, j)), X.notb(X.eqi(i, k)),
                      X.notb(X.eqi(j, k)))


def qq(ri, rj):
    return X.mul(num(3), ri, rj)


def bj_radius(a1, a2, ri, rj):
    return X.add(X.mul(a1, X.sqrt(qq(ri, rj))), a2)


# damped inverse powers t_n(R; pair radius quantity)
def t_rational(n, R, p, rad):
    return X.div(X.ONE, X.add(X.power(R, num(n)), X.power(rad, num(n))))


def f_zero(n, R, p, r0):
    alp = p["alp"] if n in (6, 9) else X.add(p["alp"], num(n - 6))
    rs = p[f"rs{n}"]
    return X.div(X.ONE, X.add(X.ONE, X.mul(num(6), X.power(X.mul(rs, X.div(r0, R)), alp))))


def t_zero(n, R, p, r0):
    return X.div(f_zero(n, R, p, r0), X.power(R, num(n)))


def t_mzero(n, R, p, r0):
    alp = p["alp"] if n == 6 else X.add(p["alp"], num(n - 6))
    t = X.add(X.div(R, X.mul(p[f"rs{n}"], r0)), X.mul(p["bet"], r0))
    return X.div(X.div(X.ONE, X.add(X.ONE, X.mul(num(6), X.power(t, X.neg(alp))))), X.power(R, num(n)))


def t_op(n, R, p, rad):
    rb = X.power(R, p["bet"])
    ab = X.power(rad, p["bet"])
    return X.div(rb, X.add(X.mul(rb, X.power(R, num(n))), X.mul(ab, X.power(rad, num(n)))))


DAMP = {
    "RationalDamping": (t_rational, "r4r2", (6, 8, 10), ("a1", "a2")),
    "ZeroDamping": (t_zero, "rvdw", (6, 8), ("rs6", "rs8", "alp")),
    "MZeroDamping": (t_mzero, "rvdw", (6, 8), ("rs6", "rs8", "alp", "bet")),
    "OptimisedPowerDamping": (t_op, "r4r2", (6, 8), ("a1", "a2", "bet")),
}


def two_body(mol, i, damping, p, c6, cutoff, s10=False, matrix=False, j=None, r4r2=None, rvdw=None):
    """atom-resolved two-body energy (or matrix element)"""
    fn, kind, orders, _ = DAMP[damping]
    r4r2 = r4r2 or (lambda a: mol.L("r4r2", a))
    rvdw = rvdw or (lambda a, b: mol.L("rvdw~s", a, b))
    v = j if matrix else X.var(mol.N, "s")
    R = mol.dist(i, v)
    q = qq(r4r2(i), r4r2(v))
    rad = bj_radius(p["a1"], p["a2"], r4r2(i), r4r2(v)) if kind == "r4r2" else rvdw(i, v)
    C6 = c6(i, v)
    C8 = X.mul(C6, q)
    e = X.add(X.mul(p["s6"], C6, fn(6, R, p, rad)), X.mul(p["s8"], C8, fn(8, R, p, rad)))
    if s10:
        from fractions import Fraction
        C10 = X.mul(X.num(Fraction(49, 40)), X.power(q, num(2)), C6)
        e = X.add(e, X.mul(p["s10"], C10, fn(10, R, p, rad)))
    g = X.andb(mol.pair(i, v), X.le(R, cutoff))
    e = X.where(g, e, X.ZERO)
    if matrix:
        return X.neg(e)
    from fractions import Fraction
    return X.mul(X.num(Fraction(-1, 2)), X.reduce_("sum", v, e))


def atm(mol, i, c9, r0, s9, alp, cutoff, damp=None, rs9=None):
    """atom-resolved Axilrod-Teller-Muto energy"""
    from fractions import Fraction
    j, k = X.var(mol.N, "s"), X.var(mol.N, "s")
    a, b, c = mol.dist(i, j), mol.dist(i, k), mol.dist(j, k)
    a2, b2, c2 = (X.power(x, num(2)) for x in (a, b, c))
    cosines = X.mul(X.sub(X.add(a2, c2), b2), X.add(X.sub(a2, c2), b2), X.sub(X.add(c2, b2), a2))
    # cos*cos*cos = cosines / (8 a^2 b^2 c^2)
    prod = X.mul(a, b, c)
    ang = X.div(X.add(X.div(X.mul(num(3), cosines), X.mul(num(8), X.power(prod, num(2)))), X.ONE), X.power(prod, num(3)))
    r = X.div(X.mul(r0(i, j), r0(i, k), r0(j, k)), prod)
    if rs9 is not None:
        r = X.mul(rs9, r)
    f = X.div(X.ONE, X.add(X.ONE, X.mul(num(6), X.power(r, X.mul(alp, X.num(Fraction(1, 3)))))))
    g = X.andb(mol.triple(i, j, k), X.le(a, cutoff), X.le(b, cutoff), X.le(c, cutoff))
    e = X.where(g, X.mul(s9, c9(i, j, k), ang, f), X.ZERO)
    return X.mul(X.num(Fraction(1, 6)), X.reduce_("sum", j, X.reduce_("sum", k, e)))


def c9_approx(c6):
    return lambda i, j, k: X.sqrt(X.fn("abs", X.mul(c6(i, j), c6(i, k), c6(j, k))))
