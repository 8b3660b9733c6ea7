"""Canonical forms of value-graph nodes (algebraic global value numbering).

A node is mapped to an ordered decision tree over boolean atoms whose terminals
are (Laurent) polynomials with rational or symbolic exponents over interned
atoms.  Two nodes with the same canonical form are the same function of the
inputs in exact arithmetic.  Finite sums over an index are kept as atoms
(connected component, single monomial, boolean guard), so that
``einsum``/``sum``/broadcast variants of one formula coincide.
"""
from __future__ import annotations

from fractions import Fraction
from itertools import permutations
from math import gcd
import time

from . import expr as X
from .expr import E

F0, F1 = Fraction(0), Fraction(1)


class TooBig(Exception):
    pass


LIMIT = 400000
_steps = [0]


_deadline = [None]


def _tick(n=1):
    _steps[0] += n
    if _deadline[0] is not None and _steps[0] % 64 == 0 and time.monotonic() > _deadline[0]:
        raise TooBig("time")


class budget:
    """at most so many seconds for the normal forms computed inside"""

    def __init__(self, seconds):
        self.s = seconds

    def __enter__(self):
        self.old = _deadline[0]
        d = time.monotonic() + self.s
        _deadline[0] = d if self.old is None else min(d, self.old)

    def __exit__(self, *a):
        _deadline[0] = self.old
        return False


# --------------------------------------------------------------- interning
_atoms: list = []
_atom_id: dict = {}
_polys: list = []
_poly_id: dict = {}
_trees: list = []
_tree_id: dict = {}

# names of leaves / tables that only take non-negative values
NONNEG: set = {"dist", "cutoff", "disp2", "disp3", "cn_eeq", "r4r2", "rvdw", "radii", "rcov", "alp",
                "rs6", "rs8", "rs9", "a1", "a2", "bet", "wf"}
# tables with a small finite set of values: name -> tuple of values
DOMAIN: dict = {}


def atom(*key) -> int:
    i = _atom_id.get(key)
    if i is None:
        i = len(_atoms)
        _atoms.append(key)
        _atom_id[key] = i
    return i


def poly(d) -> int:
    key = tuple(sorted((m, c) for m, c in d.items() if c != 0))
    i = _poly_id.get(key)
    if i is None:
        i = len(_polys)
        _polys.append(dict(key))
        _poly_id[key] = i
    return i


def _tree(key) -> int:
    i = _tree_id.get(key)
    if i is None:
        i = len(_trees)
        _trees.append(key)
        _tree_id[key] = i
    return i


def L(p) -> int:
    return _tree(("L", p))


P0 = poly({})
P1 = poly({(): F1})
T0, T1 = L(P0), L(P1)


def pconst(c):
    return poly({(): Fraction(c)}) if c != 0 else P0


def tconst(c):
    return L(pconst(c))


def patom(a, e=F1):
    return poly({((a, Fraction(e)),): F1})


def isleaf(t):
    return _trees[t][0] == "L"


def leafpoly(t):
    return _trees[t][1]


def pvalue(p):
    d = _polys[p]
    if not d:
        return F0
    if len(d) == 1 and () in d:
        return d[()]
    return None


# ------------------------------------------------------------------- trees
_restrict_memo: dict = {}


def restrict(t, a, val):
    k = (t, a, val)
    r = _restrict_memo.get(k)
    if r is None:
        n = _trees[t]
        if n[0] == "L" or n[1] > a:
            r = t
        elif n[1] == a:
            r = n[2] if val else n[3]
        else:
            r = ite(n[1], restrict(n[2], a, val), restrict(n[3], a, val))
        _restrict_memo[k] = r
    return r


def tatoms(t, acc=None, seen=None):
    if acc is None:
        acc, seen = set(), set()
    if t in seen:
        return acc
    seen.add(t)
    n = _trees[t]
    if n[0] == "I":
        acc.add(n[1])
        tatoms(n[2], acc, seen)
        tatoms(n[3], acc, seen)
    return acc


_isgroup: dict = {}


def ite(a, t, f):
    """Ordered node; a must precede all atoms of t and f (kept by apply)."""
    key = _atoms[a]
    if key[0] == "is":
        for sib in _isgroup.get(key[1], ()):
            if sib != a:
                t = restrict(t, sib, False)
    if t == f:
        return t
    return _tree(("I", a, t, f))


def _top(t):
    n = _trees[t]
    return n[1] if n[0] == "I" else None


_apply_memo: dict = {}


def apply2(name, f, a, b):
    k = (name, a, b)
    r = _apply_memo.get(k)
    if r is not None:
        return r
    _tick()
    na, nb = _trees[a], _trees[b]
    if na[0] == "L" and nb[0] == "L":
        r = f(na[1], nb[1])
    else:
        ta = na[1] if na[0] == "I" else None
        tb = nb[1] if nb[0] == "I" else None
        v = ta if tb is None else tb if ta is None else min(ta, tb)
        a1, a0 = (na[2], na[3]) if ta == v else (a, a)
        b1, b0 = (nb[2], nb[3]) if tb == v else (b, b)
        r = ite_any(v, apply2(name, f, a1, b1), apply2(name, f, a0, b0))
    _apply_memo[k] = r
    return r


_apply1_memo: dict = {}


def apply1(name, f, a):
    k = (name, a)
    r = _apply1_memo.get(k)
    if r is not None:
        return r
    _tick()
    n = _trees[a]
    if n[0] == "L":
        r = f(n[1])
    else:
        r = ite_any(n[1], apply1(name, f, n[2]), apply1(name, f, n[3]))
    _apply1_memo[k] = r
    return r


_ite_memo: dict = {}


def ite_any(a, t, f):
    """if-then-else on atom a for trees in arbitrary atom order."""
    if t == f:
        return t
    k = (a, t, f)
    r = _ite_memo.get(k)
    if r is not None:
        return r
    nt, nf = _trees[t], _trees[f]
    v = a
    if nt[0] == "I" and nt[1] < v:
        v = nt[1]
    if nf[0] == "I" and nf[1] < v:
        v = nf[1]
    if v == a:
        r = ite(a, restrict(t, a, True), restrict(f, a, False))
    else:
        t1, t0 = (nt[2], nt[3]) if nt[0] == "I" and nt[1] == v else (t, t)
        f1, f0 = (nf[2], nf[3]) if nf[0] == "I" and nf[1] == v else (f, f)
        r = ite(v, ite_any(a, t1, f1), ite_any(a, t0, f0))
    _ite_memo[k] = r
    return r


def tite(c, t, f):
    """c: boolean tree (terminals 0/1)."""
    k = ("tite", c, t, f)
    r = _apply_memo.get(k)
    if r is None:
        n = _trees[c]
        if n[0] == "L":
            v = pvalue(n[1])
            r = f if v == 0 else t
        else:
            r = ite_any(n[1], tite(n[2], t, f), tite(n[3], t, f))
        _apply_memo[k] = r
    return r


# ------------------------------------------------------------------- polys
def mono_mul(m1, m2):
    d = dict(m1)
    for a, e in m2:
        d[a] = d.get(a, F0) + e
    return d


def norm_mono(d):
    """dict atom->exp  ->  (coef, tuple); integer powers of numbers fold."""
    c = F1
    out = []
    for a, e in d.items():
        if e == 0:
            continue
        k = _atoms[a]
        if k[0] == "num" and e.denominator == 1:
            c *= k[1] ** int(e)
            continue
        if k[0] == "P" and e.denominator == 1 and e > 0:
            return None  # caller must expand
        out.append((a, e))
    return c, tuple(sorted(out))


def _mono_poly(d, coef):
    """Polynomial of a monomial dict, expanding positive powers of sums."""
    r = norm_mono(d)
    if r is not None:
        c, m = r
        return {m: coef * c} if coef * c != 0 else {}
    # expand P atoms with positive integer exponents
    rest = {}
    expand = []
    for a, e in d.items():
        k = _atoms[a]
        if k[0] == "P" and e.denominator == 1 and e > 0:
            expand.append((k[1], int(e)))
        else:
            rest[a] = e
    res = _mono_poly(rest, coef)
    for p, n in expand:
        for _ in range(n):
            res = _dmul(res, _polys[p])
    return res


def _dmul(A, B):
    out = {}
    if len(A) * len(B) > 40000:
        raise TooBig()
    for m1, c1 in A.items():
        for m2, c2 in B.items():
            _tick()
            for m, c in _mono_poly(mono_mul(m1, m2), c1 * c2).items():
                out[m] = out.get(m, F0) + c
    return {m: c for m, c in out.items() if c != 0}


_padd_memo: dict = {}


def _sumatom(m):
    """(rest, atom) if the monomial has exactly one sum atom of exponent 1."""
    s = [a for a, e in m if _atoms[a][0] == "sum" and e == 1]
    if len(s) == 1:
        return tuple(x for x in m if x[0] != s[0]), s[0]
    return None


def _merge_sums(d):
    groups = {}
    for m in d:
        r = _sumatom(m)
        if r:
            rest, a = r
            _, dims, mono, B = _atoms[a]
            groups.setdefault((rest, dims, mono), []).append((m, B))
    for (rest, dims, mono), ms in groups.items():
        if len(ms) < 2:
            continue
        tot = T0
        for m, B in ms:
            tot = tadd(tot, tscale(B, d.pop(m)))
        if tot == T0:
            continue
        k, B = norm_guard(tot)
        vs = sum_vars(dims, mono, B)
        t = make_sum_term(list(vs), mono, B)
        # re-normalise (guards may have become independent of a variable)
        if isleaf(t):
            for m2, c2 in _polys[leafpoly(t)].items():
                for m3, c3 in _mono_poly(mono_mul(rest, m2), k * c2).items():
                    d[m3] = d.get(m3, F0) + c3
        else:
            a = atom("sum", dims, mono, B)
            m3 = tuple(sorted(rest + ((a, F1),)))
            d[m3] = d.get(m3, F0) + k
    return {m: c for m, c in d.items() if c != 0}


def padd(p, q):
    if p == P0:
        return q
    if q == P0:
        return p
    k = (p, q) if p < q else (q, p)
    r = _padd_memo.get(k)
    if r is None:
        d = dict(_polys[p])
        for m, c in _polys[q].items():
            d[m] = d.get(m, F0) + c
        d = {m: c for m, c in d.items() if c != 0}
        r = poly(_merge_sums(d))
        _padd_memo[k] = r
    return r


_pmul_memo: dict = {}


def pmul(p, q):
    if p == P0 or q == P0:
        return P0
    if p == P1:
        return q
    if q == P1:
        return p
    k = (p, q) if p < q else (q, p)
    r = _pmul_memo.get(k)
    if r is None:
        r = poly(_merge_sums(_dmul(_polys[p], _polys[q])))
        _pmul_memo[k] = r
    return r


def pscale(p, c):
    return poly({m: v * c for m, v in _polys[p].items()})


def tadd(a, b):
    if a == T0:
        return b
    if b == T0:
        return a
    if a > b:
        a, b = b, a
    return apply2("add", lambda p, q: L(padd(p, q)), a, b)


def tmul(a, b):
    if a == T0 or b == T0:
        return T0
    if a == T1:
        return b
    if b == T1:
        return a
    if a > b:
        a, b = b, a
    return apply2("mul", lambda p, q: L(pmul(p, q)), a, b)


def tscale(t, c):
    if c == 1:
        return t
    return tmul(t, tconst(c))


def tneg(t):
    return tscale(t, -1)


# ------------------------------------------------------------------- signs
def nonneg_atom(a):
    k = _atoms[a]
    if k[0] == "num":
        return k[1] >= 0
    if k[0] == "x":
        e = k[1]
        if e.op in ("leaf", "tab"):
            return str(e.args[0]).split("~")[0] in NONNEG
        return e.op in ("dim", "eps", "fmax")
    if k[0] == "xp":
        return k[1] == EBASE or nonneg_atom(k[1])
    if k[0] == "f":
        return k[1] in ("abs", "sigmoid", "real_count")
    if k[0] == "P":
        return nonneg_poly(k[1])
    if k[0] == "sum":
        return all(nonneg_atom(b) for b, _ in k[2]) and all(
            v >= 0 for v in guard_values(k[3]))
    return False


def nonneg_poly(p):
    return all(c > 0 and all(e.denominator == 1 and e % 2 == 0 or nonneg_atom(a)
                             for a, e in m) for m, c in _polys[p].items())


def positive_atom(a):
    k = _atoms[a]
    if k[0] == "num":
        return k[1] > 0
    if k[0] == "xp":
        return k[1] == EBASE or positive_atom(k[1])
    if k[0] == "x":
        return k[1].op in ("dim", "eps", "fmax")
    if k[0] == "P":
        return nonneg_poly(k[1]) and any(all(positive_atom(b) for b, _ in m) for m in _polys[k[1]])
    return False


def guard_values(B):
    vals, seen, st = set(), set(), [B]
    while st:
        t = st.pop()
        if t in seen:
            continue
        seen.add(t)
        n = _trees[t]
        if n[0] == "L":
            v = pvalue(n[1])
            vals.add(v if v is not None else F0 - 1)
        else:
            st += [n[2], n[3]]
    return vals


# ------------------------------------------------------------------ powers
EBASE = atom("e",)


def _content(p):
    """p = k * g * p'   (k rational, g monomial, p' primitive)."""
    d = _polys[p]
    ms = sorted(d)
    k = d[ms[0]]
    common = None
    for m in ms:
        mm = dict(m)
        if common is None:
            common = mm
        else:
            common = {a: min(e, mm[a]) for a, e in common.items() if a in mm and (e > 0) == (mm[a] > 0)}
            common = {a: e for a, e in common.items() if e != 0}
    # only pull positive powers (or common negative ones, with the larger one)
    g = {a: e for a, e in (common or {}).items()}
    q = {}
    for m in ms:
        mm = dict(m)
        for a, e in g.items():
            mm[a] = mm[a] - e
        mm = tuple(sorted((a, e) for a, e in mm.items() if e != 0))
        q[mm] = d[m] / k
    # clear remaining negative exponents: multiply numerator out
    low = {}
    for m in q:
        for a, e in m:
            if e < 0:
                low[a] = min(low.get(a, F0), e)
    if low:
        q2 = {}
        for m, c in q.items():
            mm = dict(m)
            for a, e in low.items():
                mm[a] = mm.get(a, F0) - e
            q2[tuple(sorted((a, e) for a, e in mm.items() if e != 0))] = c
        q = q2
        for a, e in low.items():
            g[a] = g.get(a, F0) + e
        # recompute the leading coefficient for a canonical scale
        ms2 = sorted(q)
        k2 = q[ms2[0]]
        q = {m: c / k2 for m, c in q.items()}
        k = k * k2
    return k, {a: e for a, e in g.items() if e != 0}, poly(q)


def _numpow(c, e):
    """monomial dict for c**e (c rational constant, e rational)."""
    if e.denominator == 1:
        return c ** int(e), {}
    if c == 1:
        return F1, {}
    if c > 0:
        return F1, {atom("num", c): e}
    return F1, {atom("num", c): e}


def ppow_const(p, e):
    v = pvalue(p)
    if e == 0:
        return P1
    if v is not None:
        if v == 0:
            return P0 if e > 0 else patom(atom("f", "inf"))
        c, d = _numpow(v, e)
        return poly(_mono_poly(d, c))
    d = _polys[p]
    if len(d) == 1:
        (m, c), = d.items()
        k, nd = _numpow(c, e)
        out = dict(nd)
        for a, x in m:
            if e.denominator != 1 and not nonneg_atom(a):
                if (x * e).denominator == 1 and x.denominator == 1 and x % 2 == 0:
                    # (a**2)**(1/2) = |a|
                    b = atom("f", "abs", L(patom(a)))
                    out[b] = out.get(b, F0) + x * e
                    continue
            out[a] = out.get(a, F0) + x * e
        return poly(_merge_sums(_mono_poly(out, k)))
    if e.denominator == 1 and 0 < e <= 16:
        r = P1
        for _ in range(int(e)):
            r = pmul(r, p)
        return r
    k, g, q = _content(p)
    if k < 0 and e.denominator != 1:
        k, q = -k, pscale(q, -1)
    c, nd = _numpow(k, e)
    out = dict(nd)
    for a, x in g.items():
        out[a] = out.get(a, F0) + x * e
    if len(_polys[q]) == 1:
        return poly(_merge_sums(_dmul(_mono_poly(out, c), _polys[ppow_const(q, e)])))
    b = atom("P", q)
    out[b] = out.get(b, F0) + e
    return poly(_merge_sums(_mono_poly(out, c)))


def _xp(a, mono, e):
    k = _atoms[a]
    if k[0] == "xp":
        mm = norm_mono(mono_mul(k[2], mono))
        c, m = mm
        return {atom("xp", k[1], m): e * c} if m else {k[1]: e * c}
    return {atom("xp", a, mono): e}


def ppow_sym(p, mono, k):
    """p ** (k*mono) with a symbolic exponent monomial."""
    v = pvalue(p)
    if v == 1:
        return P1
    if v == 0:
        return P0
    if v is not None:
        return patom(atom("xp", atom("num", v), mono), k)
    d = _polys[p]
    if len(d) == 1:
        (m, c), = d.items()
        out = {}
        if c != 1:
            out[atom("xp", atom("num", c), mono)] = k
        for a, e in m:
            for b, x in _xp(a, mono, e * k).items():
                out[b] = out.get(b, F0) + x
        return poly(_mono_poly(out, F1))
    kk, g, q = _content(p)
    out = {}
    if kk != 1:
        out[atom("xp", atom("num", kk), mono)] = k
    for a, e in g.items():
        for b, x in _xp(a, mono, e * k).items():
            out[b] = out.get(b, F0) + x
    out[atom("xp", atom("P", q), mono)] = k
    return poly(_mono_poly(out, F1))


def ppow(p, q):
    v = pvalue(q)
    if v is not None:
        return ppow_const(p, v)
    r = P1
    for m, c in _polys[q].items():
        if m == ():
            r = pmul(r, ppow_const(p, c))
        else:
            r = pmul(r, ppow_sym(p, m, c))
    return r


def pexp(p):
    out = {}
    for m, c in _polys[p].items():
        a = atom("xp", EBASE, m)
        out[a] = c
    return poly({tuple(sorted(out.items())): F1}) if out else P1


# -------------------------------------------------------------- comparisons
def _lit(a):
    return ite(a, T1, T0)


def tnot(t):
    return apply1("not", lambda p: L(padd(P1, pscale(p, F0 - 1))), t)


def tand(a, b):
    return tmul(a, b)


def tor(a, b):
    return tnot(tand(tnot(a), tnot(b)))


def _single_tab(p):
    """p == k*tab + c with a finite-domain table entry -> (E, k, c)."""
    d = _polys[p]
    c = d.get((), F0)
    ms = [m for m in d if m != ()]
    if len(ms) == 1 and len(ms[0]) == 1 and ms[0][0][1] == 1:
        k = _atoms[ms[0][0][0]]
        if k[0] == "x" and k[1].op == "tab" and k[1].args[0] in DOMAIN:
            return k[1], d[ms[0]], c
    return None


def _domain_test(e, pred):
    vals = DOMAIN[e.args[0]]
    hit = [v for v in vals if pred(Fraction(v))]
    if not hit:
        return T0
    if len(hit) == len(vals):
        return T1
    last = vals[-1]
    grp = _isgroup.setdefault(e.id, [])
    ids = {}
    for v in vals[:-1]:
        a = atom("is", e.id, v, e)
        if a not in grp:
            grp.append(a)
        ids[v] = a
    # disjunction over non-last values; complement if last is included
    use = hit if last not in hit else [v for v in vals if v not in hit]
    t = T0
    for v in use:
        t = tite(_lit(ids[v]), T1, t)
    return t if last not in hit else tnot(t)


def _root(p):
    """Normalise a**n - b**n (non-negative a, b) to a - b."""
    d = _polys[p]
    if len(d) != 2:
        return p
    (m1, c1), (m2, c2) = sorted(d.items())
    if c1 * c2 > 0:
        return p
    for m in (m1, m2):
        for a, e in m:
            if not nonneg_atom(a):
                return p
    es = [e for m in (m1, m2) for _, e in m]
    if not es or any(e.denominator != 1 for e in es):
        # fractional: raise to the common denominator
        return p
    g = 0
    for e in es:
        g = gcd(g, abs(int(e)))
    while g > 1:
        n = g
        r1, r2 = _iroot(abs(c1), n), _iroot(abs(c2), n)
        if r1 is None or r2 is None:
            return p
        s1 = 1 if c1 > 0 else -1
        return poly({tuple((a, e / n) for a, e in m1): s1 * r1,
                     tuple((a, e / n) for a, e in m2): -s1 * r2})
    return p


def _iroot(f, n):
    def ir(x):
        r = round(x ** (1.0 / n))
        for c in (r - 1, r, r + 1):
            if c >= 0 and c ** n == x:
                return c
        return None
    a, b = ir(f.numerator), ir(f.denominator)
    return None if a is None or b is None else Fraction(a, b)


def lt0(p):
    """tree for p < 0"""
    v = pvalue(p)
    if v is not None:
        return T1 if v < 0 else T0
    st = _single_tab(p)
    if st:
        e, k, c = st
        return _domain_test(e, lambda x: k * x + c < 0)
    if nonneg_poly(p):
        return T0
    d = _polys[p]
    if len(d) == 1:
        (m, c), = d.items()
        # strip factors that are known positive
        rest = [(a, e) for a, e in m if not (positive_atom(a))]
        if not rest:
            return T1 if c < 0 else T0
        if all(nonneg_atom(a) for a, _ in rest):
            if c > 0:
                return T0
            return tnot(eq0(poly({tuple(rest): F1})))
        rest = [(a, e) for a, e in rest]
        if len(rest) == 1 and rest[0][1] < 0:
            # sign(x**-n) == sign(x**n)
            rest = [(rest[0][0], -rest[0][1])]
        p = poly({tuple(sorted(rest)): F1 if c > 0 else -F1})
        return _lit(atom("lt0", p))
    p = _root(p)
    ms = sorted(_polys[p])
    k = abs(_polys[p][ms[0]])
    p = pscale(p, 1 / k)
    return _lit(atom("lt0", p))


def eq0(p):
    v = pvalue(p)
    if v is not None:
        return T1 if v == 0 else T0
    st = _single_tab(p)
    if st:
        e, k, c = st
        return _domain_test(e, lambda x: k * x + c == 0)
    d = _polys[p]
    if len(d) == 1:
        (m, c), = d.items()
        t = T0
        for a, e in m:
            if positive_atom(a) or e < 0:
                continue
            t = tor(t, _eqatom(a))
        return t
    p = _root(p)
    ms = sorted(_polys[p])
    p = pscale(p, 1 / _polys[p][ms[0]])
    return _lit(atom("eq0", p))


def _eqatom(a):
    st = _single_tab(patom(a))
    if st:
        e, k, c = st
        return _domain_test(e, lambda x: k * x + c == 0)
    return _lit(atom("eq0", patom(a)))


# -------------------------------------------------------------------- sums
_fv_atom: dict = {}


def afv(a) -> frozenset:
    r = _fv_atom.get(a)
    if r is None:
        k = _atoms[a]
        if k[0] == "x":
            r = X.freevars(k[1])
        elif k[0] == "is":
            r = X.freevars(k[3])
        elif k[0] in ("P", "lt0", "eq0"):
            r = pfv(k[1])
        elif k[0] == "xp":
            r = afv(k[1]) | mfv(k[2])
        elif k[0] == "eqi":
            r = X.freevars(k[1]) | X.freevars(k[2])
        elif k[0] == "f":
            r = frozenset()
            for t in k[2:]:
                if isinstance(t, int):
                    r |= tfv(t)
        elif k[0] == "b":
            r = frozenset()
            for t in k[3]:
                if isinstance(t, int):
                    r |= tfv(t)
        elif k[0] == "sum":
            r = (mfv(k[2]) | tfv(k[3])) - frozenset(sum_vars(k[1], k[2], k[3]))
        elif k[0] == "red":
            r = tfv(k[3]) - {red_var(k[2], k[4])}
        else:
            r = frozenset()
        _fv_atom[a] = r
    return r


def mfv(m):
    r = frozenset()
    for a, _ in m:
        r |= afv(a)
    return r


_fv_poly: dict = {}


def pfv(p):
    r = _fv_poly.get(p)
    if r is None:
        r = frozenset()
        for m in _polys[p]:
            r |= mfv(m)
        _fv_poly[p] = r
    return r


_fv_tree: dict = {}


def tfv(t):
    r = _fv_tree.get(t)
    if r is None:
        n = _trees[t]
        r = pfv(n[1]) if n[0] == "L" else afv(n[1]) | tfv(n[2]) | tfv(n[3])
        _fv_tree[t] = r
    return r


_lev: dict = {}


def alevel(a):
    """nesting level of bound variables inside an atom"""
    r = _lev.get(a)
    if r is None:
        k = _atoms[a]
        r = 0
        if k[0] == "sum":
            r = k[1][0]
        elif k[0] == "red":
            r = k[4]
        elif k[0] in ("P", "lt0", "eq0"):
            r = plevel(k[1])
        elif k[0] == "xp":
            r = max([alevel(k[1])] + [alevel(b) for b, _ in k[2]])
        elif k[0] == "f":
            r = max([tlevel(t) for t in k[2:] if isinstance(t, int)] + [0])
        elif k[0] == "b":
            r = max([tlevel(t) for t in k[3] if isinstance(t, int)] + [0])
        _lev[a] = r
    return r


def plevel(p):
    return max([alevel(a) for m in _polys[p] for a, _ in m] + [0])


def tlevel(t):
    n = _trees[t]
    if n[0] == "L":
        return plevel(n[1])
    k = ("t", t)
    r = _lev.get(k)
    if r is None:
        r = max(alevel(n[1]), tlevel(n[2]), tlevel(n[3]))
        _lev[k] = r
    return r


def bvar(level, i, dim):
    return X.namedvar(f"β{level}.{i}", dim)


def sum_vars(dims, mono, B):
    level = dims[0]
    return [bvar(level, i, d) for i, d in enumerate(dims[1:])]


def red_var(dim, level):
    return bvar(level, 0, dim)


def norm_guard(B):
    """scale a numeric-terminal tree so that its first nonzero terminal is 1"""
    t = B
    while True:
        n = _trees[t]
        if n[0] == "L":
            v = pvalue(n[1])
            break
        t = n[2] if n[2] != T0 else n[3]
    if v is None or v == 0:
        return F1, B
    return v, tscale(B, 1 / v)


def split_monos(t):
    """tree -> dict monomial -> numeric tree"""
    ms = set()
    seen, st = set(), [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        n = _trees[x]
        if n[0] == "L":
            ms |= set(_polys[n[1]])
        else:
            st += [n[2], n[3]]
    out = {}
    for m in sorted(ms):
        out[m] = apply1(("coef", m), lambda p, m=m: L(pconst(_polys[p].get(m, F0))), t)
    return out


def cube(B):
    """literals [(atom, val)] and value if B is a single path, else None"""
    lits = []
    t = B
    while True:
        n = _trees[t]
        if n[0] == "L":
            return lits, pvalue(n[1])
        if n[2] == T0:
            lits.append((n[1], False))
            t = n[3]
        elif n[3] == T0:
            lits.append((n[1], True))
            t = n[2]
        else:
            return None


def tsum(v, t):
    """Sum over index variable v of tree t -> tree"""
    if t == T0:
        return T0
    # pull out guards that do not depend on v
    for a in sorted(tatoms(t)):
        if v not in afv(a):
            return ite_any(a, tsum(v, restrict(t, a, True)), tsum(v, restrict(t, a, False)))
    tot = T0
    for m, B in split_monos(t).items():
        tot = tadd(tot, make_sum_term([v], m, B))
    return tot


def make_sum_term(vs, m, B):
    """tree for  sum_{vs} m*B  (m monomial, B numeric-terminal tree)"""
    _tick()
    # flatten inner sums that depend on the summation variables
    vs = list(vs)
    mono = dict(m)
    changed = True
    while changed:
        changed = False
        for a in sorted(mono):
            e = mono[a]
            k = _atoms[a]
            if k[0] == "sum" and e == 1 and (afv(a) & frozenset(vs)):
                del mono[a]
                inner = sum_vars(k[1], k[2], k[3])
                fresh = [X.var(w.args[1], "f") for w in inner]
                mp = dict(zip(inner, fresh))
                im, ic = msub(k[2], mp)
                B = tscale(tmul(B, tsub(k[3], mp)), ic)
                for b, x in im:
                    mono[b] = mono.get(b, F0) + x
                vs += fresh
                changed = True
                break
    r = norm_mono(mono)
    if r is None:
        # expand
        tot = T0
        for mm, c in _mono_poly(mono, F1).items():
            tot = tadd(tot, tscale(make_sum_term(vs, mm, B), c))
        return tot
    c0, m = r
    B = tscale(B, c0)
    if B == T0:
        return T0
    # guards independent of all variables
    V = frozenset(vs)
    for a in sorted(tatoms(B)):
        if not (afv(a) & V):
            return ite_any(a, make_sum_term(vs, m, restrict(B, a, True)),
                           make_sum_term(vs, m, restrict(B, a, False)))
    # Kronecker deltas:  v == w
    for a in sorted(tatoms(B)):
        k = _atoms[a]
        if k[0] == "eqi":
            for v, w in ((k[1], k[2]), (k[2], k[1])):
                if v in V:
                    B1 = restrict(B, a, True)
                    if B1 == T0:
                        break
                    B0 = restrict(B, a, False)
                    hit = tmul(tsub(L(poly({m: F1})), {v: w}), tsub(B1, {v: w}))
                    rest = [u for u in vs if u is not v]
                    part = tsum_many(rest, hit)
                    other = make_sum_term(vs, m, ite_any(a, T0, B0))
                    return tadd(part, other)
    outm = [(a, e) for a, e in m if not (afv(a) & V)]
    inm = [(a, e) for a, e in m if afv(a) & V]
    # connected components of variables
    groups = [set([v]) for v in vs]

    def link(s):
        s = set(s) & set(vs)
        if len(s) < 2:
            return
        hit = [g for g in groups if g & s]
        new = set().union(*hit)
        for g in hit:
            groups.remove(g)
        groups.append(new)
    for a, _ in inm:
        link(afv(a))
    cu = cube(B)
    if cu is not None:
        for a, _ in cu[0]:
            link(afv(a))
    else:
        link(tfv(B))
    tot = L(poly({tuple(sorted(outm)): F1}))
    if cu is not None:
        tot = tscale(tot, cu[1])
    for g in groups:
        gm = tuple(sorted((a, e) for a, e in inm if afv(a) & frozenset(g)))
        if cu is not None:
            gb = T1
            for a, val in cu[0]:
                if afv(a) & frozenset(g):
                    gb = tmul(gb, ite(a, T1, T0) if val else ite(a, T0, T1))
        else:
            gb = B if tfv(B) & frozenset(g) else T1
        if not gm and gb == T1:
            for v in g:
                tot = tmul(tot, L(dimpoly(v.args[1])))
            continue
        tot = tmul(tot, _sum_component(sorted(g), gm, gb))
    return tot


def tsum_many(vs, t):
    for v in vs:
        t = tsum(v, t)
    return t


def dimpoly(d):
    return pconst(d) if isinstance(d, int) else patom(atom("x", X.dimsize(d)))


_comp_memo: dict = {}


def _sum_component(vs, m, B):
    key = (tuple(v.id for v in vs), m, B)
    r = _comp_memo.get(key)
    if r is not None:
        return r
    # squared distances:  sum_x (p_i[x]-p_j[x])**2 is handled at poly level
    k, B = norm_guard(B)
    level = 1 + max([alevel(a) for a, _ in m] + [tlevel(B)])
    bydim = {}
    for v in vs:
        bydim.setdefault(str(v.args[1]), []).append(v)
    order = []
    groups = [bydim[d] for d in sorted(bydim)]
    best = None

    def rec(i, acc):
        nonlocal best
        if i == len(groups):
            dims = (level,) + tuple(v.args[1] for v in acc)
            mp = {v: bvar(level, n, v.args[1]) for n, v in enumerate(acc)}
            mm, cc = msub(m, mp)
            bb = tsub(B, mp)
            cand = (mm, bb, dims, cc)
            if best is None or cand[:2] < best[:2]:
                best = cand
            return
        for perm in permutations(groups[i]):
            rec(i + 1, acc + list(perm))
    rec(0, [])
    mm, bb, dims, cc = best
    a = atom("sum", dims, mm, bb)
    r = L(poly({((a, F1),): k * cc}))
    _comp_memo[key] = r
    return r


# ------------------------------------------------------------ substitution
_sub_memo: dict = {}


def asub(a, mp):
    """substitute index variables in an atom -> tree (value of the atom)"""
    if not (afv(a) & frozenset(mp)):
        return L(patom(a)) if not _isbool(a) else _lit(a)
    key = (a, tuple(sorted((k.id, v.id) for k, v in mp.items() if k in afv(a))))
    r = _sub_memo.get(key)
    if r is not None:
        return r
    k = _atoms[a]
    if k[0] == "x":
        r = canon(X.subst(k[1], mp))
    elif k[0] == "is":
        r = _domain_test(X.subst(k[3], mp), lambda x: x == k[2])
    elif k[0] == "P":
        r = tsub(L(k[1]), mp)
    elif k[0] == "lt0":
        r = apply1("lt0", lt0, tsub(L(k[1]), mp))
    elif k[0] == "eq0":
        r = apply1("eq0", eq0, tsub(L(k[1]), mp))
    elif k[0] == "xp":
        mt = tsub(L(poly({k[2]: F1})), mp)
        if k[1] == EBASE:
            r = apply1("exp", lambda p: L(pexp(p)), mt)
        else:
            r = tpow(asub(k[1], mp), mt)
    elif k[0] == "eqi":
        i, j = mp.get(k[1], k[1]), mp.get(k[2], k[2])
        r = canon(X.eqi(i, j))
    elif k[0] == "f":
        r = tfun(k[1], *[tsub(t, mp) if isinstance(t, int) else t for t in k[2:]])
    elif k[0] == "b":
        r = tbfun(k[2], *[tsub(t, mp) if isinstance(t, int) else t for t in k[3]])
    elif k[0] == "sum":
        inner = sum_vars(k[1], k[2], k[3])
        fresh = [X.var(w.args[1], "g") for w in inner]
        m2 = {kk: vv for kk, vv in mp.items() if kk not in inner}
        m2.update(dict(zip(inner, fresh)))
        mm = tsub(L(poly({k[2]: F1})), m2)
        r = tsum_many(fresh, tmul(mm, tsub(k[3], m2)))
    elif k[0] == "red":
        w = red_var(k[2], k[4])
        f = X.var(k[2], "g")
        m2 = {kk: vv for kk, vv in mp.items() if kk is not w}
        m2[w] = f
        r = tred(k[1], f, tsub(k[3], m2))
    else:
        r = L(patom(a))
    _sub_memo[key] = r
    return r


def _isbool(a):
    return _atoms[a][0] in ("lt0", "eq0", "is", "eqi", "b")


def msub(m, mp):
    """substitute in a monomial that stays a monomial -> (mono, coef)"""
    t = tsub(L(poly({m: F1})), mp)
    if not isleaf(t):
        raise TooBig("monomial became conditional")
    d = _polys[leafpoly(t)]
    if len(d) == 0:
        return (), F0
    if len(d) != 1:
        raise TooBig("monomial split")
    (mm, c), = d.items()
    return mm, c


def tsub(t, mp):
    if not (tfv(t) & frozenset(mp)):
        return t
    key = ("t", t, tuple(sorted((k.id, v.id) for k, v in mp.items())))
    r = _sub_memo.get(key)
    if r is not None:
        return r
    n = _trees[t]
    if n[0] == "L":
        r = T0
        for m, c in _polys[n[1]].items():
            x = tconst(c)
            for a, e in m:
                if afv(a) & frozenset(mp):
                    x = tmul(x, tpow(asub(a, mp), tconst(e)))
                else:
                    x = tmul(x, L(patom(a, e)))
            r = tadd(r, x)
    else:
        c = asub(n[1], mp)
        r = tite(c, tsub(n[2], mp), tsub(n[3], mp))
    _sub_memo[key] = r
    return r


def tpow(a, b):
    return apply2("pow", lambda p, q: L(ppow(p, q)), a, b)


def tred(kind, v, t):
    if v not in tfv(t) and kind in ("max", "min", "any", "all"):
        return t
    for a in sorted(tatoms(t)):
        if v not in afv(a):
            return ite_any(a, tred(kind, v, restrict(t, a, True)), tred(kind, v, restrict(t, a, False)))
    lev = 1 + tlevel(t)
    w = red_var(v.args[1], lev)
    a = atom("red", kind, v.args[1], tsub(t, {v: w}), lev)
    return L(patom(a))


def tfun(name, *ts):
    """uninterpreted function of trees, distributed over decisions"""
    ts = list(ts)
    for i, t in enumerate(ts):
        if isinstance(t, int) and not isleaf(t):
            n = _trees[t]
            return ite_any(n[1], tfun(name, *[restrict(x, n[1], True) if isinstance(x, int) else x for x in ts]),
                           tfun(name, *[restrict(x, n[1], False) if isinstance(x, int) else x for x in ts]))
    if name == "abs":
        p = leafpoly(ts[0])
        v = pvalue(p)
        if v is not None:
            return tconst(abs(v))
        if nonneg_poly(p):
            return ts[0]
        d = _polys[p]
        if len(d) == 1:
            (m, c), = d.items()
            pos = [(a, e) for a, e in m if nonneg_atom(a) or (e.denominator == 1 and e % 2 == 0)]
            rest = tuple((a, e) for a, e in m if (a, e) not in pos)
            r = tconst(abs(c))
            for a, e in pos:
                r = tmul(r, L(patom(a, e)))
            if rest:
                # |x*y| = |x|*|y|
                for a, e in rest:
                    r = tmul(r, L(patom(atom("f", "abs", L(patom(a))), e)))
            return r
        k = sorted(d)[0]
        if d[k] < 0:
            ts[0] = L(pscale(p, F0 - 1))
    if name in ("maximum", "minimum"):
        vs = [pvalue(leafpoly(t)) for t in ts]
        if all(v is not None for v in vs):
            return tconst(max(vs) if name == "maximum" else min(vs))
        ts = sorted(set(ts))
        if len(ts) == 1:
            return ts[0]
        if name == "maximum" and len(ts) == 2:
            # max(x, c) with x known non-negative and c <= 0
            for i in (0, 1):
                v = pvalue(leafpoly(ts[i]))
                if v is not None and v <= 0 and nonneg_poly(leafpoly(ts[1 - i])):
                    return ts[1 - i]
    if name == "log":
        v = pvalue(leafpoly(ts[0]))
        if v == 1:
            return T0
    return L(patom(atom("f", name, *ts)))


def tbfun(name, *ts):
    ts = list(ts)
    for i, t in enumerate(ts):
        if isinstance(t, int) and not isleaf(t):
            n = _trees[t]
            return ite_any(n[1], tbfun(name, *[restrict(x, n[1], True) if isinstance(x, int) else x for x in ts]),
                           tbfun(name, *[restrict(x, n[1], False) if isinstance(x, int) else x for x in ts]))
    if name in ("isnan", "isinf"):
        if pvalue(leafpoly(ts[0])) is not None:
            return T0
    return _lit(atom("b", "f", name, tuple(ts)))


# -------------------------------------------------------------- main entry
_memo: dict = {}


def canon(e: E) -> int:
    r = _memo.get(e.id)
    if r is not None:
        return r
    r = _canon(e)
    _memo[e.id] = r
    return r


def _canon(e):
    _tick()
    op, a = e.op, e.args
    if op == "num":
        return tconst(a[0])
    if op == "bool":
        return T1 if a[0] else T0
    if op == "add":
        r = T0
        for x in a:
            r = tadd(r, canon(x))
        return _possum(r)
    if op == "mul":
        r = T1
        for x in sorted(a, key=lambda x: len(tatoms(canon(x)))):
            r = tmul(r, canon(x))
        return r
    if op in ("div", "sdiv"):
        return tmul(canon(a[0]), tpow(canon(a[1]), tconst(-1)))
    if op == "pow":
        return tpow(canon(a[0]), canon(a[1]))
    if op == "ssqrt":
        return tpow(canon(a[0]), tconst(Fraction(1, 2)))
    if op == "exp":
        return apply1("exp", lambda p: L(pexp(p)), canon(a[0]))
    if op in ("where", "phi"):
        return tite(canon_b(a[0]), canon(a[1]), canon(a[2]))
    if op in ("not", "and", "eq", "lt", "eqi", "isnan", "isinf", "bfn"):
        return canon_b(e)
    if op == "red":
        kind, v, body = a
        if kind == "sum":
            return _possum(tsum(v, canon(body)))
        if kind in ("any", "all"):
            return tred(kind, v, canon_b(body))
        return tred(kind, v, canon(body))
    if op == "spow":
        return tpow(canon(a[0]), canon(a[1]))
    if op == "fn":
        if a[0] in ("cut", "rnd"):
            return canon(a[1])
        return tfun(a[0], *[canon(x) if isinstance(x, E) else ("k", x) for x in a[1:]])
    if op in ("leaf", "tab", "dim", "eps", "fmax", "var", "fmin", "ftiny"):
        if op in ("leaf", "tab"):
            # normalise index terms
            idx = []
            for x in a[1:]:
                if isinstance(x, E) and x.op not in ("var", "num", "leaf", "tab"):
                    t = canon(x)
                    idx.append(_decanon_index(t, x))
                else:
                    idx.append(x)
            e = X.rebuild(e, [a[0]] + idx) if a[1:] else e
        return L(patom(atom("x", e)))
    return L(patom(atom("x", e)))


def _decanon_index(t, x):
    return x


def canon_b(e) -> int:
    op, a = e.op, e.args
    if op == "bool":
        return T1 if a[0] else T0
    k = ("b", e.id)
    r = _memo.get(k)
    if r is not None:
        return r
    if op == "not":
        r = tnot(canon_b(a[0]))
    elif op == "and":
        r = T1
        for x in a:
            r = tmul(r, canon_b(x))
    elif op == "eq":
        r = apply1("eq0", eq0, tadd(canon(a[0]), tneg(canon(a[1]))))
    elif op == "lt":
        r = apply1("lt0", lt0, tadd(canon(a[0]), tneg(canon(a[1]))))
    elif op == "eqi":
        r = _lit(atom("eqi", a[0], a[1]))
    elif op == "isnan" or op == "isinf":
        r = tbfun(op, canon(a[0]))
    elif op == "bfn":
        r = tbfun(a[0], *[canon(x) if isinstance(x, E) else ("k", x) for x in a[1:]])
    elif op in ("where", "phi"):
        r = tite(canon_b(a[0]), canon_b(a[1]), canon_b(a[2]))
    elif op == "num":
        r = T1 if a[0] != 0 else T0
    elif op == "red" and a[0] in ("any", "all"):
        t = canon(e)
        r = t if not isleaf(t) or pvalue(leafpoly(t)) in (0, 1) else tnot(apply1("eq0", eq0, t))
    else:
        r = tnot(apply1("eq0", eq0, canon(e)))
    _memo[k] = r
    return r


# recognise squared distances ------------------------------------------------
def _possum(t):
    return apply1("possum", lambda p: L(_possum_poly(p)), t)


def _possum_poly(p):
    """Replace  G(i,i) - 2 G(i,j) + G(j,j)  (Gram entries of positions) by d_ij**2."""
    d = _polys[p]
    gram = {}
    for m in d:
        r = _sumatom(m)
        if not r:
            continue
        rest, a = r
        _, dims, mono, B = _atoms[a]
        if B != T1 or len(dims) != 2:
            continue
        ij = _gram(mono)
        if ij:
            gram.setdefault(rest, {})[ij] = (m, d[m])
    if not gram:
        return p
    out = dict(d)
    changed = False
    for rest, g in gram.items():
        for (x, y), (m, c) in list(g.items()):
            if x is y or x == y:
                continue
            kx, ky = (x, x), (y, y)
            if kx in g and ky in g:
                c2 = -c / 2
                mx, cx = g[kx]
                my, cy = g[ky]
                if out.get(mx) == c2 and out.get(my) == c2 and m in out:
                    for z in (m, mx, my):
                        out.pop(z, None)
                    da = atom("x", X.leaf_norm(["dist"] + _dist_idx(x, y)))
                    mm = tuple(sorted(rest + ((da, Fraction(2)),)))
                    out[mm] = out.get(mm, F0) + c2
                    changed = True
    return poly(out) if changed else p


def _gram(mono):
    """monomial p[b,i,x]*p[b,j,x] -> ((b..,i),(b..,j))"""
    ps = []
    for a, e in mono:
        k = _atoms[a]
        if k[0] != "x" or k[1].op != "leaf" or k[1].args[0] != "positions":
            return None
        if e not in (1, 2):
            return None
        ps += [k[1].args[1:-1]] * int(e)
    if len(ps) != 2:
        return None
    return tuple(sorted(ps, key=lambda t: [z.id for z in t]))


def _dist_idx(x, y):
    return list(x[:-1]) + [x[-1], y[-1]]


# ---------------------------------------------------------------- equality
def same(e1, e2) -> bool:
    t1, t2 = canon(e1), canon(e2)
    if t1 == t2:
        return True
    return iszero(tadd(t1, tneg(t2)))


_iz_memo: dict = {}


def iszero(t) -> bool:
    """identically zero, clearing denominators of sums if necessary"""
    n = _trees[t]
    if n[0] == "I":
        return iszero(n[2]) and iszero(n[3])
    p = n[1]
    if p == P0:
        return True
    r = _iz_memo.get(p)
    if r is None:
        r = _pzero(p)
        _iz_memo[p] = r
    return r


def _pzero(p, depth=0):
    d = _polys[p]
    if not d:
        return True
    if _close0(d):
        return True
    if depth > 6:
        return False
    # multiply by denominators (atoms of kind P with negative exponents)
    low = {}
    for m in d:
        for a, e in m:
            if _atoms[a][0] == "P" and e < 0:
                low[a] = min(low.get(a, F0), e)
    if not low:
        return False
    a = sorted(low)[0]
    if low[a].denominator != 1:
        return False
    out = {}
    for m, c in d.items():
        mm = dict(m)
        mm[a] = mm.get(a, F0) - low[a]
        for m2, c2 in _mono_poly(mm, c).items():
            out[m2] = out.get(m2, F0) + c2
    return _pzero(poly({m: c for m, c in out.items() if c != 0}), depth + 1)


def _close0(d):
    """all coefficients are rounding noise of decimal literals"""
    return all(abs(c) < Fraction(1, 10**13) for c in d.values())


# ------------------------------------------------------------------ display
def show_atom(a, depth=4):
    k = _atoms[a]
    if depth <= 0:
        return "…"
    if k[0] == "x":
        return X.show(k[1], 4)
    if k[0] == "num":
        return str(k[1])
    if k[0] == "P":
        return "(" + show_poly(k[1], depth - 1) + ")"
    if k[0] == "xp":
        b = "e" if k[1] == EBASE else show_atom(k[1], depth - 1)
        return f"{b}^({show_mono(k[2], depth - 1)})"
    if k[0] == "f":
        return f"{k[1]}({', '.join(show_tree(t, depth - 1) if isinstance(t, int) else str(t) for t in k[2:])})"
    if k[0] == "lt0":
        return f"[{show_poly(k[1], depth - 1)} < 0]"
    if k[0] == "eq0":
        return f"[{show_poly(k[1], depth - 1)} == 0]"
    if k[0] == "is":
        return f"[{X.show(k[3], 4)} == {k[2]}]"
    if k[0] == "eqi":
        return f"[{X.show(k[1])} is {X.show(k[2])}]"
    if k[0] == "sum":
        g = "" if k[3] == T1 else " if " + show_tree(k[3], depth - 1)
        return f"Σ_{{{','.join(v.args[0] + ':' + str(v.args[1]) for v in sum_vars(k[1], k[2], k[3]))}}}({show_mono(k[2], depth - 1)}{g})"
    if k[0] == "b":
        return f"{k[2]}({', '.join(show_tree(t, depth - 1) if isinstance(t, int) else str(t) for t in k[3])})"
    if k[0] == "red":
        return f"{k[1]}_{k[2]}({show_tree(k[3], depth - 1)})"
    return str(k)


def show_mono(m, depth=4):
    if not m:
        return "1"
    return "*".join(show_atom(a, depth) + ("" if e == 1 else f"^{e}") for a, e in m)


def show_poly(p, depth=4):
    d = _polys[p]
    if not d:
        return "0"
    out = []
    for m, c in list(d.items())[:8]:
        cs = str(c) if c.denominator < 10**4 else "%.10g" % float(c)
        out.append(cs if not m else (show_mono(m, depth) if c == 1 else cs + "*" + show_mono(m, depth)))
    return " + ".join(out) + (" + …" if len(d) > 8 else "")


def show_tree(t, depth=4):
    n = _trees[t]
    if n[0] == "L":
        return show_poly(n[1], depth)
    if depth <= 0:
        return "…"
    return f"{{{show_atom(n[1], depth - 1)} ? {show_tree(n[2], depth - 1)} : {show_tree(n[3], depth - 1)}}}"


def diff_paths(e1, e2, limit=3):
    """Human-readable description of where two canonical forms differ."""
    out = []

    def go(t, path):
        if len(out) >= limit or iszero(t):
            return
        n = _trees[t]
        if n[0] == "L":
            out.append((" & ".join(path) or "always", show_poly(n[1], 5)))
            return
        go(n[2], path + [show_atom(n[1], 3)])
        go(n[3], path + ["not " + show_atom(n[1], 3)])
    go(tadd(canon(e1), tneg(canon(e2))), [])
    return out
