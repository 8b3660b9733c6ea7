"""Sign analysis of value graphs (abstract domain: subsets of {-,0,+}).

``Sign(facts)`` computes, bottom up, which signs a node can have; conditions of
``where`` become facts inside its branches (path-sensitive).  The analysis is
exact real arithmetic over the declared ranges of the leaves (``RANGES``), not
floating point; it never evaluates the program.
"""
from __future__ import annotations

from . import expr as X
from .rand import base, INT_LEAVES

N, Z, P = 1, 2, 4
ANY = 7
NN = Z | P          # non-negative

# declared ranges of continuous inputs (admissible values)
POSITIVE = {"r4r2", "rvdw", "rcov", "cutoff", "a1", "a2", "alp", "wf", "rs6", "rs8", "rs9", "disp2", "disp3", "cn_eeq",
            "radii", "gc", "ga"}
NONNEG = {"s6", "s8", "s9", "s10", "bet", "cn", "c6", "c9", "rc6", "pol", "gw"}
# zero for padding atoms
PADZERO = {"r4r2", "rvdw", "rcov", "radii", "cn", "c6", "c9"}
CALLS = {"c6": NN, "pol": NN, "gw": NN, "cn_d4": NN, "cn_d3": NN, "cn_eeq": NN}


def mulsign(a, b):
    r = 0
    if (a & Z) or (b & Z):
        r |= Z
    if (a & P and b & P) or (a & N and b & N):
        r |= P
    if (a & P and b & N) or (a & N and b & P):
        r |= N
    return r


def addsign(a, b):
    r = 0
    for x in (N, Z, P):
        for y in (N, Z, P):
            if a & x and b & y:
                if x == y or y == Z:
                    r |= x
                elif x == Z:
                    r |= y
                else:
                    r |= ANY
    return r


class Facts:
    __slots__ = ("d", "key")

    def __init__(self, d=None):
        self.d = dict(d or {})
        self.key = frozenset(self.d.items())

    def get(self, c):
        v = self.d.get(c.id)
        if v is not None:
            return v
        if c.op == "not":
            v = self.get(c.args[0])
            return None if v is None else not v
        if c.op == "and":
            vs = [self.get(a) for a in c.args]
            if any(v is False for v in vs):
                return False
            if all(v is True for v in vs):
                return True
        if c.op == "bool":
            return c.args[0]
        return None

    def given(self, c, val, nodes):
        d = dict(self.d)
        _put(d, c, val, nodes)
        return Facts(d)


def _put(d, c, val, nodes):
    nodes[c.id] = c
    if c.op == "not":
        _put(d, c.args[0], not val, nodes)
        return
    if c.op == "mul" and val and X.isboolish(c):
        for a in c.args:
            _put(d, a, True, nodes)
    if c.op == "and" and val:
        for a in c.args:
            _put(d, a, True, nodes)
    d[c.id] = val


class Sign:
    def __init__(self, ranges=None, strict_zero=True):
        self.memo = {}
        self.nodes = {}
        self.ranges = ranges or {}
        self.tabmemo = {}
        self.assumed = set()

    # ------------------------------------------------------------- leaves
    def isreal(self, f, num):
        """atomic-number node is known to be non-zero"""
        return self.of(num, f) & Z == 0

    def atoms_real(self, f, lead, idx):
        return all(f.get(X.eq(X.ZERO, X.leaf("numbers", *lead, i))) is False for i in idx)

    def leaf(self, e, f):
        nm = e.args[0]
        b = base(nm)
        idx = e.args[1:]
        if b in self.ranges:
            return self.ranges[b]
        if b in INT_LEAVES:
            z = f.get(X.eq(X.ZERO, e))
            return P if z is False else Z if z is True else NN
        if b == "dist":
            *pre, i, j = idx
            if i is j:
                return Z
            lead = [p for p in pre if not (p.op == "leaf" and base(p.args[0]) == "positions")]
            if f.get(X.eqi(i, j)) is False and self.atoms_real(f, lead, (i, j)):
                return P
            return NN
        if b in PADZERO and idx:
            n = {"rvdw": 2, "radii": 2, "c6": 2, "c9": 3}.get(b, 1)
            at, lead = idx[-n:], idx[:-n]
            if b in POSITIVE and self.atoms_real(f, lead, at):
                return P
            return NN
        if b in POSITIVE:
            return P
        if b in NONNEG:
            return NN
        return ANY

    def tabrange(self, name, nz):
        """signs of the entries of a literal table; nz: leading indices known non-zero (per position)"""
        k = (name, nz)
        r = self.tabmemo.get(k)
        if r is None:
            t = X.TABLES.get(name)
            r = 0
            if isinstance(t, (list, tuple)):
                r = _scan(t, nz, 0)
            elif name == "VDW_PAIRWISE":
                r = P if all(nz) else NN
            elif name in ("GAM", "ZEFF", "R4R2", "COV_D3"):
                r = P if nz and nz[0] else NN
            else:
                r = ANY
            if not isinstance(t, (list, tuple)):
                self.assumed.add(f"table {name} positive for elements")
            self.tabmemo[k] = r
        return r

    # --------------------------------------------------------------- nodes
    def of(self, e, f=None):
        f = f or Facts()
        # only facts matter whose nodes share variables; keep the full key (small)
        k = (e.id, f.key)
        r = self.memo.get(k)
        if r is None:
            self.memo[k] = ANY          # cycles cannot occur; guards re-entry
            r = self._of(e, f)
            r &= self.fact_sign(e, f)
            self.memo[k] = r
        return r

    def fact_sign(self, e, f):
        r = ANY
        for cid, val in f.d.items():
            c = self.nodes.get(cid)
            if c is None:
                continue
            if c.op == "lt":
                a, b = c.args
                if b is e and val:            # a < e
                    va = X.numval(a)
                    if va is not None and va >= 0 or va is None and self._const(a) & N == 0:
                        r &= P
                if a is e and val:
                    vb = X.numval(b)
                    if vb is not None and vb <= 0:
                        r &= N
                if b is e and not val:        # e <= a
                    va = X.numval(a)
                    if va is not None and va <= 0:
                        r &= (N | Z) if va == 0 else N
                if a is e and not val:        # e >= b
                    vb = X.numval(b)
                    if vb is not None and vb >= 0:
                        r &= NN if vb == 0 else P
            elif c.op == "eq":
                a, b = c.args
                for x, y in ((a, b), (b, a)):
                    if y is e and X.numval(x) is not None:
                        v = X.numval(x)
                        s = P if v > 0 else N if v < 0 else Z
                        if val:
                            r &= s
                        elif v == 0:
                            r &= ~Z & 7
        return r

    def _const(self, a):
        return ANY

    def _of(self, e, f):
        op, a = e.op, e.args
        v = X.numval(e)
        if v is not None:
            return P if v > 0 else N if v < 0 else Z
        if op == "leaf":
            return self.leaf(e, f)
        if op == "tab":
            return self.tabrange(a[0], tuple(self.of(i, f) & Z == 0 for i in a[1:]))
        if op == "var":
            return NN
        if op == "ival":
            return self.of(a[0], f)
        if op == "dim":
            return P
        if op in ("eps", "fmax", "ftiny"):
            return P
        if op == "fmin":
            return N
        if op == "add":
            # x - x*... is not tracked; squares are handled by mul
            r = Z
            for x in a:
                r = addsign(r, self.of(x, f))
            return r
        if op == "mul":
            r = P
            cnt = {}
            for x in a:
                cnt[x.id] = cnt.get(x.id, 0) + 1
            for x in a:
                n = cnt.pop(x.id, 0)
                if not n:
                    continue
                s = self.of(x, f)
                if n % 2 == 0:
                    s = (P if s & (P | N) else 0) | (s & Z)
                r = mulsign(r, s)
            return r
        if op in ("div", "sdiv"):
            d = self.of(a[1], f)
            if op == "sdiv" and d & Z:
                d = (d & ~Z & 7) | P
            elif d & Z:
                d = d | ANY if d & N else d
            return mulsign(self.of(a[0], f), d & ~Z & 7 or ANY)
        if op == "pow":
            b = self.of(a[0], f)
            ex = X.numval(a[1])
            if ex is not None and ex.denominator == 1 and ex % 2 == 0:
                return (P if b & (P | N) else 0) | (b & Z)
            if ex is not None and ex.denominator == 1:
                return b
            if b == P:
                return P
            if b & N == 0:
                # zero base with a possibly zero exponent gives one
                return NN
            return ANY
        if op in ("ssqrt", "spow"):
            return P
        if op == "exp":
            return P
        if op == "fn":
            n = a[0]
            if n == "abs":
                s = self.of(a[1], f)
                return (P if s & (P | N) else 0) | (s & Z)
            if n in ("cut", "rnd", "tanh", "erf", "sign"):
                return self.of(a[1], f)
            if n == "maximum":
                x, y = self.of(a[1], f), self.of(a[2], f)
                if x == P or y == P:
                    return P
                if not (x & N) or not (y & N):
                    return NN
                return ANY
            if n == "minimum":
                x, y = self.of(a[1], f), self.of(a[2], f)
                if x == P and y == P:
                    return P
                if not (x & N) and not (y & N):
                    return NN
                return ANY
            if n in ("argmax", "argmin", "sigmoid"):
                return NN
            return ANY
        if op in ("where", "phi"):
            c = f.get(a[0])
            if c is None:
                c = self.decide(a[0], f)
            if c is True:
                return self.of(a[1], f)
            if c is False:
                return self.of(a[2], f)
            return self.of(a[1], f.given(a[0], True, self.nodes)) | self.of(a[2], f.given(a[0], False, self.nodes))
        if op == "red":
            kind, w, body = a
            s = self.of(body, f)
            if kind in ("max", "min"):
                return s
            if kind == "sum":
                if not (s & N):
                    if s == P:
                        return P
                    return P if self.some_positive(w, body, f) else NN
                if not (s & P):
                    return s
                return ANY
            if kind == "prod":
                return P if s == P else NN if not s & N else ANY
            return NN
        if op == "call":
            return CALLS.get(a[0], ANY)
        if op in ("not", "and", "eq", "lt", "eqi", "isnan", "isinf", "bfn"):
            return NN
        return ANY

    def some_positive(self, w, body, f):
        """an instance of a non-negative summand is known to be positive"""
        cand = []
        for cid in f.d:
            c = self.nodes.get(cid)
            if c is None:
                continue
            for x in X.freevars(c):
                if x.args[1] == w.args[1] and x not in cand:
                    cand.append(x)
        for t in cand[:6]:
            if self.of(X.subst(body, {w: t}), f) == P:
                return True
        return False

    def decide(self, c, f):
        """truth of a condition from signs"""
        if c.op == "not":
            r = self.decide(c.args[0], f)
            return None if r is None else not r
        if c.op == "and":
            rs = [f.get(a) if f.get(a) is not None else self.decide(a, f) for a in c.args]
            if any(r is False for r in rs):
                return False
            return True if all(rs) and None not in rs else None
        if c.op == "lt":
            x, y = c.args
            d = None
            if X.isnum(x, 0):
                s = self.of(y, f)
                d = True if s == P else False if not s & P else None
            elif X.isnum(y, 0):
                s = self.of(x, f)
                d = True if s == N else False if not s & N else None
            return d
        if c.op == "eq":
            x, y = c.args
            z = y if X.isnum(x, 0) else x if X.isnum(y, 0) else None
            if z is not None:
                s = self.of(z, f)
                return False if not s & Z else True if s == Z else None
        if c.op == "isnan":
            return None
        return None


def _scan(t, nz, depth):
    if not isinstance(t, (list, tuple)):
        v = float(t)
        return P if v > 0 else N if v < 0 else Z if v == 0 else ANY
    r = 0
    for k, x in enumerate(t):
        if k == 0 and depth < len(nz) and nz[depth]:
            continue
        r |= _scan(x, nz, depth + 1)
        if r == ANY:
            break
    return r
