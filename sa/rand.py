"""Random interpretation of value graphs (second opinion on a difference).

Two canonical forms that differ may still denote the same function, because
the algebraic normal form is incomplete.  Before a difference is reported, both
graphs are interpreted under pseudo-random valuations of their leaves (Gulwani
and Necula's random interpretation); a difference that no valuation exhibits is
recorded as undecided, not as a violation.  This only ever removes reports.
"""
from __future__ import annotations

import hashlib
import math
import random
import time

from . import expr as X
from .expr import E


class Undecidable(Exception):
    pass


def _h(*key):
    return int.from_bytes(hashlib.sha1(repr(key).encode()).digest()[:7], "big")


INT_LEAVES = ("numbers",)
POS_LEAVES = ("dist", "r4r2", "rvdw", "rcov", "cutoff", "a1", "a2", "alp", "wf", "rs6", "rs8", "rs9", "s6", "s8", "s9",
              "s10", "bet", "disp2", "disp3", "cn", "cn_eeq", "rc6", "ga", "gc", "c6", "c9", "radii")
SIGNED = ("s6", "s8", "s9", "s10")       # published scaling parameters include negative ones
ELEMENTS = (0, 1, 1, 6, 8, 2, 14, 26, 0)


def base(name):
    n = str(name)
    for c in "~#":
        n = n.split(c)[0]
    return n


class Val:
    """one valuation"""

    def __init__(self, seed, dims=None, pool=(), special=True):
        self.seed = seed
        r = random.Random(seed)
        self.dims = {"N": r.choice((2, 3, 3, 4, 1, 3)), "B": r.choice((2, 2, 3, 1))}
        for d, ks in getattr(pool, "dims", {}).items():
            if r.random() < 0.7:
                self.dims[d] = r.choice(ks)
        if dims:
            self.dims.update(dims)
        self.pool = tuple(pool)
        self.ipool = tuple(int(k + d) for k in pool for d in (-1, 0, 1) if k == int(k) and 0 < k + d < 104)
        self.coarse = special and seed % 3 == 0
        self.lpool = getattr(pool, "leaves", {}) if special else {}
        self.cuts = getattr(pool, "cuts", ()) if special else ()
        # coordination numbers far from every reference: all Gaussians vanish
        self.extreme = special and seed % 5 == 2
        self.scale = 1.0
        if special and self.pool and seed % 4 == 1:
            k = abs(r.choice(self.pool))
            self.scale = max(1.0, (k if k < 200 else math.sqrt(k)) / r.choice((1.0, 2.0)))
        elif special and seed % 4 in (0, 3):
            self.scale = 4.0        # molecular distances: three-body terms are not damped away
        # molecules without padding, and batches of isomers
        self.real = special and _h(seed, "real") % 2 == 0
        # elements of the whole table
        self.anyz = special and (seed % 4 == 2 or self.extreme)
        self.isomers = special and seed % 7 in (3, 5)
        # coordination numbers and charges around the constants they are compared with
        self.cscale = 1.0
        if special and self.pool and seed % 6 == 5:
            self.cscale = max(1.0, abs(r.choice(self.pool)))
        self.memo = {}
        self.tables = X.TABLES

    def size(self, d):
        if isinstance(d, int):
            return d
        v = self.dims.get(d)
        if v is None:
            v = self.dims[d] = 2 + _h(self.seed, d) % 2
        return v

    def rnd(self, *key):
        return _h(self.seed, *key) / float(1 << 56)

    def pos(self, name, pre, i, x):
        """coordinate x of atom i; distances are always those of the coordinates"""
        if self.coarse:
            u = self.rnd("leaf", name, pre, i)
            return float(2 * i + (1 if u < 0.5 else 0)) * self.scale if x == 0 else 0.0
        return (3 * self.rnd("leaf", name, pre, i, x) - 1.5) * self.scale

    def leaf(self, name, idx):
        b = base(name)
        if b == "positions" and len(idx) >= 2:
            return self.pos(name, idx[:-2], idx[-2], idx[-1])
        if b == "dist":
            *pre, i, j = idx
            if i == j:
                return 0.0
            nm = "positions"
            if pre and isinstance(pre[0], str):
                nm, pre = pre[0], pre[1:]
            pre = tuple(pre)
            return math.sqrt(math.fsum((self.pos(nm, pre, i, x) - self.pos(nm, pre, j, x)) ** 2 for x in range(3)))
        u = self.rnd("leaf", name, idx)
        if b in INT_LEAVES:
            if self.isomers and len(idx) > 1:
                idx = idx[-1:]
                u = self.rnd("leaf", name, idx)
            if self.ipool and self.rnd("ip", name, idx) < 0.4:
                return self.ipool[int(u * len(self.ipool)) % len(self.ipool)]
            if self.anyz and u > 0.1:
                return 1 + int(self.rnd("anyz", name, idx) * 86)
            z = ELEMENTS[int(u * len(ELEMENTS)) % len(ELEMENTS)]
            return 7 if z == 0 and self.real else z
        if name.endswith("~s"):
            *pre, i, j = idx
            idx = (*pre, min(i, j), max(i, j))
            u = self.rnd("leaf", name, idx)
        if name in self.lpool and self.rnd("lpool", name, idx) < 0.4:
            ks = self.lpool[name]
            if self.scale > 4.0 and u < 0.6:
                return float(max(ks))
            return float(ks[int(self.rnd("lk", name, idx) * len(ks)) % len(ks)])
        if name in self.cuts and not idx and self.rnd("cut", name) < 0.7:
            # a cutoff near one of the distances
            n = self.size("N")
            pre = (int(self.rnd("cutb", name) * self.size("B")),) if self.rnd("cutp", name) < 0.5 else ()
            i, j = int(self.rnd("cuti", name) * n), int(self.rnd("cutj", name) * n)
            if self.rnd("cutm", name) < 0.4:
                # the largest distance of the molecule
                i, j = max(((a, b) for a in range(n) for b in range(a)), key=lambda p: self.leaf("dist", pre + p), default=(i, j))
            if i != j:
                return self.leaf("dist", pre + (i, j)) * (1.0 if u < (0.6 if self.coarse else 0.2) else 0.93 if u < 0.6 else 1.07)
        if self.scale == 4.0 and b in ("a1", "a2") and name not in self.lpool:
            return 0.2 + 0.5 * u if b == "a1" else 0.5 + 2 * u
        if b == "cn" and idx and self.extreme and self.rnd("ext", name, idx) < 0.75:
            return 400.0 + u
        if self.pool and self.rnd("pool", name, idx) < 0.35:
            k = self.pool[int(self.rnd("pk", name, idx) * len(self.pool)) % len(self.pool)]
            d = self.rnd("pd", name, idx)
            return k if d < 0.4 else k * (0.5 if d < 0.7 else 1.7)
        if b in SIGNED and self.rnd("sign", name, idx) < 0.3:
            return -(0.4 + 2.2 * u)
        if b in POS_LEAVES:
            return float(1 + int(u * 4)) if self.coarse else 0.4 + 2.2 * u
        return 2.4 * u - 1.2

    def override(self, e, env):
        return None

    def semantic(self, e, env):
        """meaning of a trusted call, None: an arbitrary function of its arguments"""
        return None

    def tab(self, name, idx):
        t = self.tables.get(name)
        if isinstance(t, (list, tuple)):
            for i in idx:
                i = int(i)
                if not -len(t) <= i < len(t):
                    raise Undecidable("table index")
                t = t[i]
            return float(t)
        if callable(t):
            v = t(tuple(X.num(int(i)) for i in idx))
            if v is not None:
                return float(v)
        if any(int(i) == 0 for i in idx):
            return 0.0
        if name == "VDW_PAIRWISE":
            idx = tuple(sorted(int(i) for i in idx))     # radii of unordered pairs
        return 0.3 + self.rnd("tab", name, idx)


_fvs: dict = {}


def ev(e: E, v: Val, env: dict):
    fv = _fvs.get(e.id)
    if fv is None:
        fv = _fvs[e.id] = tuple(sorted(X.freevars(e), key=lambda x: x.id))
    if fv:
        try:
            key = (e.id, *[env[x] for x in fv])
        except KeyError:
            raise Undecidable("free index")
    else:
        key = e.id
    r = v.memo.get(key)
    if r is None:
        r = v.override(e, env)
        if r is None:
            r = _ev(e, v, env)
        v.memo[key] = r
        if len(v.memo) > 3_000_000:
            raise Undecidable("size")
    return r


def _pow(a, b):
    try:
        if a == 0 and b < 0:
            return math.inf
        if a < 0 and b != int(b):
            return math.nan
        r = float(a) ** b
        return r
    except OverflowError:
        return math.inf
    except (ValueError, ZeroDivisionError):
        return math.nan


def _div(a, b):
    if b == 0:
        return math.nan if a == 0 or a != a else math.copysign(math.inf, a)
    return a / b


FN1 = {"abs": abs, "sign": lambda x: (x > 0) - (x < 0), "floor": math.floor, "ceil": math.ceil, "trunc": math.trunc,
       "round": round, "tanh": math.tanh, "erf": math.erf, "cos": math.cos, "sin": math.sin,
       "sigmoid": lambda x: 1 / (1 + math.exp(-x)), "cut": lambda x: x, "rnd": lambda x: x,
       "log": lambda x: math.log(x) if x > 0 else (-math.inf if x == 0 else math.nan),
       "log2": lambda x: math.log2(x) if x > 0 else -math.inf, "log10": lambda x: math.log10(x) if x > 0 else -math.inf,
       "inv": lambda x: ~int(x)}
FN2 = {"maximum": max, "minimum": min, "floordiv": lambda a, b: a // b, "mod": lambda a, b: a % b}


def _ev(e, v, env):
    op, a = e.op, e.args
    if op == "num":
        return float(a[0]) if a[0].denominator != 1 else int(a[0])
    if op == "bool":
        return a[0]
    if op == "var":
        return env[e]
    if op == "ival":
        return ev(a[0], v, env)
    if op == "add":
        return sum(float(ev(x, v, env)) for x in a)
    if op == "mul":
        r = 1.0
        for x in a:
            r *= float(ev(x, v, env))
        return r
    if op == "div":
        return _div(float(ev(a[0], v, env)), float(ev(a[1], v, env)))
    if op == "sdiv":
        b = float(ev(a[1], v, env))
        return _div(float(ev(a[0], v, env)), b if b != 0 else 2.220446049250313e-16)
    if op in ("pow", "spow"):
        return _pow(float(ev(a[0], v, env)), float(ev(a[1], v, env)))
    if op == "ssqrt":
        x = float(ev(a[0], v, env))
        return math.sqrt(x) if x > 0 else 0.0 if x == 0 else math.nan
    if op == "exp":
        try:
            return math.exp(float(ev(a[0], v, env)))
        except OverflowError:
            return math.inf
    if op == "fn":
        if a[0] in FN1:
            x = ev(a[1], v, env)
            if x != x or (isinstance(x, float) and math.isinf(x) and a[0] in ("floor", "ceil", "trunc", "round")):
                return x
            return FN1[a[0]](x)
        if a[0] in FN2:
            return FN2[a[0]](*[ev(x, v, env) for x in a[1:]])
        if a[0] in ("argmax", "argmin"):
            lamb = a[1]
            w = lamb.args[0][0]
            vals = [ev(lamb.args[1], v, {**env, w: k}) for k in range(v.size(w.args[1]))]
            return vals.index(max(vals) if a[0] == "argmax" else min(vals))
        return v.rnd("fn", a[0], *[_key(x, v, env) for x in a[1:]])
    if op == "not":
        return not ev(a[0], v, env)
    if op == "and":
        return all(ev(x, v, env) for x in a)
    if op == "eq":
        return ev(a[0], v, env) == ev(a[1], v, env)
    if op == "lt":
        return ev(a[0], v, env) < ev(a[1], v, env)
    if op == "eqi":
        return ev(a[0], v, env) == ev(a[1], v, env)
    if op == "isnan":
        x = ev(a[0], v, env)
        return x != x
    if op == "isinf":
        x = float(ev(a[0], v, env))
        return math.isinf(x)
    if op == "bfn":
        if a[0] == "ige":
            return ev(a[2], v, env) - ev(a[1], v, env) >= a[3]
        if a[0] == "isclose":
            x, y = ev(a[1], v, env), ev(a[2], v, env)
            return abs(x - y) <= 1e-8 + 1e-5 * abs(y)
        return _h(v.seed, "bfn", a[0], *[_key(x, v, env) for x in a[1:]]) % 2 == 0
    if op in ("where", "phi"):
        return ev(a[1] if ev(a[0], v, env) else a[2], v, env)
    if op == "red":
        kind, w, body = a
        n = v.size(w.args[1])
        vals = [ev(body, v, {**env, w: k}) for k in range(n)]
        if kind == "sum":
            return math.fsum(vals) if all(math.isfinite(float(x)) for x in vals) else sum(float(x) for x in vals)
        if kind == "prod":
            return math.prod(float(x) for x in vals)
        if kind == "max":
            return max(vals)
        if kind == "min":
            return min(vals)
        if kind == "any":
            return any(vals)
        if kind == "all":
            return all(vals)
        raise Undecidable(kind)
    if op == "dim":
        return v.size(a[0])
    if op == "eps":
        return 2.220446049250313e-16
    if op == "fmax":
        return 1.7e308
    if op == "fmin":
        return -1.7e308
    if op == "ftiny":
        return 2.2e-308
    if op == "nonfinite":
        return float(a[0])
    if op == "leaf":
        return v.leaf(a[0], tuple(x.args[0] if x.op == "leaf" and base(x.args[0]) == "positions" and len(x.args) == 1
                                  else ev(x, v, env) for x in a[1:]))
    if op == "tab":
        return v.tab(a[0], tuple(ev(x, v, env) for x in a[1:]))
    if op in ("call", "opq"):
        r = v.semantic(e, env)
        if r is not None:
            return r
        nm = a[0]
        ks = [_key(x, v, env) for x in a]
        if nm == "c6" and op == "call":
            ks[-2:] = sorted(ks[-2:])      # symmetric in the two atoms
        r = 2.2 * v.rnd(op, *ks) + (0.05 if nm != "eeq" else -1.1)
        if v.extreme and nm in ("cn_d4", "cn_d3") and r > 1.1:
            r *= 400
        elif nm in ("cn_d4", "cn_d3", "eeq"):
            r *= v.cscale
        return r
    if op == "pair":
        raise Undecidable("merged index")
    raise Undecidable(op)


def _key(x, v, env):
    if not isinstance(x, E):
        return x
    if x.op == "lam":
        vs, body = x.args
        out = []

        def go(k, en):
            if k == len(vs):
                out.append(_rk(ev(body, v, en)))
                return
            for n in range(v.size(vs[k].args[1])):
                go(k + 1, {**en, vs[k]: n})
        go(0, env)
        return tuple(out)
    return _rk(ev(x, v, env))


def _rk(x):
    return "%.9e" % x if isinstance(x, float) else str(x)


class Pool(tuple):
    """constants of comparisons; `leaves`: the ones a leaf itself is compared with; `cuts`: scalars compared with
    distances"""


def sole_leaf(z):
    """the leaf an expression is made of, if it is only one (a clamped input, say)"""
    if z.op == "leaf":
        return z.args[0]
    if z.op in ("where", "phi", "mul", "add", "fn", "rnd") and iso_size(z) < 40:
        ns = {y.args[0] for y in X.walk(z) if y.op == "leaf"}
        if len(ns) == 1 and not any(y.op in ("call", "opq", "tab", "red", "dim") for y in X.walk(z)):
            return next(iter(ns))
    return None


def iso_size(z):
    return sum(1 for _ in X.walk(z))


def pool_of(*es):
    p = set()
    leaves, cuts = {}, set()
    for x in X.walk(*es):
        if x.op in ("eq", "lt"):
            for y, z in (x.args, x.args[::-1]):
                if y.op == "num":
                    if y.args[0] != 0 and abs(y.args[0]) < 10**4:
                        p.add(float(y.args[0]))
                    nm = sole_leaf(z)
                    if nm is not None and base(nm) not in INT_LEAVES and abs(y.args[0]) < 10**6:
                        c = float(y.args[0])
                        st = leaves.setdefault(nm, set())
                        st.add(c)
                        if x.op == "lt":
                            st.update((c * 0.9, c * 1.1, c * 3) if c else (() if base(nm) in POS_LEAVES else (-0.3, 0.3)))
            if x.op == "lt":
                ws = list(X.walk(x))
                if len(ws) < 60 and any(y.op == "leaf" and base(y.args[0]) == "dist" for y in ws):
                    cuts.update(y.args[0] for y in ws if y.op == "leaf" and len(y.args) == 1)
    dims = {}
    for x in X.walk(*es):
        if x.op in ("eq", "lt"):
            ws = list(X.walk(x))
            ds = {y.args[0] for y in ws if y.op == "dim"}
            cs = {int(abs(y.args[0])) for y in ws if y.op == "num" and abs(y.args[0]) <= 6}
            if len(ds) == 1 and len(ws) < 30 and not X.freevars(x):
                dims.setdefault(next(iter(ds)), set()).update(k for c in cs for k in (c - 1, c, c + 1) if 1 <= k <= 6)
    r = Pool(sorted(p)[:12])
    r.dims = {k: tuple(sorted(v)) for k, v in dims.items() if v}
    r.leaves = {k: tuple(sorted(v)) for k, v in leaves.items()}
    r.cuts = frozenset(cuts) - {"positions"}
    return r


def dim_variants(*es):
    """the graphs with every decision on a large extent taken either way.

    Extents are evaluated small; a comparison of an extent with a constant that
    small extents cannot reach is replaced by its outcome beyond that constant."""
    conds = {}
    for x in X.walk(*es):
        if x.op in ("lt", "eq"):
            ws = list(X.walk(x))
            ds = {y.args[0] for y in ws if y.op == "dim"}
            cs = {int(abs(y.args[0])) for y in ws if y.op == "num" and 6 < abs(y.args[0]) < 10**7}
            if len(ds) == 1 and cs and not X.freevars(x) and not any(y.op in ("leaf", "call", "opq", "red") for y in ws):
                conds[x] = (next(iter(ds)), cs)
    out = [tuple(es)]
    if not conds:
        return out
    vals = {}
    for d, cs in conds.values():
        vals.setdefault(d, set()).update(c + k for c in cs for k in (-1, 0, 1))
    for d, cs in vals.items():
        for k in sorted(cs)[:12]:
            m = {}
            for c, (dd, _) in conds.items():
                if dd != d:
                    continue
                v = Val(1, {d: k})
                try:
                    m[c] = X.boolc(bool(ev(c, v, {})))
                except (Undecidable, KeyError):
                    pass
            if m:
                out.append(tuple(X.subst(e, m) for e in es))
    res = []
    for t in out:
        if t not in res:
            res.append(t)
    return res


def distinguish(e1, e2, free, trials=60, tol=1e-7, dims=None, seed=1, per_call=None, gated=False):
    """a valuation on which e1 and e2 differ, else None.  Raises Undecidable."""
    # an operation without a model may stand for anything: only the same ones on both sides can be compared
    o1, o2 = ({x.args[0] for x in X.walk(e) if x.op == "opq"} for e in (e1, e2))
    if o1 != o2 or "unsupported statement" in o1:
        raise Undecidable("opaque " + " ".join(sorted(o1 | o2)))
    pool = pool_of(e1, e2)
    vs = dim_variants(e1, e2)

    def pair(k):
        v = Val(seed * 1000 + k, dims, pool)
        if gated and v.dims["N"] < 3:
            v.dims["N"] = 3
        for x in free:
            v.size(x.args[1])
        # distinct index variables take equal values in some trials on purpose
        env = {x: _h(k, x.args[0]) % v.size(x.args[1]) for x in free}
        if gated:
            # a group of different atoms
            at = sorted(range(v.size("N")), key=lambda i: _h(k, "group", i))
            env.update(zip([x for x in free if x.args[1] == "N"], at))
        a, b = vs[k % len(vs)]
        return v, a, env, v, b, env
    return compare(pair, trials * len(vs), tol, per_call, gated)


DEADLINE = [None]       # wall clock after which no further comparison is started
PER_CALL = 40.0
FOUND = [0]             # violations already confirmed: a few are enough


def compare(pair, trials, tol=1e-7, per_call=None, gated=False):
    """first trial k whose two sides (v1, e1, env1, v2, e2, env2) = pair(k) differ"""
    und = None
    done = odd = 0
    oddw = None
    t0 = time.monotonic()
    if FOUND[0] >= 4:
        raise Undecidable("not pursued, enough violations confirmed")
    zero = 0
    for k in range(5 * trials):
        # results that vanish on both sides tell nothing: they do not count as trials
        if k - zero >= trials:
            break
        now = time.monotonic()
        if done and now - t0 > (per_call or PER_CALL) or DEADLINE[0] is not None and now > DEADLINE[0]:
            break
        try:
            v1, e1, env1, v2, e2, env2 = pair(k)
            a, b = ev(e1, v1, env1), ev(e2, v2, env2)
        except Undecidable as u:
            und = u
            continue
        done += 1
        fa, fb = float(a), float(b)
        if fa == fb:
            zero += fa == 0
            continue
        w = {"seed": v1.seed, "values": (fa, fb), "indices": {x.args[0]: env1[x] for x in env1}, "dims": dict(v1.dims)}
        if not (math.isfinite(fa) and math.isfinite(fb)):
            # overflow of an extreme valuation proves nothing by itself
            if math.isfinite(fa) != math.isfinite(fb):
                odd += 1
                oddw = oddw or w
            continue
        if gated and (fa == 0) != (fb == 0) and abs(fa) + abs(fb) > 1e-60:
            # the value itself may be tiny: what counts is whether it is there at all
            return w
        if not (abs(fa - fb) <= tol * max(1e-6, abs(fa), abs(fb))):
            return w
    if not done and und is not None:
        raise und
    if not done:
        raise Undecidable("no time left")
    if odd > 0.4 * done and done >= 5:
        return oddw
    return None
