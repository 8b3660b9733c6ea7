"""Contracts of the torch operations used for lowering (no torch is imported)."""
from __future__ import annotations

import hashlib
from fractions import Fraction

from . import expr as X
from . import canon as C
from .expr import E
from .values import *


class NT(tuple):
    """named tuple result (values, indices)"""
    names = ("values", "indices")


def boolnum(e):
    return X.where(e, X.ONE, X.ZERO) if e.op != "bool" else (X.ONE if e.args[0] else X.ZERO)


def _round12(v):
    return "%.12e" % float(v)


def register_table(name, nested, shape):
    if name in X.TABLES:
        return
    X.TABLES[name] = nested
    vals = set()
    st = [nested]
    while st:
        x = st.pop()
        if isinstance(x, (list, tuple)):
            st.extend(x)
        else:
            vals.add(x)
    if all(v >= 0 for v in vals):
        C.NONNEG.add(name)
    if len(vals) <= 4 and all(float(v).is_integer() for v in vals):
        C.DOMAIN[name] = tuple(sorted(Fraction(v) for v in vals))
    TABLE_SHAPE[name] = shape


TABLE_SHAPE: dict = {}
_digest_memo: dict = {}


def table_name(flat, shape):
    h = hashlib.sha1((repr(shape) + ";" + ",".join(_round12(v) for v in flat)).encode()).hexdigest()[:12]
    return f"lit:{h}"


class TLib:
    def __init__(self, m, lib):
        self.m = m
        self.lib = lib
        self.track_round = False

    # ------------------------------------------------------------- helpers
    def loc(self):
        return self.m.loc

    def region(self):
        return Region(self.m.epoch)

    def new(self, shape, fn, dtype, device, name=None, const=False):
        self.m.ops += 1
        if self.m.nograd and isfloat(dtype):
            f0 = fn
            fn = lambda idx: self.cut(f0(idx))
        t = T(Arr(shape, fn, self.m.loc, dtype), dtype, device, self.region(), name=name)
        if const and all(isinstance(d, int) for d in shape):
            return self.constfold(t)
        return t

    def cut(self, e):
        if e.op in ("num", "bool", "tab", "dim", "eps", "fmax") or not _has_leaf(e):
            return e
        return X.mk("fn", "cut", e)

    def constfold(self, t):
        n = 1
        for d in t.shape:
            n *= d
        if n == 0 or n > 2000:
            return t
        vals = []
        for idx in _indices(t.shape):
            v = X.numval(t.arr.at([X.idxc(i) for i in idx]))
            if v is None:
                return t
            vals.append(v)
        if t.dtype == "bool":
            return t
        return self.literal(_nest(vals, t.shape), t.shape, t.dtype, t.device, vals)

    def literal(self, nested, shape, dtype, device, flat=None):
        if shape == ():
            e = X.num(nested)
            if dtype == "bool":
                e = X.boolc(nested)
            return self.new((), lambda idx: self.rnd_const(e, dtype), dtype, device)
        if flat is None:
            flat = list(_flat(nested))
        key = id(nested)
        name = table_name(flat, shape)
        register_table(name, nested, shape)
        inexact = self.track_round and dtype in ("f32", "f16", "bf16") and any(not _exact32(v) for v in flat)

        def fn(idx):
            e = X.tab(name, *idx)
            return X.mk("fn", "rnd", e) if inexact else e
        t = self.new(shape, fn, dtype, device)
        t.info["table"] = name
        return t

    def rnd_const(self, e, dtype):
        if dtype in ("f32", "f16", "bf16"):
            v = X.numval(e)
            if v is not None and v and abs(v) < (1e-45 if dtype != "f16" else 2.9e-8):
                return X.num(0)
        if self.track_round and dtype in ("f32", "f16", "bf16"):
            v = X.numval(e)
            if v is None or not _exact32(v):
                return X.mk("fn", "rnd", e)
        return e

    def asE(self, v):
        return self.lib.sce(v)

    def scal_dtype(self, v):
        if isinstance(v, bool):
            return "bool"
        if isinstance(v, int):
            return "i64"
        if isinstance(v, float):
            return self.m.default_dtype
        return {"bool": "bool", "int": "i64", "float": self.m.default_dtype}[v.kind]

    @staticmethod
    def cat(d):
        return 0 if d == "bool" else 1 if d in INTS else 2

    def result_type(self, *ops):
        dims = [o.dtype for o in ops if isinstance(o, T) and o.ndim > 0]
        zeros = [o.dtype for o in ops if isinstance(o, T) and o.ndim == 0]
        scal = [self.scal_dtype(o) for o in ops if not isinstance(o, T)]
        r = promote(*dims)
        for grp in (promote(*zeros), promote(*scal)):
            if grp is None:
                continue
            if r is None:
                r = grp
            elif self.cat(grp) > self.cat(r):
                r = grp
        return r

    def bshape(self, *shapes):
        n = max(len(s) for s in shapes)
        out = []
        for k in range(n):
            d = 1
            for s in shapes:
                j = k - (n - len(s))
                if j < 0:
                    continue
                x = s[j]
                if x == 1:
                    continue
                if d == 1:
                    d = x
                elif d != x:
                    raise AbsRaise("RuntimeError", f"shapes {shapes} cannot be broadcast", self.m.loc)
            out.append(d)
        return tuple(out)

    @staticmethod
    def bidx(shape, idx):
        k = len(idx) - len(shape)
        return tuple(X.idxc(0) if d == 1 else idx[k + j] for j, d in enumerate(shape))

    def device_of(self, ops, opname="op", elementwise=True):
        ts = [o for o in ops if isinstance(o, T)]
        toks = {t.device for t in ts}
        if len(toks) <= 1:
            return ts[0].device if ts else self.m.default_device
        big = {t.device for t in ts if t.ndim > 0}
        if elementwise:
            if len(big) <= 1:
                nz = [t for t in ts if t.ndim == 0]
                if big:
                    dev = next(iter(big))
                    if all(t.device == dev or t.device == "cpu" for t in nz):
                        return dev
                else:
                    nc = toks - {"cpu"}
                    if len(nc) == 1:
                        return next(iter(nc))
        self.m.event("device-mix", op=opname, devices=tuple(sorted(toks)))
        nc = sorted(toks - {"cpu"})
        return nc[0] if nc else "cpu"

    def conv(self, e, src, dst):
        """element conversion between dtypes"""
        if src == dst:
            return e
        if src == "bool" and dst != "bool":
            return boolnum(X.tobool(e)) if e.op != "num" else e
        if dst == "bool":
            return X.tobool(e)
        if isfloat(src) and dst in INTS:
            v = X.numval(e)
            if v is not None:
                return X.num(int(v))
            return X.mk("fn", "trunc", e)
        if self.track_round and isfloat(src) and isfloat(dst) and RANK[dst] < RANK[src]:
            return self.rnd_const(e, dst) if X.numval(e) is not None else X.mk("fn", "rnd", e)
        if self.track_round and src in INTS and dst in ("f16", "bf16"):
            return X.mk("fn", "rnd", e)
        return e

    def opnd(self, v, dst=None):
        """-> (shape, fn(idx)->E)"""
        if isinstance(v, T):
            a, dt = v.arr, v.dtype
            return a.shape, (lambda idx: self.conv(a.at(idx), dt, dst or dt))
        e = self.asE(v)
        if dst is not None:
            k = "bool" if isinstance(v, bool) or (isinstance(v, Sc) and v.kind == "bool") else "f64"
            if k == "bool" and dst != "bool":
                e = boolnum(X.tobool(e))
            elif dst == "bool":
                e = X.tobool(e)
        return (), (lambda idx: e)

    def ew(self, opname, f, ops, dtype, cdt=None):
        """elementwise op; operands converted to cdt (compute dtype)"""
        for o in ops:
            if isinstance(o, Unknown):
                raise Unsupported("unknown operand")
            if not isinstance(o, (T, int, float, bool, Sc)):
                raise AbsRaise("TypeError", f"bad operand for {opname}", self.m.loc)
        dev = self.device_of(ops, opname)
        sf = [self.opnd(o, cdt) for o in ops]
        shape = self.bshape(*[s for s, _ in sf])
        lowprec = self.track_round and dtype in ("f32", "f16", "bf16")

        def fn(idx):
            e = f(*[g(self.bidx(s, idx)) for s, g in sf])
            if lowprec and X.numval(e) is None and e.op not in ("leaf",):
                return X.mk("fn", "rnd", e)
            return e
        const = all(not isinstance(o, T) or "table" in o.info or o.info.get("const") for o in ops)
        t = self.new(shape, fn, dtype, dev, const=const)
        if const:
            t.info["const"] = True
        return t

    # --------------------------------------------------------------- binary
    def binop(self, op, a, b):
        rt = self.result_type(a, b)
        if op == "Add":
            if rt == "bool":
                return self.ew("add", X.orb, [a, b], "bool", "bool")
            return self.ew("add", X.add, [a, b], rt, rt)
        if op == "Sub":
            if rt == "bool":
                raise AbsRaise("RuntimeError", "bool subtraction", self.m.loc)
            return self.ew("sub", X.sub, [a, b], rt, rt)
        if op == "Mult":
            if rt == "bool":
                return self.ew("mul", X.andb, [a, b], "bool", "bool")
            return self.ew("mul", X.mul, [a, b], rt, rt)
        if op == "Div":
            if not isfloat(rt):
                rt = self.m.default_dtype
            return self.ew("div", X.div, [a, b], rt, rt)
        if op == "Pow":
            if rt == "bool":
                rt = "i64"
            return self.ew("pow", X.power, [a, b], rt, rt)
        if op == "FloorDiv":
            return self.ew("floor_divide", lambda x, y: X.fn("floordiv", x, y), [a, b], rt, rt)
        if op == "Mod":
            return self.ew("remainder", lambda x, y: X.fn("mod", x, y), [a, b], rt, rt)
        if op in ("BitAnd", "BitOr", "BitXor"):
            if rt == "bool":
                f = {"BitAnd": X.andb, "BitOr": X.orb,
                     "BitXor": lambda x, y: X.orb(X.andb(x, X.notb(y)), X.andb(X.notb(x), y))}[op]
                return self.ew(op, f, [a, b], "bool", "bool")
            return self.ew(op, lambda x, y: X.fn(op, x, y), [a, b], rt, rt)
        if op == "MatMult":
            return self.matmul(a, b)
        raise Unsupported(op)

    def inplace_binop(self, op, a, b):
        r = self.binop(op, a, b)
        if isinstance(r, Unknown):
            self.m.touch(a, f"in-place {op}")
            return r
        self.inplace_set(a, r, f"in-place {op}")
        return a

    def inplace_set(self, t, r, what):
        self.m.touch(t, what)
        if self.cat(r.dtype) > self.cat(t.dtype):
            raise AbsRaise("RuntimeError", f"result type {r.dtype} can't be cast to {t.dtype}", self.m.loc)
        sh = t.shape
        if self.bshape(r.shape, sh) != sh:
            raise AbsRaise("RuntimeError", "in-place broadcast", self.m.loc)
        ra, rd, td = r.arr, r.dtype, t.dtype
        if r.device != t.device and r.ndim > 0:
            self.m.event("device-mix", op=what, devices=(r.device, t.device))
        t.set_arr(Arr(sh, lambda idx: self.conv(ra.at(self.bidx(ra.shape, idx)), rd, td), self.m.loc))
        t.info.pop("table", None)
        t.info.pop("const", None)

    def compare(self, op, a, b):
        if op in ("Eq", "NotEq"):
            same = isinstance(a, T) and a is b and isfloat(a.dtype)

            def f(x, y):
                if same and X.numval(x) is None and not X.isboolish(x):
                    e = X.notb(X.mk("isnan", x))        # x == x is the test for not-a-number
                elif X.isboolish(x) and X.isboolish(y):
                    e = X.orb(X.andb(x, y), X.andb(X.notb(x), X.notb(y)))
                elif X.isboolish(x) or X.isboolish(y):
                    e = X.eq(boolnum(x) if X.isboolish(x) else x, boolnum(y) if X.isboolish(y) else y)
                else:
                    e = X.eq(x, y)
                return e if op == "Eq" else X.notb(e)
        else:
            def f(x, y):
                x = boolnum(x) if X.isboolish(x) else x
                y = boolnum(y) if X.isboolish(y) else y
                return {"Lt": X.lt(x, y), "LtE": X.le(x, y), "Gt": X.lt(y, x), "GtE": X.le(y, x)}[op]
        cdt = None
        rt = self.result_type(a, b)
        if self.track_round and isfloat(rt):
            cdt = rt
        return self.ew(op, f, [a, b], "bool", cdt)

    def unary(self, op, v):
        if op == "neg":
            return self.ew("neg", X.neg, [v], v.dtype)
        if op == "pos":
            return v
        if v.dtype == "bool":
            return self.ew("not", lambda x: X.notb(X.tobool(x)), [v], "bool")
        return self.ew("inv", lambda x: X.fn("inv", x), [v], v.dtype)

    def fdtype(self, v):
        d = v.dtype if isinstance(v, T) else self.scal_dtype(v)
        return d if isfloat(d) else self.m.default_dtype

    # --------------------------------------------------------------- shapes
    def axis(self, d, n):
        if not isinstance(d, int):
            raise Unsupported("symbolic axis")
        if d < -n or d >= n:
            raise AbsRaise("IndexError", f"Dimension out of range {d} for rank {n}", self.m.loc)
        return d % n

    def mkview(self, base, fwd, put):
        """view sharing storage with base"""
        self.m.ops += 1
        loc = self.m.loc
        nograd = self.m.nograd

        def fwd2(ba):
            a = fwd(ba)
            if a.loc is None:
                a.loc = loc
            if nograd and isfloat(base.dtype):
                f0 = a.fn
                a = Arr(a.shape, lambda idx: self.cut(f0(idx)), a.loc)
            return a
        t = T(None, base.dtype, base.device, base.region, view=(base, fwd2, put))
        t.arr  # shape errors now
        if base.info.get("const") or base.info.get("table"):
            t.info["const"] = True
        return t

    def unsqueeze(self, x, dim):
        n = x.ndim + 1
        d = self.axis(dim, n)
        return self.mkview(
            x, lambda a: Arr(a.shape[:d] + (1,) + a.shape[d:], lambda i: a.at(i[:d] + i[d + 1:])),
            lambda b, v: Arr(b.shape, lambda i: v.at(i[:d] + (X.idxc(0),) + i[d:])))

    def squeeze(self, x, dims=None):
        sh = x.shape
        if dims is None:
            ds = [k for k, s in enumerate(sh) if s == 1]
        else:
            ds = [self.axis(d, len(sh)) for d in (dims if isinstance(dims, (tuple, list)) else [dims])]
            ds = [d for d in ds if sh[d] == 1]
        keep = [k for k in range(len(sh)) if k not in ds]

        def fwd(a):
            def fn(i):
                full = [X.idxc(0)] * len(sh)
                for k, v in zip(keep, i):
                    full[k] = v
                return a.at(tuple(full))
            return Arr([sh[k] for k in keep], fn)
        return self.mkview(x, fwd, lambda b, v: Arr(b.shape, lambda i: v.at(tuple(i[k] for k in keep))))

    def permute(self, x, perm):
        n = x.ndim
        p = [self.axis(d, n) for d in perm]
        if sorted(p) != list(range(n)):
            raise AbsRaise("RuntimeError", "permute", self.m.loc)
        inv = [p.index(k) for k in range(n)]
        return self.mkview(
            x, lambda a: Arr([a.shape[k] for k in p], lambda i: a.at(tuple(i[inv[k]] for k in range(n)))),
            lambda b, v: Arr(b.shape, lambda i: v.at(tuple(i[k] for k in p))))

    def transpose(self, x, a, b):
        n = x.ndim
        a, b = self.axis(a, n), self.axis(b, n)
        p = list(range(n))
        p[a], p[b] = p[b], p[a]
        return self.permute(x, p)

    def expand(self, x, sizes):
        sizes = list(self.lib.to_shape(sizes, minus_ok=True))
        sh = x.shape
        k = len(sizes) - len(sh)
        if k < 0:
            raise AbsRaise("RuntimeError", "expand rank", self.m.loc)
        out = []
        for j, s in enumerate(sizes):
            if s == -1:
                if j < k:
                    raise AbsRaise("RuntimeError", "expand -1", self.m.loc)
                out.append(sh[j - k])
            else:
                if j >= k and sh[j - k] != 1 and sh[j - k] != s:
                    raise AbsRaise("RuntimeError", f"expand {sh} to {sizes}", self.m.loc)
                out.append(s)
        return self.mkview(x, lambda a: Arr(out, lambda i: a.at(self.bidx(a.shape, i))), None)

    def reshape(self, x, sizes, what="reshape"):
        sizes = list(self.lib.to_shape(sizes, minus_ok=True))
        sh = list(x.shape)
        if "table" in x.info and all(isinstance(d, int) for d in sh + sizes):
            nested = X.TABLES[x.info["table"]]
            flat = list(_flat(nested))
            if -1 in sizes:
                k = 1
                for s in sizes:
                    if s != -1:
                        k *= s
                sizes[sizes.index(-1)] = len(flat) // k
            k = 1
            for s in sizes:
                k *= s
            if k != len(flat):
                raise AbsRaise("RuntimeError", "reshape size", self.m.loc)
            key = (x.info["table"], tuple(sizes))
            if key not in _digest_memo:
                _digest_memo[key] = _nest(flat, tuple(sizes))
            return self.literal(_digest_memo[key], tuple(sizes), x.dtype, x.device, flat)
        if -1 in sizes:
            a = [s for s in sh if s != 1]
            b = [s for s in sizes if s not in (1, -1)]
            rest = list(a)
            try:
                for s in b:
                    rest.remove(s)
            except ValueError:
                rest = None
            if rest is not None and len(rest) <= 1:
                sizes[sizes.index(-1)] = rest[0] if rest else 1
        core_a = [(k, s) for k, s in enumerate(sh) if s != 1]
        core_b = [(k, s) for k, s in enumerate(sizes) if s != 1]
        if -1 not in sizes and [s for _, s in core_a] == [s for _, s in core_b]:
            mp = {ka: kb for (ka, _), (kb, _) in zip(core_a, core_b)}
            inv = {kb: ka for ka, kb in mp.items()}
            n, nb = len(sh), len(sizes)
            return self.mkview(
                x, lambda a: Arr(sizes, lambda i: a.at(tuple(i[mp[k]] if k in mp else X.idxc(0) for k in range(n)))),
                lambda b, v: Arr(b.shape, lambda i: v.at(tuple(i[inv[k]] if k in inv else X.idxc(0)
                                                                for k in range(nb)))))
        # flattening of several dimensions: merged dimension with div/mod indices
        res = self._merge_reshape(x, sh, sizes)
        if res is not None:
            return res
        return self.opaque(what, [x], [s if s != -1 else "?" for s in sizes], x.dtype, x.device)

    def _merge_reshape(self, x, sh, sizes):
        """(A, B, C) -> (A*B, C) and back, remembered through named product dims"""
        out, i = [], 0
        groups = []
        sizes = list(sizes)
        if sizes.count(-1) > 1:
            return None
        # split dims known as products
        ext = []
        for k, s in enumerate(sh):
            if isinstance(s, str) and s.startswith("("):
                ext.append((k, s[1:-1].split("*")))
            else:
                ext.append((k, [s]))
        flat = [(k, j, d) for k, ds in ext for j, d in enumerate(ds)]
        dims = [_dimint(d) for _, _, d in flat]
        pos = 0
        res = []
        for s in sizes:
            if s == 1:
                res.append([])
                continue
            if s == -1:
                # number of remaining sizes
                rem = [t for t in sizes[len(res) + 1:] if t != 1]
                need = 0
                q = len(dims)
                ok = True
                for t in reversed(rem):
                    parts = [_dimint(p) for p in t[1:-1].split("*")] if isinstance(t, str) and t.startswith("(") else [t]
                    if dims[q - len(parts):q] != parts:
                        ok = False
                        break
                    q -= len(parts)
                if not ok or q < pos:
                    return None
                res.append(list(range(pos, q)))
                pos = q
                continue
            parts = [_dimint(p) for p in s[1:-1].split("*")] if isinstance(s, str) and s.startswith("(") else None
            if parts is not None and dims[pos:pos + len(parts)] == parts:
                res.append(list(range(pos, pos + len(parts))))
                pos += len(parts)
                continue
            if pos < len(dims) and dims[pos] == s:
                res.append([pos])
                pos += 1
                continue
            if isinstance(s, int):
                q, acc = pos, 1
                while q < len(dims) and isinstance(dims[q], int) and acc < s:
                    acc *= dims[q]
                    q += 1
                if acc == s:
                    res.append(list(range(pos, q)))
                    pos = q
                    continue
            return None
        if pos != len(dims):
            return None
        newsh = []
        for g in res:
            if not g:
                newsh.append(1)
            elif len(g) == 1:
                newsh.append(dims[g[0]])
            elif all(isinstance(dims[p], int) for p in g):
                k = 1
                for p in g:
                    k *= dims[p]
                newsh.append(k)
            else:
                newsh.append("(" + "*".join(str(dims[p]) for p in g) + ")")
        if any(len(g) > 1 and all(isinstance(dims[p], int) for p in g) for g in res):
            return None

        def fwd(a):
            def fn(i):
                comp = {}
                for g, v in zip(res, i):
                    if len(g) == 1:
                        comp[g[0]] = v
                    elif g:
                        for q, p in enumerate(g):
                            comp[p] = v.args[q + 1] if v.op == "pair" else X.mk("proj", q, len(g), dims[p], v)
                full = []
                for k, ds in ext:
                    ps = [p for p, (kk, _, _) in enumerate(flat) if kk == k]
                    full.append(comp[ps[0]] if len(ps) == 1 else X.mk("pair", len(ps), *[comp[p] for p in ps]))
                return a.at(tuple(full))
            return Arr(newsh, fn)
        return self.mkview(x, fwd, None)

    def diagonal(self, x, offset=0, dim1=0, dim2=1):
        n = x.ndim
        a, b = self.axis(dim1, n), self.axis(dim2, n)
        if offset != 0:
            raise Unsupported("diagonal offset")
        keep = [k for k in range(n) if k not in (a, b)]

        def fwd(ar):
            def fn(i):
                full = [None] * n
                for k, v in zip(keep, i):
                    full[k] = v
                full[a] = full[b] = i[-1]
                return ar.at(tuple(full))
            return Arr([ar.shape[k] for k in keep] + [ar.shape[a]], fn)

        def put(base, v):
            return Arr(base.shape, lambda i: X.where(_ieq(i[a], i[b]),
                                                     v.at(tuple(i[k] for k in keep) + (i[a],)), base.at(i)))
        return self.mkview(x, fwd, put)

    # -------------------------------------------------------------- indexing
    def getitem(self, x, k):
        items = list(k) if isinstance(k, tuple) and not isinstance(k, Shape) else [k]
        if isinstance(k, L):
            items = [k]
        for it in items:
            if isinstance(it, Unknown):
                return Unknown("index", [x, it])
        items = [self.lib_tensor(it) if isinstance(it, L) else it for it in items]
        if any(isinstance(i, T) for i in items):
            return self.adv_index(x, items)
        return self.basic_index(x, items)

    def lib_tensor(self, l):
        return self.tensor_from(l, None, None)

    def _expand_ellipsis(self, x, items):
        cons = 0
        for it in items:
            if it is None or it is Ellipsis:
                continue
            cons += it.ndim if isinstance(it, T) and it.dtype == "bool" else 1
        out = []
        seen = False
        for it in items:
            if it is Ellipsis:
                if seen:
                    raise AbsRaise("IndexError", "ellipsis", self.m.loc)
                seen = True
                out.extend([Slice(None, None, None)] * (x.ndim - cons))
            else:
                out.append(it)
        if not seen:
            out.extend([Slice(None, None, None)] * (x.ndim - cons))
        if x.ndim - cons < 0:
            raise AbsRaise("IndexError", "too many indices", self.m.loc)
        return out

    def _slice(self, s, d):
        """-> (newdim, map(i)->E, inv(b)->(cond, E))"""
        if s.a is None and s.b is None and s.c in (None, 1):
            return d, (lambda i: i), (lambda b: (X.TRUE, b))
        for q in (s.a, s.b, s.c):
            if q is not None and not isinstance(q, int):
                if isinstance(q, Sc) and q.e.op == "dim" and q is s.b and s.a in (None, 0) and q.e.args[0] == d:
                    return d, (lambda i: i), (lambda b: (X.TRUE, b))
                raise Unsupported("symbolic slice")
        if isinstance(d, int):
            st, en, step = slice(s.a, s.b, s.c).indices(d)
            n = len(range(st, en, step))
            if n == d and step == 1:
                return d, (lambda i: i), (lambda b: (X.TRUE, b))

            def mp(i):
                return X.add(X.mul(i, X.num(step)), X.num(st)) if (step != 1 or st) else i

            def inv(b):
                v = X.numval(b)
                if v is not None:
                    ok = int(v) in range(st, en, step)
                    return X.boolc(ok), X.idxc((int(v) - st) // step) if ok else X.idxc(0)
                if step != 1:
                    raise Unsupported("strided slice assignment")
                return X.andb(X.le(X.num(st), b), X.lt(b, X.num(en))), X.sub(b, X.num(st))
            return n, mp, inv
        if s.c not in (None, 1):
            raise Unsupported("strided slice of symbolic dim")
        a = s.a or 0
        if a >= 0 and s.b is None:
            nd = f"{d}-{a}"
            return nd, (lambda i: X.add(i, X.num(a))), (lambda b: (X.le(X.num(a), b), X.sub(b, X.num(a))))
        if a == 0 and isinstance(s.b, int) and s.b < 0:
            nd = f"{d}-{-s.b}"
            return nd, (lambda i: i), (lambda b: (X.lt(b, X.add(X.dimsize(d), X.num(s.b))), b))
        if a >= 0 and isinstance(s.b, int) and s.b > a:
            return s.b - a, (lambda i: X.add(i, X.num(a)) if a else i), \
                (lambda b: (X.andb(X.le(X.num(a), b), X.lt(b, X.num(s.b))), X.sub(b, X.num(a))))
        raise Unsupported("slice of symbolic dim")

    def basic_index(self, x, items):
        items = self._expand_ellipsis(x, items)
        sh = x.shape
        outdims, plan, ax = [], [], 0
        for it in items:
            if it is None:
                outdims.append(1)
                plan.append(("new",))
            elif isinstance(it, Slice):
                nd, mp, inv = self._slice(it, sh[ax])
                plan.append(("sl", ax, len(outdims), mp, inv))
                outdims.append(nd)
                ax += 1
            elif isinstance(it, bool):
                raise Unsupported("bool index")
            elif isinstance(it, int):
                d = sh[ax]
                if isinstance(d, int):
                    if it < -d or it >= d:
                        raise AbsRaise("IndexError", f"index {it} out of range for {d}", self.m.loc)
                    c = X.idxc(it % d)
                else:
                    c = X.idxc(it) if it >= 0 else X.add(X.dimsize(d), X.num(it))
                plan.append(("int", ax, c))
                ax += 1
            elif isinstance(it, Sc):
                plan.append(("int", ax, it.e))
                ax += 1
            else:
                raise Unsupported(f"index {type(it).__name__}")
        n = len(sh)

        def fwd(a):
            def fn(i):
                full = [None] * n
                for p in plan:
                    if p[0] == "sl":
                        full[p[1]] = p[3](i[p[2]])
                    elif p[0] == "int":
                        full[p[1]] = p[2]
                return a.at(tuple(full))
            return Arr(outdims, fn)

        def put(base, v):
            def fn(b):
                cond, vi = X.TRUE, [X.idxc(0)] * len(outdims)
                for p in plan:
                    if p[0] == "sl":
                        c, i = p[4](b[p[1]])
                        cond = X.andb(cond, c)
                        vi[p[2]] = i
                    elif p[0] == "int":
                        cond = X.andb(cond, _ieq(b[p[1]], p[2]))
                if cond is X.FALSE:
                    return base.at(b)
                return X.where(cond, v.at(tuple(vi)), base.at(b))
            return Arr(base.shape, fn)
        return self.mkview(x, fwd, put)

    def adv_index(self, x, items):
        items = self._expand_ellipsis(x, items)
        if any(isinstance(i, T) and i.dtype == "bool" for i in items):
            return self.opaque("mask-index", [x] + [i for i in items if isinstance(i, T)],
                               ["?sel"] + list(x.shape[1:]), x.dtype, x.device, strict=False)
        sh = x.shape
        # ints mixed with tensors act as tensors
        adv = [(p, i) for p, i in enumerate(items) if isinstance(i, (T, int, Sc)) and not isinstance(i, bool)]
        tens = [i for _, i in adv if isinstance(i, T)]
        for t in tens:
            if isfloat(t.dtype):
                raise AbsRaise("IndexError", "tensors used as indices must be long, int, byte or bool tensors", self.m.loc)
            if t.device != x.device and t.device != "cpu" and t.ndim > 0:
                self.m.event("device-mix", op="indexing", devices=(x.device, t.device))
        bs = self.bshape(*[t.shape for t in tens])
        pos = [p for p, _ in adv]
        contiguous = pos == list(range(pos[0], pos[0] + len(pos)))
        outdims, plan, ax = [], [], 0
        advpos = None
        order = []
        for p, it in enumerate(items):
            if isinstance(it, (T, int, Sc)):
                if advpos is None:
                    advpos = len(order)
                    order.append(("adv",))
                plan.append(("adv", ax, it))
                ax += 1
            elif it is None:
                order.append(("new",))
            else:
                nd, mp, inv = self._slice(it, sh[ax])
                order.append(("sl", ax, nd, mp))
                ax += 1
        if not contiguous:
            order = [("adv",)] + [o for o in order if o[0] != "adv"]
        dims, where_ = [], []
        for o in order:
            if o[0] == "adv":
                where_.append(("adv", len(dims)))
                dims.extend(bs)
            elif o[0] == "new":
                dims.append(1)
            else:
                where_.append(("sl", len(dims), o[1], o[3]))
                dims.append(o[2])
        n = len(sh)
        xa = x.arr
        tarrs = [(axx, it.arr if isinstance(it, T) else self.asE(it)) for _, axx, it in plan]

        def fn(i):
            full = [None] * n
            for w in where_:
                if w[0] == "adv":
                    bi = i[w[1]:w[1] + len(bs)]
                    for axx, ta in tarrs:
                        full[axx] = ta.at(self.bidx(ta.shape, bi)) if isinstance(ta, Arr) else ta
                else:
                    full[w[2]] = w[3](i[w[1]])
            return xa.at(tuple(full))
        return self.new(dims, fn, x.dtype, x.device)

    def setitem(self, x, k, v):
        items = list(k) if isinstance(k, tuple) else [k]
        ten = [i for i in items if isinstance(i, T)]
        if any(isinstance(i, Unknown) for i in items) or isinstance(v, Unknown):
            self.m.touch(x, "index assignment")
            x.set_arr(self.opaque("setitem", [x], x.shape, x.dtype, x.device).arr)
            return
        if not ten:
            view = self.basic_index(x, items)
            self.inplace_set(view, v if isinstance(v, T) else self.scalar(v, x.dtype, x.device), "index assignment")
            x.info.pop("table", None)
            x.info.pop("const", None)
            return
        if len(items) == 1 or all(i is Ellipsis or isinstance(i, T) for i in items):
            mk_ = ten[0]
            if len(ten) == 1 and mk_.dtype == "bool":
                if mk_.ndim == x.ndim or (items[0] is not Ellipsis):
                    ext = x.ndim - mk_.ndim
                    ma = mk_.arr
                    vv = v if isinstance(v, T) else self.scalar(v, x.dtype, x.device)
                    if vv.ndim == 0:
                        xa, va = x.arr, vv.arr
                        n = mk_.ndim
                        r = T(Arr(x.shape, lambda i: X.where(ma.at(self.bidx(ma.shape, i[:n])),
                                                             self.conv(va.at(()), vv.dtype, x.dtype), xa.at(i)),
                                  self.m.loc), x.dtype, x.device, self.region())
                        self.inplace_set(x, r, "masked assignment")
                        return
        self.m.touch(x, "index assignment")
        o = self.opaque("setitem", [x] + ten + ([v] if isinstance(v, T) else []), x.shape, x.dtype, x.device)
        x.set_arr(o.arr)

    def scalar(self, v, dtype, device):
        e = self.asE(v)
        if dtype == "bool":
            e = X.tobool(e)
        elif isinstance(v, bool):
            e = X.num(int(v))
        return self.new((), lambda i: self.rnd_const(e, dtype), dtype, device)

    def opaque(self, opname, ins, shape, dtype, device, strict=True, tag=None):
        """result of an operation whose element formula is not modelled"""
        self.m.unsup(f"operation {opname} kept opaque")
        parts = []
        for t in ins:
            if isinstance(t, T):
                vs = tuple(X.namedvar(f"@{d}{k}", d) for k, d in enumerate(t.shape))
                parts.append(X.lam(vs, t.arr.at(vs)))
            elif isinstance(t, E):
                parts.append(t)
        shape = tuple(shape)
        return self.new(shape, lambda i: X.mk("opq", opname, *parts, *i), dtype, device)

    def unbind(self, x, dim=0, seq=False):
        if x.ndim == 0:
            raise AbsRaise("TypeError", "iteration over a 0-d tensor", self.m.loc)
        d = x.shape[self.axis(dim, x.ndim)]
        if not isinstance(d, int):
            if seq:
                w = X.var(d, "it")
                return SymSeq(w, d, self.basic_index(x, [Slice(None, None, None)] * self.axis(dim, x.ndim) + [Sc(w, "int")]),
                              X.TRUE)
            raise Unsupported("iteration over a symbolic dimension")
        return [self.basic_index(x, [Slice(None, None, None)] * self.axis(dim, x.ndim) + [k]) for k in range(d)]

    # ------------------------------------------------------------ reductions
    def redims(self, x, dim):
        n = x.ndim
        if dim is None:
            return list(range(n))
        if isinstance(dim, (tuple, L, list)):
            ds = [self.axis(d, n) for d in (self.m.seq(dim) if not isinstance(dim, list) else dim)]
            return ds or list(range(n))
        if n == 0:
            return []
        return [self.axis(dim, n)]

    def reduce(self, opname, x, dim, keepdim, build, dtype):
        ds = sorted(self.redims(x, dim))
        sh = x.shape
        a, sdt = x.arr, x.dtype
        vs = {d: X.var(sh[d], "r") for d in ds}
        if keepdim:
            out = [1 if k in ds else s for k, s in enumerate(sh)]
        else:
            out = [s for k, s in enumerate(sh) if k not in ds]

        def fn(i):
            full, j = [], 0
            for k in range(len(sh)):
                if k in vs:
                    full.append(X.idxc(0) if sh[k] == 1 else vs[k])
                    if keepdim:
                        j += 1
                else:
                    full.append(i[j])
                    j += 1
            body = self.conv(a.at(tuple(full)), sdt, dtype) if opname in ("sum", "prod", "mean") else a.at(tuple(full))
            for k in reversed(ds):
                if sh[k] != 1:
                    body = build(vs[k], body)
            return self._lowprec(body, dtype)
        return self.new(out, fn, dtype, x.device)

    def _lowprec(self, e, dtype):
        if self.track_round and dtype in ("f32", "f16", "bf16") and X.numval(e) is None:
            return X.mk("fn", "rnd", e)
        return e

    def sum(self, x, dim=None, keepdim=False, dtype=None):
        dt = dtype or (x.dtype if isfloat(x.dtype) else "i64")
        return self.reduce("sum", x, dim, keepdim, lambda v, b: X.reduce_("sum", v, b), dt)

    def extremum(self, kind, x, dim=None, keepdim=False):
        return self.reduce(kind, x, dim, keepdim, lambda v, b: X.reduce_(kind, v, b), x.dtype)

    def argext(self, kind, x, dim, keepdim):
        if dim is None:
            raise Unsupported("flat arg" + kind)
        d = self.axis(dim, x.ndim)
        sh, a = x.shape, x.arr
        v = X.var(sh[d], "r")
        out = [1 if k == d else s for k, s in enumerate(sh)] if keepdim else [s for k, s in enumerate(sh) if k != d]

        def fn(i):
            full = list(i[:d]) + [v] + list(i[d + 1:] if keepdim else i[d:])
            return X.mk("fn", "arg" + kind, X.lam((v,), a.at(tuple(full))))
        return self.new(out, fn, "i64", x.device)

    def anyall(self, kind, x, dim=None, keepdim=False):
        return self.reduce(kind, x, dim, keepdim, lambda v, b: X.reduce_(kind, v, X.tobool(b)), "bool")

    # ----------------------------------------------------------- contraction
    def einsum(self, eq, ops):
        for o in ops:
            if not isinstance(o, T):
                raise Unsupported("einsum operand")
        dts = {o.dtype for o in ops}
        if len(dts) > 1:
            ins, _, res = eq.replace(" ", "").partition("->")
            shared = {c for c in ins if c.isalpha() and sum(c in t for t in ins.split(",")) > 1}
            if not res or shared - set(res):
                # a contraction of different dtypes fails, elementwise products promote
                self.m.event("dtype-mix", op="einsum", dtypes=tuple(sorted(dts)))
                if len(ops) > 2:
                    raise Unsupported("einsum of mixed dtypes")
                raise AbsRaise("RuntimeError", f"einsum: expected operands of equal dtype, got {sorted(dts)}", self.m.loc)
        dev = self.device_of(ops, "einsum", elementwise=False)
        eq = eq.replace(" ", "")
        lhs, _, rhs = eq.partition("->")
        terms = lhs.split(",")
        if len(terms) != len(ops):
            raise AbsRaise("ValueError", "einsum operand count", self.m.loc)
        dims, labs = {}, []
        ell = []
        for t, o in zip(terms, ops):
            if "..." in t:
                pre, post = t.split("...")
                ne = o.ndim - len(pre) - len(post)
                if ne < 0:
                    raise AbsRaise("ValueError", "einsum rank", self.m.loc)
                eshape = o.shape[len(pre):len(pre) + ne]
                ell.append(eshape)
                lab = list(pre) + [("e", k - ne) for k in range(ne)] + list(post)
            else:
                lab = list(t)
                if len(lab) != o.ndim:
                    raise AbsRaise("ValueError", f"einsum rank of '{t}' vs {o.shape}", self.m.loc)
            labs.append(lab)
            for l, d in zip(lab, o.shape):
                if dims.get(l, 1) == 1:
                    dims[l] = d
                elif d != 1 and dims[l] != d:
                    raise AbsRaise("RuntimeError", f"einsum size of {l}: {dims[l]} vs {d}", self.m.loc)
        emax = max((len(e) for e in ell), default=0)
        if not rhs and "->" not in eq:
            flat = [l for lab in labs for l in lab if isinstance(l, str)]
            rl = sorted(l for l in set(flat) if flat.count(l) == 1)
            out = [("e", k - emax) for k in range(emax)] + rl
        else:
            if "..." in rhs:
                pre, post = rhs.split("...")
                out = list(pre) + [("e", k - emax) for k in range(emax)] + list(post)
            else:
                out = list(rhs)
        summed = [l for l in dims if l not in out]
        sv = {l: X.var(dims[l], "e") for l in summed if dims[l] != 1}
        arrs = [o.arr for o in ops]
        dt = promote(*[o.dtype for o in ops])

        def fn(i):
            env = dict(zip(out, i))
            env.update(sv)
            body = X.ONE
            for lab, a in zip(labs, arrs):
                e = a.at(tuple(X.idxc(0) if d == 1 else env[l] for l, d in zip(lab, a.shape)))
                body = X.mul(body, boolnum(e) if dt == "bool" else e)
            for l in reversed(list(sv)):
                body = X.reduce_("sum", sv[l], body)
            return self._lowprec(body, dt)
        return self.new([dims[l] for l in out], fn, dt, dev)

    def matmul(self, a, b):
        if not (isinstance(a, T) and isinstance(b, T)):
            raise AbsRaise("TypeError", "matmul", self.m.loc)
        if a.ndim == 1 and b.ndim == 1:
            return self.einsum("i,i->", [a, b])
        if a.ndim == 1:
            return self.einsum("i,...ij->...j", [a, b])
        if b.ndim == 1:
            return self.einsum("...ij,j->...i", [a, b])
        return self.einsum("...ij,...jk->...ik", [a, b])

    # ------------------------------------------------------------ creation
    def dd(self, kw, like=None, floatdef=True):
        dt = kw.get("dtype")
        dev = kw.get("device")
        dtn = dt.name if isinstance(dt, Dtype) else (like.dtype if like is not None else None)
        if dt is not None and not isinstance(dt, Dtype):
            raise Unsupported("dtype")
        if isinstance(dev, (str,)):
            dev = Device("cpu" if dev.startswith("cpu") else dev)
        if dev is not None and not isinstance(dev, Device):
            raise Unsupported("device")
        devn = dev.tok if dev is not None else (like.device if like is not None else self.m.default_device)
        return dtn, devn

    def filled(self, shape, e, dtype, device):
        c = self.rnd_const(e, dtype) if isfloat(dtype) else (X.tobool(e) if dtype == "bool" else e)
        t = self.new(shape, lambda i: c, dtype, device)
        t.info["const"] = X.numval(c) is not None
        return t

    def tensor_from(self, v, dtype, device, copy=True):
        """torch.tensor / as_tensor of python data"""
        device = device or self.m.default_device
        if isinstance(v, T):
            r = self.to(v, dtype or v.dtype, device if device else v.device)
            a = r.arr
            if copy:
                return self.new(a.shape, lambda i: self.cut(a.at(i)), r.dtype, r.device)
            return r
        if isinstance(v, (bool, int, float, Sc)):
            d = dtype or self.scal_dtype(v)
            e = self.asE(v)
            if d == "bool":
                e = X.tobool(e)
            elif isinstance(v, bool):
                e = X.num(int(v))
            elif d in INTS and isinstance(v, float):
                e = X.num(int(v))
            t = self.new((), lambda i: self.rnd_const(e, d) if isfloat(d) else e, d, device)
            t.info["const"] = not isinstance(v, Sc)
            return t
        if isinstance(v, (L, tuple)):
            nested, shape, flat = self._nested(v)
            if nested is not None:
                if dtype is None:
                    dtype = self.m.default_dtype if any(isinstance(x, float) for x in flat) else \
                        "bool" if flat and all(isinstance(x, bool) for x in flat) else \
                        ("i64" if flat else self.m.default_dtype)
                if dtype == "bool":
                    return self.new(shape, lambda i: X.notb(X.eq(X.num(_pick(nested, i)), X.ZERO)), "bool", device)
                if dtype in INTS:
                    flat = [int(x) for x in flat]
                    nested = _nest(flat, shape)
                if not flat:
                    return self.new(shape, lambda i: X.ZERO, dtype, device)
                return self.literal(nested, shape, dtype, device, flat)
            items = self.m.seq(v)
            if all(isinstance(x, (T, int, float, bool, Sc)) for x in items):
                ts = [x if isinstance(x, T) else self.tensor_from(x, dtype, device) for x in items]
                if all(t.ndim == 0 for t in ts):
                    d = dtype or promote(*[t.dtype for t in ts])
                    arrs = [self.to(t, d, device).arr for t in ts]
                    cut = [isinstance(x, T) for x in items]

                    def fn(i):
                        r = None
                        for k, a in enumerate(arrs):
                            e = self.cut(a.at(())) if cut[k] else a.at(())
                            r = e if r is None else X.where(_ieq(i[0], X.idxc(k)), e, r)
                        return r
                    return self.new((len(ts),), fn, d, device)
        if isinstance(v, Opaque) and v.kind in ("symlist", "ndarray"):
            t = v.data["t"]
            a = v.data["arr"]
            d = dtype or t.dtype
            return self.new(a.shape, lambda i: self.conv(self.cut(a.at(i)), t.dtype, d), d, device)
        if v is None or isinstance(v, (str, Str, Obj)):
            raise AbsRaise("RuntimeError" if not isinstance(v, str) else "TypeError", "torch.tensor", self.m.loc)
        raise Unsupported("torch.tensor of abstract data")

    def _nested(self, v):
        """python nested literal -> (nested lists, shape, flat)"""
        c = getattr(v, "_x", None)
        key = id(v)

        def go(x):
            if isinstance(x, (bool, int, float)):
                return x, ()
            if isinstance(x, (L, tuple)) and not isinstance(x, Shape):
                its = x.items if isinstance(x, L) else x
                sub = [go(y) for y in its]
                if any(s is None for s in sub):
                    return None
                shp = {s[1] for s in sub}
                if len(shp) > 1:
                    return None
                return [s[0] for s in sub], (len(its),) + (next(iter(shp)) if shp else ())
            return None
        r = go(v)
        if r is None:
            return None, None, None
        return r[0], r[1], list(_flat(r[0]))

    # -------------------------------------------------------------- conversion
    def to(self, x, dtype=None, device=None, copy=False):
        dt = dtype or x.dtype
        dv = device or x.device
        if dt == x.dtype and dv == x.device and not copy:
            return x
        a, s = x.arr, x.dtype
        if "table" in x.info and isfloat(dt) and not (self.track_round and RANK[dt] < RANK["f64"]) and not self.m.nograd:
            t = self.new(a.shape, lambda i: a.at(i), dt, dv)
            t.info["table"] = x.info["table"]
            return t
        t = self.new(a.shape, lambda i: self.conv(a.at(i), s, dt), dt, dv)
        if x.info.get("const"):
            t.info["const"] = True
        if self.m.nograd and isfloat(dt) and isfloat(s):
            pass
        return t

    def parse_to(self, x, args, kw):
        dt = kw.get("dtype")
        dv = kw.get("device")
        for a in args:
            if isinstance(a, Dtype):
                dt = a
            elif isinstance(a, Device):
                dv = a
            elif isinstance(a, str):
                dv = Device("cpu" if a.startswith("cpu") else a)
            elif isinstance(a, T):
                dt, dv = Dtype(a.dtype), Device(a.device)
            elif a is None or isinstance(a, bool):
                pass
            else:
                raise Unsupported("to() argument")
        if isinstance(dv, str):
            dv = Device("cpu" if dv.startswith("cpu") else dv)
        if dt is not None and not isinstance(dt, Dtype) or dv is not None and not isinstance(dv, Device):
            raise Unsupported("to() argument")
        return self.to(x, dt.name if dt else None, dv.tok if dv else None, kw.get("copy") is True)

    def tattr(self, x, a):
        if a == "shape":
            return Shape(x.shape)
        if a == "ndim":
            return x.ndim
        if a == "dtype":
            return Dtype(x.dtype)
        if a == "device":
            return Device(x.device)
        if a == "T":
            return self.permute(x, list(range(x.ndim))[::-1])
        if a == "mT" or a == "mH":
            return self.transpose(x, -2, -1)
        if a == "data":
            r = self.detach(x)
            return r
        if a == "is_cuda":
            return x.device not in ("cpu",)
        if a == "requires_grad":
            return Sc(X.leaf("?requires_grad:" + str(x.name or "")), "bool")
        if a in ("grad", "grad_fn", "_version"):
            return Unknown(a)
        if a == "is_leaf":
            return Unknown(a)
        if a == "real":
            return x
        if a == "itemsize":
            return {"f64": 8, "f32": 4, "i64": 8}.get(x.dtype, 4)
        f = self.lib.method(a)
        if f is not None:
            return Native(lambda m, args, kw: f(self, [x] + args, kw), f"Tensor.{a}")
        raise AbsRaise("AttributeError", f"Tensor has no attribute {a}", self.m.loc)

    def detach(self, x):
        return self.mkview(x, lambda a: Arr(a.shape, lambda i: self.cut(a.at(i))), lambda b, v: v)

    def assign_data(self, x, v):
        self.inplace_set(x, v, "assignment to .data")

    # ------------------------------------------------------------- misc ops
    def where(self, c, a, b):
        rt = self.result_type(a, b)
        for o in (c, a, b):
            if isinstance(o, Unknown):
                return Unknown("where", [c, a, b])
        if not isinstance(c, T):
            raise AbsRaise("TypeError", "where condition", self.m.loc)
        dev = self.device_of([x for x in (c, a, b)], "where")
        ca = c.arr
        sa, fa = self.opnd(a, rt)
        sb, fb = self.opnd(b, rt)
        sh = self.bshape(ca.shape, sa, sb)
        low = self.track_round and rt in ("f32", "f16")
        return self.new(sh, lambda i: X.where(ca.at(self.bidx(ca.shape, i)), fa(self.bidx(sa, i)),
                                              fb(self.bidx(sb, i))), rt, dev)

    def stack(self, ts, dim=0):
        if isinstance(ts, SymSeq):
            from . import loops
            return loops.stacked(self.m, ts, dim, True)
        ts = self.m.seq(ts) if not isinstance(ts, list) else ts
        if any(isinstance(t, Unknown) for t in ts):
            raise Unsupported("stack")
        sh = ts[0].shape
        for t in ts:
            if t.shape != sh:
                raise AbsRaise("RuntimeError", "stack expects each tensor to be equal size", self.m.loc)
        d = self.axis(dim, len(sh) + 1)
        dt = promote(*[t.dtype for t in ts])
        dev = self.device_of(ts, "stack", elementwise=False)
        arrs = [(t.arr, t.dtype) for t in ts]

        def fn(i):
            k, rest = i[d], i[:d] + i[d + 1:]
            v = X.numval(k)
            if v is not None:
                a, s = arrs[int(v)]
                return self.conv(a.at(rest), s, dt)
            r = None
            for j, (a, s) in enumerate(arrs):
                e = self.conv(a.at(rest), s, dt)
                r = e if r is None else X.where(_ieq(k, X.idxc(j)), e, r)
            return r
        return self.new(sh[:d] + (len(ts),) + sh[d:], fn, dt, dev)

    def cat_(self, ts, dim=0):
        if isinstance(ts, SymSeq):
            from . import loops
            return loops.stacked(self.m, ts, dim, False)
        ts = self.m.seq(ts) if not isinstance(ts, list) else ts
        if any(isinstance(t, Unknown) for t in ts):
            raise Unsupported("cat")
        if len(ts) == 1:
            return self.to(ts[0], copy=True)
        d = self.axis(dim, ts[0].ndim)
        if not all(isinstance(t.shape[d], int) for t in ts):
            dt = promote(*[t.dtype for t in ts])
            sh = list(ts[0].shape)
            sh[d] = "+".join(str(t.shape[d]) for t in ts)
            return self.opaque("cat", ts, sh, dt, self.device_of(ts, "cat", False))
        dt = promote(*[t.dtype for t in ts])
        dev = self.device_of(ts, "cat", elementwise=False)
        offs, o = [], 0
        for t in ts:
            offs.append(o)
            o += t.shape[d]
        sh = list(ts[0].shape)
        sh[d] = o
        arrs = [(t.arr, t.dtype, t.shape[d]) for t in ts]

        def fn(i):
            v = X.numval(i[d])
            r = None
            for (a, s, n), of in zip(arrs, offs):
                if v is not None:
                    if of <= v < of + n:
                        return self.conv(a.at(i[:d] + (X.idxc(int(v) - of),) + i[d + 1:]), s, dt)
                    continue
                for k in range(n):
                    e = self.conv(a.at(i[:d] + (X.idxc(k),) + i[d + 1:]), s, dt)
                    r = e if r is None else X.where(_ieq(i[d], X.idxc(of + k)), e, r)
            return r
        return self.new(sh, fn, dt, dev)


def _ieq(a, b):
    """index equality"""
    if a is b:
        return X.TRUE
    if a.op == "num" and b.op == "num":
        return X.boolc(a.args[0] == b.args[0])
    return X.eqi(a, b)


_hl: dict = {}


def _has_leaf(e):
    r = _hl.get(e.id)
    if r is None:
        if e.op == "leaf":
            r = e.args[0] not in ("numbers",)
        elif e.op == "opq":
            r = True
        else:
            r = any(_has_leaf(a) for a in X.children(e))
        _hl[e.id] = r
    return r


def _indices(shape):
    if not shape:
        yield ()
        return
    for i in range(shape[0]):
        for r in _indices(shape[1:]):
            yield (i,) + r


def _flat(x):
    if isinstance(x, (list, tuple)):
        for y in x:
            yield from _flat(y)
    else:
        yield x


def _nest(flat, shape):
    if not shape:
        return flat[0]
    if len(shape) == 1:
        return list(flat)
    n = len(flat) // shape[0]
    return [_nest(flat[k * n:(k + 1) * n], shape[1:]) for k in range(shape[0])]


def _pick(nested, i):
    for k in i:
        v = X.numval(k)
        if v is None:
            raise Unsupported("symbolic index into bool literal")
        nested = nested[int(v)]
    return nested


def _exact32(v):
    import struct
    try:
        f = float(v)
        return struct.unpack("f", struct.pack("f", f))[0] == f and Fraction(f) == Fraction(v) if not isinstance(v, float) \
            else struct.unpack("f", struct.pack("f", f))[0] == f
    except (OverflowError, ValueError):
        return False


def _dimint(d):
    if isinstance(d, str) and d.isdigit():
        return int(d)
    return d
