"""Contracts for everything outside the repository: builtins, torch, tad_mctc,
tad_multicharge, tomli, pathlib, functools, inspect.

The contracts of tad_mctc / tad_multicharge functions are the trusted base of
the analysis (they are not part of /repo)."""
from __future__ import annotations

import builtins as _bi
import math as _math
import os
from fractions import Fraction

from . import expr as X
from . import canon as C
from .expr import E
from .values import *
from .torchlib import TLib, NT, boolnum, _ieq, _flat

MISSING = None  # replaced below (shared sentinel of interp)

DTYPES = {"float64": "f64", "double": "f64", "float32": "f32", "float": "f32", "float16": "f16", "half": "f16",
          "bfloat16": "bf16", "int64": "i64", "long": "i64", "int32": "i32", "int": "i32", "int16": "i16",
          "short": "i16", "int8": "i8", "uint8": "u8", "bool": "bool", "complex64": "c64", "complex128": "c128"}

EXC = {n for n in dir(_bi) if isinstance(getattr(_bi, n), type) and issubclass(getattr(_bi, n), BaseException)}

# dependency tables; element 0 (dummy) is zero in all of them
def _row0(idx):
    if idx and any(X.isnum(i, 0) for i in idx):
        return Fraction(0)
    return None


for _n in ("ZEFF", "GAM", "COV_D3", "VDW_PAIRWISE"):
    X.TABLES[_n] = _row0
    C.NONNEG.add(_n)


def native(name):
    def deco(f):
        return Native(f, name)
    return deco


class Lib:
    def __init__(self, m):
        global MISSING
        from .interp import MISSING as MS
        MISSING = MS
        self.m = m
        self.t = TLib(m, self)
        self.OBJECT = Cls("object", [], {}, None)
        self.OBJECT.mro = [self.OBJECT]
        self.OBJECT.epoch = -2
        self.OBJECT.dict["__init__"] = Native(lambda mm, a, k: None, "object.__init__")
        self.OBJECT.dict["__init__"].fn._method = True
        isub = Native(lambda mm, a, k: None, "object.__init_subclass__")
        self.OBJECT.dict["__init_subclass__"] = ClassM(isub)
        sa = Native(lambda mm, a, k: mm.raw_setattr(a[0], a[1], a[2]), "object.__setattr__")
        sa.fn._method = True
        self.OBJECT.dict["__setattr__"] = sa
        self.TENSORLIKE = self.make_tensorlike()
        self.toml_cache = {}
        self.universe = None

    # ---------------------------------------------------------- scalar helpers
    def sce(self, v) -> E:
        if isinstance(v, Sc):
            return v.e
        if isinstance(v, bool):
            return X.boolc(v)
        if isinstance(v, (int, float)):
            return X.num(v)
        if isinstance(v, T) and v.ndim == 0:
            return v.at()
        raise Unsupported(f"scalar expected, got {type(v).__name__}")

    def sc_binop(self, op, a, b):
        k = [("float" if isinstance(x, float) else "int") if not isinstance(x, Sc) else x.kind for x in (a, b)]
        kind = "float" if "float" in k or op == "Div" else "int"
        x, y = [boolnum(X.tobool(e)) if X.isboolish(e) else e for e in (self.sce(a), self.sce(b))]
        if op in ("BitAnd", "BitOr") and all(isinstance(q, bool) or (isinstance(q, Sc) and q.kind == "bool") for q in (a, b)):
            p, q = X.tobool(self.sce(a)), X.tobool(self.sce(b))
            return self.m.mkbool(X.andb(p, q) if op == "BitAnd" else X.orb(p, q))
        f = {"Add": X.add, "Sub": X.sub, "Mult": X.mul, "Div": X.div, "Pow": X.power}.get(op)
        e = f(x, y) if f else X.fn({"FloorDiv": "floordiv", "Mod": "mod"}.get(op, op), x, y)
        v = X.numval(e)
        if v is not None:
            return int(v) if kind == "int" and v.denominator == 1 else float(v)
        return Sc(e, kind)

    def dimval(self, d):
        return d if isinstance(d, int) else Sc(X.mk("dim", d), "int")

    def to_shape(self, v, minus_ok=False):
        out = []
        if isinstance(v, Shape):
            return tuple(v)
        items = self.m.seq(v) if isinstance(v, (tuple, L)) else v
        if len(items) == 1 and isinstance(items[0], (tuple, L)):
            return self.to_shape(items[0], minus_ok)
        for x in items:
            if isinstance(x, bool):
                raise Unsupported("bool dim")
            if isinstance(x, int):
                out.append(x)
            elif isinstance(x, Sc):
                if x.e.op == "dim":
                    out.append(x.e.args[0])
                elif x.e.op == "num":
                    out.append(int(x.e.args[0]))
                elif x.e.op == "mul" and all(a.op in ("dim", "num") for a in x.e.args):
                    out.append("(" + "*".join(str(a.args[0]) for a in x.e.args) + ")")
                else:
                    out.append("<" + X.show(x.e) + ">")
            elif isinstance(x, str):
                out.append(x)
            elif isinstance(x, T) and x.ndim == 0:
                out.append("<" + X.show(x.at(), 4) + ">")
            else:
                raise Unsupported("shape entry")
        return tuple(out)

    def content(self, v):
        return content(v)

    def str_disjoint(self, x, y):
        """strings that can never be equal (generic leaf vs. literal is not)"""
        if x.op == "leaf" and y.op == "leaf" and str(x.args[0]).startswith("str:") and str(y.args[0]).startswith("str:"):
            return x is not y
        def has(z):
            return any(w.op == "call" and w.args[0] == "text" for w in X.walk(z))
        if (has(x) or has(y)) and plain_text(x) and plain_text(y):
            from . import iso
            return iso.key(x) != iso.key(y)
        return False

    # -------------------------------------------------------------- objects
    def new_object(self, cls):
        o = Obj(cls, self.m.epoch)
        return o

    def enum_lookup(self, cls, v):
        if isinstance(v, Obj) and v.cls is cls:
            return v
        for o in cls.enum.values():
            if isinstance(v, (str, int)) and o.attrs["value"] == v:
                return o
        if isinstance(v, (Str, Unknown)):
            raise Unsupported("symbolic enum value")
        raise AbsRaise("ValueError", f"{v!r} is not a valid {cls.name}", self.m.loc)

    def make_tensorlike(self):
        c = Cls("TensorLike", [self.OBJECT], {}, None)
        c.mro = [c, self.OBJECT]
        c.epoch = -2
        DEV, DT = "_TensorLike__device", "_TensorLike__dtype"

        def meth(name):
            def deco(f):
                n = Native(f, f"TensorLike.{name}")
                f._method = True
                c.dict[name] = n
                return f
            return deco

        @meth("__init__")
        def init(m, a, k):
            names = ["device", "dtype"]
            vals = dict(zip(names, a[1:]))
            vals.update(k)
            bad = set(vals) - set(names)
            if bad:
                raise AbsRaise("TypeError", f"unexpected keyword {bad}", m.loc)
            o = a[0]
            d, t = vals.get("device"), vals.get("dtype")
            o.attrs[DEV] = d if d is not None else Device(m.default_device)
            o.attrs[DT] = t if t is not None else Dtype(m.default_dtype)

        def prop(name, f):
            c.dict[name] = Prop(Native(f, name), Native(self._ro, name))
        prop("device", lambda m, a, k: m._getattr(a[0], DEV))
        prop("dtype", lambda m, a, k: m._getattr(a[0], DT))
        prop("dd", lambda m, a, k: D({"device": m._getattr(a[0], DEV), "dtype": m._getattr(a[0], DT)}, m.epoch))
        prop("allowed_dtypes", lambda m, a, k: (Dtype("f16"), Dtype("f32"), Dtype("f64")))
        c.dict["__slots__"] = L(["__device", "__dtype"], -2)

        @meth("override_device")
        def od(m, a, k):
            m.raw_setattr(a[0], DEV, a[1])

        @meth("override_dtype")
        def odt(m, a, k):
            m.raw_setattr(a[0], DT, a[1])

        @meth("_clone_tensorlike")
        def clone(m, a, k):
            o = a[0]
            dev = k.get("device") or m._getattr(o, DEV)
            dt = k.get("dtype") or m._getattr(o, DT)
            n = self.new_object(o.cls)
            for s in m.iterate(m.getattr(o, "__slots__")):
                if s.startswith("__"):
                    continue
                v = m.getattr(o, s)
                if isinstance(v, T):
                    if not (v.device == dev.tok and v.dtype == dt.name):
                        v = self.t.to(v, dt.name, dev.tok)
                elif isinstance(v, Obj) and self.TENSORLIKE in v.cls.mro:
                    v = m.call(m.getattr(v, "to"), [], {"device": dev, "dtype": dt})
                m.setattr(n, s, v)
            m.call(m.getattr(n, "override_device"), [dev], {})
            m.call(m.getattr(n, "override_dtype"), [dt], {})
            slots = self.slot_names(o.cls)
            for kk, v in o.attrs.items():
                if kk not in slots and kk not in (DEV, DT):
                    m.setattr(n, kk, v)
            return n

        @meth("to")
        def to(m, a, k):
            o = a[0]
            vals = dict(zip(["device", "dtype"], a[1:]))
            vals.update(k)
            dev = vals.get("device") or m._getattr(o, DEV)
            dt = vals.get("dtype") or m._getattr(o, DT)
            if dev == m._getattr(o, DEV) and dt == m._getattr(o, DT):
                return o
            if not m.iterate(m.getattr(o, "__slots__")):
                raise AbsRaise("RuntimeError", "The `to` method requires setting `__slots__`", m.loc)
            return m.call(m.getattr(o, "_clone_tensorlike"), [], {"device": dev, "dtype": dt})

        @meth("type")
        def type_(m, a, k):
            return to(m, [a[0]], {"dtype": a[1] if len(a) > 1 else k["dtype"]})

        @meth("cpu")
        def cpu(m, a, k):
            return to(m, [a[0]], {"device": Device("cpu")})
        return c

    def slot_names(self, cls):
        """attributes stored in slots (not in __dict__)"""
        out = set()
        for c in cls.mro:
            s = c.dict.get("__slots__")
            if s is not None:
                out |= {x for x in ([s] if isinstance(s, str) else self.m.iterate(s)) if isinstance(x, str)}
        return out

    def _ro(self, m, a, k):
        raise AbsRaise("AttributeError", "read-only property", m.loc)

    # -------------------------------------------------------------- modules
    def module(self, name):
        return Ext(name)

    def ext_attr(self, o, a):
        n = o.name
        full = f"{n}.{a}"
        if n == "torch" or n.startswith("torch."):
            if n == "torch" and a in DTYPES:
                return Dtype(DTYPES[a])
            if a in ("pi", "e", "inf", "nan") and n == "torch":
                return {"pi": _math.pi, "e": _math.e, "inf": float("inf"), "nan": float("nan")}[a]
            if a in ("Tensor",):
                return Ext("torch.Tensor")
            return Ext(full)
        if n == "math" and a in ("pi", "e", "inf", "tau"):
            return getattr(_math, a)
        if n.startswith("tad_mctc"):
            if a == "TensorLike":
                return self.TENSORLIKE
            if a == "Tensor":
                return Ext("torch.Tensor")
            if a in ("Any", "Literal", "Protocol", "TypedDict", "DD", "overload", "TypeAlias", "Callable"):
                return Ext("typing." + a) if a != "DD" else Ext("typing.TypedDict.DD")
        if n.startswith("enum") and a in ("Enum", "IntEnum", "StrEnum"):
            return Ext("enum." + a)
        if a in ("__name__", "__qualname__"):
            return n.rsplit(".", 1)[-1]
        if a == "__doc__":
            return None
        return Ext(full)

    # --------------------------------------------------------------- builtins
    def builtin(self, n):
        f = BUILTINS.get(n)
        if f is not None:
            return f
        if n in EXC:
            return Ext("builtins." + n)
        if n == "object":
            return self.OBJECT
        if n in ("int", "float", "bool", "str", "list", "dict", "tuple", "set", "type", "frozenset", "bytes", "complex", "slice"):
            return Native(TYPES.get(n, _nosup), n)
        if n == "Ellipsis":
            return Ellipsis
        if n == "NotImplemented":
            return Ext("builtins.NotImplemented")
        if n in ("__name__",):
            return "?"
        if n == "__debug__":
            return True
        return MISSING

    # ---------------------------------------------------------- attribute of py values
    def attr(self, o, a):
        if isinstance(o, NT):
            if a in o.names:
                return o[o.names.index(a)]
        if isinstance(o, (str, Str)):
            f = STR.get(a)
            if f:
                return Native(lambda m, args, kw: f(m, o, args, kw), f"str.{a}")
        if isinstance(o, Shape) and a == "numel":
            return Native(lambda m, args, kw: self.prod(o), "Size.numel")
        if isinstance(o, (tuple, L, S, D, OD, It)):
            f = CONT.get(a)
            if f:
                return Native(lambda m, args, kw: f(m, o, args, kw), f"container.{a}")
            if a in ("__class__",):
                return Native(_nosup, "type")
        if isinstance(o, (int, float, bool, Sc)):
            if a in ("real",):
                return o
            if a == "item":
                return Native(lambda m, args, kw: o, "item")
            if a == "is_integer" and isinstance(o, (int, float)):
                return Native(lambda m, args, kw: float(o).is_integer(), a)
            self.m.noattr(o, a)
        if isinstance(o, Dtype):
            if a == "is_floating_point":
                return isfloat(o.name)
            if a == "itemsize":
                return {"f64": 8, "f32": 4, "f16": 2, "i64": 8}.get(o.name, 4)
            self.m.noattr(o, a)
        if isinstance(o, Device):
            if a == "type":
                return "cpu" if o.tok == "cpu" else Str(X.leaf("device-type:" + o.tok))
            if a == "index":
                return None
        if isinstance(o, Opaque):
            return self.opaque_attr(o, a)
        if o is None or isinstance(o, (int, float)):
            self.m.noattr(o, a)
        if isinstance(o, Native):
            if a == "__name__":
                return o.name
            if a == "__new__":
                return Native(lambda m, args, kw: self.new_object(args[0]), "__new__")
            if a in ("fromkeys",) and o.name == "dict":
                return Native(lambda m, args, kw: D({m.dkey(k): (args[1] if len(args) > 1 else None)
                                                     for k in m.iterate(args[0])}, m.epoch), "fromkeys")
            if o.name == "float" and a == "fromhex":
                raise Unsupported("fromhex")
            self.m.noattr(o, a)
        if isinstance(o, OV):
            return Unknown("method of stored value")
        raise Unsupported(f"attribute {a} of {type(o).__name__}")

    def prod(self, sh):
        r = 1
        e = X.ONE
        for d in sh:
            e = X.mul(e, X.dimsize(d))
        v = X.numval(e)
        return int(v) if v is not None else Sc(e, "int")

    def opaque_attr(self, o, a):
        k = o.kind
        d = o.data
        N = lambda f, n=a: Native(f, n)
        if k == "path":
            if a == "parent":
                p = d["parts"]
                if len(p) == 1 and isinstance(p[0], str):
                    return Opaque("path", parts=(os.path.dirname(p[0]),))
                return Opaque("path", parts=p[:-1])
            if a in ("resolve", "absolute", "expanduser"):
                return N(lambda m, args, kw: o)
            if a in ("is_file", "exists"):
                def isf(m, args, kw):
                    p = self.path_str(o)
                    if p is None:
                        return Sc(X.leaf(f"?exists@{m.loc}"), "bool")
                    return os.path.isfile(p)
                return N(isf)
            if a == "joinpath":
                return N(lambda m, args, kw: Opaque("path", parts=d["parts"] + tuple(args)))
            if a == "open":
                return N(lambda m, args, kw: Opaque("file", path=o))
            if a in ("read_text", "read_bytes"):
                return N(lambda m, args, kw: Opaque("filetext", path=o))
            if a == "with_suffix":
                raise Unsupported("with_suffix")
            if a in ("name", "stem"):
                p = self.path_str(o)
                b = os.path.basename(p) if p else None
                if b is None:
                    raise Unsupported("path name")
                return b if a == "name" else b.rsplit(".", 1)[0]
        if k == "file" and a == "read":
            return N(lambda m, args, kw: Opaque("filetext", path=d["path"]))
        if k == "file" and a in ("close", "__enter__", "__exit__"):
            return N(lambda m, args, kw: o)
        if k == "signature":
            f = d["func"]
            if a == "parameters":
                ar = f.node.args
                items = {}
                pos = [p.arg for p in ar.posonlyargs + ar.args]
                off = len(pos) - len(f.defaults)
                for i, p in enumerate(pos):
                    items[p] = Opaque("param", name=p, default=f.defaults[i - off] if i >= off else Ext("inspect._empty"),
                                      skind="POSITIONAL_OR_KEYWORD")
                if ar.vararg:
                    items[ar.vararg.arg] = Opaque("param", name=ar.vararg.arg, default=Ext("inspect._empty"), skind="VAR_POSITIONAL")
                for p in ar.kwonlyargs:
                    items[p.arg] = Opaque("param", name=p.arg, default=f.kwdefaults.get(p.arg, Ext("inspect._empty")), skind="KEYWORD_ONLY")
                if ar.kwarg:
                    items[ar.kwarg.arg] = Opaque("param", name=ar.kwarg.arg, default=Ext("inspect._empty"), skind="VAR_KEYWORD")
                return D(items, -2)
            if a in ("bind", "bind_partial"):
                def bind(m, args, kw):
                    loc = m.bind(f, args, kw)
                    ar = f.node.args
                    given = set()
                    pos = [p.arg for p in ar.posonlyargs + ar.args]
                    given |= set(pos[:len(args)]) | set(kw)
                    order = [p for p in loc if p in given]
                    return Opaque("bound", full=loc, args=D({p: loc[p] for p in order}, m.epoch))
                return N(bind)
        if k == "param":
            if a == "name":
                return d["name"]
            if a == "default":
                return d["default"]
            if a == "kind":
                return Ext("inspect.Parameter." + d["skind"])
            if a == "empty":
                return Ext("inspect._empty")
        if k == "bound":
            if a == "arguments":
                return d["args"]
            if a == "apply_defaults":
                def ad(m, args, kw):
                    d["args"].items = dict(d["full"])
                return N(ad)
            if a == "args":
                return ()
            if a == "kwargs":
                return d["args"]
        if k == "exc":
            if a == "args":
                return d.get("args", ())
            return Unknown("exc attr")
        if k == "finfo":
            if a in ("eps", "max", "min", "tiny", "smallest_normal", "resolution"):
                op = {"max": "fmax", "min": "fmin", "eps": "eps"}.get(a, "ftiny")
                return Sc(X.mk(op, d["dtype"]), "float")
            if a == "dtype":
                return Dtype(d["dtype"])
            if a == "bits":
                return {"f64": 64, "f32": 32}.get(d["dtype"], 16)
        if k == "warnings":
            return N(lambda m, args, kw: None)
        if k == "symlist":
            return Unknown("method of tensor list", [d["t"]])
        if k == "ndarray":
            t = d["t"]
            if a in ("tolist", "tobytes"):
                return N(lambda m, args, kw: symlist(t, d.get("arr")))
            if a in ("shape", "ndim"):
                return self.t.tattr(t, a)
            return Unknown("ndarray", [t])
        raise Unsupported(f"attribute {a} of {k}")

    def call_opaque(self, o, args, kw):
        m = self.m
        if o.kind in ("nograd", "enablegrad"):
            f = args[0]
            if isinstance(f, (Func, Bound, Cached)):
                def wrapped(mm, a, k):
                    mm.nograd += 1
                    try:
                        return mm.call(f, a, k)
                    finally:
                        mm.nograd -= 1
                w = Native(wrapped, "nograd-wrapped")
                wrapped._method = True
                return w
            return f
        if o.kind == "cachedeco":
            return Cached(args[0])
        if o.kind == "identitydeco":
            return args[0]
        if o.kind == "dataclass":
            if isinstance(args[0], Cls):
                args[0].kind = "dataclass"
            return args[0]
        if o.kind == "opaquefn":
            return o.data["fn"](m, args, kw)
        raise Unsupported(f"call of {o.kind}")

    # ---------------------------------------------------------- data files (TOML)
    def path_str(self, o):
        p = o.data["parts"]
        if all(isinstance(x, str) for x in p):
            return os.path.join(*p)
        return None

    def load_toml(self, o):
        import tomllib
        p = self.path_str(o)
        if p is None:
            raise Unsupported("symbolic file name")
        if p not in self.toml_cache:
            try:
                with open(p, "rb") as f:
                    self.toml_cache[p] = tomllib.load(f)
            except FileNotFoundError:
                raise AbsRaise("FileNotFoundError", p, self.m.loc)
        self.m.event("load-file", path=p)
        r = OD((("file", p),), self.m.epoch, origin=f"contents of {os.path.basename(p)}")
        return r

    def od_data(self, od):
        """concrete data of a mapping when its path is concrete, else None"""
        return self.data_at(od.copyof or od.path)

    def data_at(self, path):
        d = self.toml_cache[path[0][1]]
        for k in path[1:]:
            if not isinstance(k, str) or not isinstance(d, dict) or k not in d:
                return None
            d = d[k]
        return d

    def od_key(self, k):
        if isinstance(k, str):
            return k
        if isinstance(k, Str):
            return k.e
        if isinstance(k, Obj) and k.cls.enum is not None:
            v = k.attrs["value"]
            if any("builtins.str" in c.ext_bases for c in k.cls.mro) and isinstance(v, str):
                return v
        if k is None or isinstance(k, (int, float)):
            return ("const", k)
        if isinstance(k, Unknown):
            return X.leaf(f"?key@{self.m.loc}")
        raise Unsupported("mapping key")

    def od_has(self, od, k):
        k = self.od_key(k)
        if isinstance(k, tuple):
            return False
        if k in od.removed:
            return False
        if k in od.added:
            return True
        d = self.od_data(od)
        if isinstance(k, str) and isinstance(d, dict):
            return k in d
        if isinstance(k, str) and od.copyof is None and not isinstance(d, dict) and all(isinstance(p, str) for p in od.path[1:]):
            return False
        path = od.copyof or od.path
        return X.mk("bfn", "haskey", str(path[0][1]),
                    *[p if isinstance(p, E) else X.leaf("str:" + p) for p in path[1:]],
                    k if isinstance(k, E) else X.leaf("str:" + k))

    def od_get(self, od, k, default=None, hasdef=False):
        h = self.od_has(od, k)
        ok = h if isinstance(h, bool) else self.m.decide(h)
        if not ok:
            if hasdef:
                return default
            raise AbsRaise("KeyError", str(k), self.m.loc)
        kk = self.od_key(k)
        if kk in od.added:
            return od.added[kk]
        if kk in od.kids:
            return od.kids[kk]
        path = (od.copyof or od.path) + (kk,)
        d = self.data_at(path)
        if d is not None and not isinstance(d, dict):
            if isinstance(d, list):
                r = od.kids[kk] = L(d, od.epoch, origin=od.origin)
                return r
            return OV(path) if od.copyof else d
        if d is None and (od.copyof or len(path) - 1 >= 5):
            return OV(path)
        # sub-mapping of the same (possibly cached) data: shares lifetime
        r = od.kids[kk] = OD(path, od.epoch, od.origin)
        return r

    def key_universe(self):
        if self.universe is None:
            u = set()

            def go(d):
                for k, v in d.items():
                    if isinstance(v, dict):
                        go(v)
                    else:
                        u.add(k)
            for d in self.toml_cache.values():
                go(d.get("parameter", {}))
            self.universe = sorted(u)
        return self.universe

    def od_items(self, od):
        d = self.od_data(od)
        if isinstance(d, dict):
            return [(k, self.od_get(od, k)) for k in d if k not in od.removed] + list(od.added.items())
        path = od.copyof or od.path
        return [(k, OV(path + (k,))) for k in self.key_universe() if k not in od.removed] + list(od.added.items())

    def od_copy(self, od):
        r = OD(od.path, self.m.epoch, "fresh copy")
        r.copyof = od.copyof or od.path
        r.removed = set(od.removed)
        r.added = dict(od.added)
        r.kids = dict(od.kids) if od.copyof else od.kids     # a shallow copy shares nested containers
        return r

    def call_od(self, f, args, kw, od):
        """call with **mapping read from file"""
        if isinstance(f, Cls) and any(e.endswith("TypedDict") for c in f.mro for e in c.ext_bases) or \
                isinstance(f, Native) and f.name == "dict":
            r = self.od_copy(od)
            r.added.update(kw)
            return r
        for k, v in self.od_items(od):
            kw.setdefault(k, v)
        return self.m.call(f, args, kw)

    # ------------------------------------------------------------ external calls
    def method(self, a):
        f = METHODS.get(a)
        if f is not None:
            return f
        f = FUNCS.get(a)
        if f is not None:
            return f
        if a.endswith("_") and not a.startswith("_"):
            base = METHODS.get(a[:-1]) or FUNCS.get(a[:-1])
            if base is not None:
                def inplace(tl, args, kw):
                    r = base(tl, args, kw)
                    if isinstance(r, T):
                        tl.inplace_set(args[0], r, f"in-place {a}")
                        return args[0]
                    tl.m.touch(args[0], f"in-place {a}")
                    return r
                return inplace
        return None

    def call_ext(self, f, args, kw):
        n = f.name
        m = self.m
        last = n.rsplit(".", 1)[-1]
        root = n.split(".", 1)[0]
        if root == "builtins":
            if last in EXC:
                return Opaque("exc", etype=last, msg=args[0] if args and isinstance(args[0], str) else "", args=tuple(args))
            raise Unsupported(n)
        if root == "torch":
            if n in TORCH_SPECIAL:
                return TORCH_SPECIAL[n](self.t, args, kw)
            fn = FUNCS.get(last)
            if n.startswith("torch.linalg.") or n.startswith("torch.special.") or n.startswith("torch.nn.functional."):
                fn = FUNCS.get("linalg_" + last) or fn
            if n.startswith("torch.Tensor."):
                fn = self.method(last)
            if fn is None and last.endswith("_"):
                fn = self.method(last)
            if fn is not None:
                if any(isinstance(a, Unknown) for a in args):
                    return Unknown(n, args)
                return fn(self.t, args, kw)
            if last.startswith("set_") or last in ("manual_seed", "use_deterministic_algorithms"):
                m.event("global-write", name=last, module="torch")
                return None
            raise Unsupported(n)
        if root in ("tad_mctc", "tad_multicharge"):
            fn = MCTC.get(last)
            if ".storch" in n or n.startswith("tad_mctc.storch"):
                fn = STORCH.get(last, fn)
            if fn is not None:
                if any(isinstance(a, Unknown) for a in args):
                    return Unknown(n, args)
                return fn(self.t, args, kw, n)
            raise Unsupported(n)
        fn = PYEXT.get(n) or PYEXT_LAST.get(last)
        if fn is not None:
            return fn(m, args, kw)
        raise Unsupported(n)


def _nosup(m, a, k):
    raise Unsupported("builtin")


# ================================================================ torch functions
FUNCS: dict = {}
METHODS: dict = {}
TORCH_SPECIAL: dict = {}


def P(args, kw, names, **defaults):
    out = dict(defaults)
    for n, a in zip(names, args):
        out[n] = a
    for k, v in kw.items():
        if k == "axis":
            k = "dim"
        if k in ("out",) and v is not None:
            raise Unsupported("out=")
        if k not in names and k not in defaults and k not in ("out",):
            raise Unsupported(f"keyword {k}")
        out[k] = v
    return out


def func(*names, method=True):
    def deco(f):
        for n in names:
            FUNCS[n] = f
        return f
    return deco


def methodf(*names):
    def deco(f):
        for n in names:
            METHODS[n] = f
        return f
    return deco


def _need(v):
    if isinstance(v, Unknown):
        raise Unsupported("unknown operand")
    return v


def _tens(tl, v):
    _need(v)
    if isinstance(v, T):
        return v
    if isinstance(v, (int, float, bool, Sc)):
        raise AbsRaise("TypeError", "tensor expected", tl.m.loc)
    raise Unsupported("tensor expected")


def _bin(op):
    def f(tl, args, kw):
        p = P(args, kw, ["input", "other"], alpha=1, rounding_mode=None)
        a, b = _need(p["input"]), _need(p["other"])
        if p["alpha"] != 1:
            b = tl.m.binop("Mult", b, p["alpha"])
        if p["rounding_mode"] is not None:
            return tl.binop("FloorDiv", a, b)
        if not isinstance(a, T) and not isinstance(b, T):
            return tl.m.binop(op, a, b)
        return tl.binop(op, a, b)
    return f


for _names, _op in ((("add",), "Add"), (("sub", "subtract"), "Sub"), (("mul", "multiply"), "Mult"),
                    (("div", "divide", "true_divide"), "Div"), (("matmul", "mm", "bmm", "mv"), "MatMult"),
                    (("floor_divide",), "FloorDiv"), (("remainder", "fmod"), "Mod"),
                    (("bitwise_and",), "BitAnd"), (("bitwise_or",), "BitOr"), (("bitwise_xor",), "BitXor")):
    for _n in _names:
        FUNCS[_n] = _bin(_op)


@func("pow", "float_power")
def _pow(tl, args, kw):
    p = P(args, kw, ["input", "exponent"])
    return tl.binop("Pow", _need(p["input"]), _need(p["exponent"]))


@func("rsub")
def _rsub(tl, args, kw):
    return tl.binop("Sub", args[1], args[0])


def _cmp(op):
    def f(tl, args, kw):
        p = P(args, kw, ["input", "other"])
        return tl.compare(op, _need(p["input"]), _need(p["other"]))
    return f


for _names, _op in ((("eq",), "Eq"), (("ne", "not_equal"), "NotEq"), (("lt", "less"), "Lt"), (("le", "less_equal"), "LtE"),
                    (("gt", "greater"), "Gt"), (("ge", "greater_equal"), "GtE")):
    for _n in _names:
        FUNCS[_n] = _cmp(_op)


def _un(f, same=False, name="un"):
    def g(tl, args, kw):
        p = P(args, kw, ["input"])
        x = _tens(tl, p["input"])
        dt = x.dtype if same else tl.fdtype(x)
        return tl.ew(name, f, [x], dt, dt)
    return g


FUNCS.update({
    "sqrt": _un(X.sqrt, name="sqrt"),
    "rsqrt": _un(lambda x: X.div(X.ONE, X.sqrt(x))),
    "exp": _un(X.exp, name="exp"),
    "exp2": _un(lambda x: X.power(X.num(2), x)),
    "expm1": _un(lambda x: X.sub(X.exp(x), X.ONE)),
    "log": _un(lambda x: X.fn("log", x)),
    "log1p": _un(lambda x: X.fn("log", X.add(x, X.ONE))),
    "log2": _un(lambda x: X.fn("log2", x)),
    "log10": _un(lambda x: X.fn("log10", x)),
    "reciprocal": _un(lambda x: X.div(X.ONE, x)),
    "square": _un(lambda x: X.power(x, X.num(2)), same=True),
    "abs": _un(lambda x: X.fn("abs", x), same=True),
    "absolute": _un(lambda x: X.fn("abs", x), same=True),
    "neg": _un(X.neg, same=True),
    "negative": _un(X.neg, same=True),
    "positive": _un(lambda x: x, same=True),
    "sign": _un(lambda x: X.fn("sign", x), same=True),
    "sgn": _un(lambda x: X.fn("sign", x), same=True),
    "floor": _un(lambda x: X.fn("floor", x), same=True),
    "ceil": _un(lambda x: X.fn("ceil", x), same=True),
    "trunc": _un(lambda x: X.fn("trunc", x), same=True),
    "sigmoid": _un(lambda x: X.fn("sigmoid", x)),
    "tanh": _un(lambda x: X.fn("tanh", x)),
    "erf": _un(lambda x: X.fn("erf", x)),
    "erfc": _un(lambda x: X.sub(X.ONE, X.fn("erf", x))),
    "cos": _un(lambda x: X.fn("cos", x)),
    "sin": _un(lambda x: X.fn("sin", x)),
    "relu": _un(lambda x: X.where(X.lt(X.ZERO, x), x, X.ZERO), same=True),
    "softplus": _un(lambda x: X.fn("softplus", x)),
})


@func("round")
def _round(tl, args, kw):
    p = P(args, kw, ["input", "decimals"], decimals=0)
    x = _tens(tl, p["input"])
    return tl.ew("round", lambda e: X.fn("round", e), [x], x.dtype)


@func("logical_not")
def _lnot(tl, args, kw):
    return tl.ew("not", lambda x: X.notb(X.tobool(x)), [_tens(tl, args[0])], "bool")


@func("bitwise_not")
def _bnot(tl, args, kw):
    return tl.unary("inv", _tens(tl, args[0]))


def _logical(f):
    def g(tl, args, kw):
        p = P(args, kw, ["input", "other"])
        return tl.ew("logical", lambda x, y: f(X.tobool(x), X.tobool(y)), [p["input"], p["other"]], "bool")
    return g


FUNCS["logical_and"] = _logical(X.andb)
FUNCS["logical_or"] = _logical(X.orb)
FUNCS["logical_xor"] = _logical(lambda x, y: X.orb(X.andb(x, X.notb(y)), X.andb(X.notb(x), y)))


def _test(op):
    def g(tl, args, kw):
        x = _tens(tl, args[0])
        if not isfloat(x.dtype):
            return tl.filled(x.shape, X.FALSE, "bool", x.device)
        return tl.ew(op, lambda e: X.mk(op, e) if X.numval(e) is None else X.FALSE, [x], "bool")
    return g


FUNCS["isnan"] = _test("isnan")
FUNCS["isinf"] = _test("isinf")


@func("isposinf", "isneginf")
def _isposinf(tl, args, kw):
    return _test("isinf")(tl, args, kw)


@func("isfinite")
def _isfinite(tl, args, kw):
    x = _tens(tl, args[0])
    if not isfloat(x.dtype):
        return tl.filled(x.shape, X.TRUE, "bool", x.device)
    return tl.ew("isfinite", lambda e: X.andb(X.notb(X.mk("isnan", e)), X.notb(X.mk("isinf", e)))
                 if X.numval(e) is None else X.TRUE, [x], "bool")


@func("nan_to_num")
def _n2n(tl, args, kw):
    p = P(args, kw, ["input", "nan", "posinf", "neginf"], nan=0.0, posinf=None, neginf=None)
    x = _tens(tl, p["input"])
    nan = tl.asE(p["nan"] if p["nan"] is not None else 0.0)
    mx = tl.asE(p["posinf"]) if p["posinf"] is not None else X.mk("fmax", x.dtype)

    def f(e):
        if X.numval(e) is not None:
            return e
        return X.where(X.mk("isnan", e), nan, X.where(X.mk("isinf", e), mx, e))
    return tl.ew("nan_to_num", f, [x], x.dtype)


@func("where")
def _where(tl, args, kw):
    p = P(args, kw, ["condition", "input", "other", "self"])
    if "input" not in p and "self" in p:
        p["input"] = p["self"]
    if "input" not in p:
        raise Unsupported("where(condition)")
    return tl.where(_need(p["condition"]), _need(p["input"]), _need(p["other"]))


@methodf("where")
def _mwhere(tl, args, kw):
    p = P(args, kw, ["self", "condition", "other"])
    return tl.where(_need(p["condition"]), p["self"], _need(p["other"]))


@func("masked_fill")
def _mfill(tl, args, kw):
    p = P(args, kw, ["input", "mask", "value"])
    x = p["input"]
    v = p["value"] if isinstance(p["value"], T) else tl.scalar(p["value"], x.dtype, x.device)
    r = tl.where(p["mask"], v, x)
    return r


@func("clamp", "clip")
def _clamp(tl, args, kw):
    p = P(args, kw, ["input", "min", "max"], min=None, max=None)
    x = _tens(tl, p["input"])
    r = x
    if p["min"] is not None:
        mn = p["min"]
        dt = tl.result_type(x, mn) if isinstance(mn, T) else x.dtype
        r = tl.ew("clamp", lambda a, b: X.where(X.lt(a, b), b, a), [r, mn], dt, dt)
    if p["max"] is not None:
        mx = p["max"]
        dt = tl.result_type(r, mx) if isinstance(mx, T) else r.dtype
        r = tl.ew("clamp", lambda a, b: X.where(X.lt(b, a), b, a), [r, mx], dt, dt)
    return r


@func("clamp_min")
def _clamp_min(tl, args, kw):
    return _clamp(tl, args[:1], {"min": args[1] if len(args) > 1 else kw["min"]})


@func("clamp_max")
def _clamp_max(tl, args, kw):
    return _clamp(tl, args[:1], {"max": args[1] if len(args) > 1 else kw["max"]})


@func("maximum", "fmax")
def _maximum(tl, args, kw):
    a, b = args
    rt = tl.result_type(a, b)
    return tl.ew("maximum", lambda x, y: X.where(X.lt(x, y), y, x), [a, b], rt, rt)


@func("minimum", "fmin")
def _minimum(tl, args, kw):
    a, b = args
    rt = tl.result_type(a, b)
    return tl.ew("minimum", lambda x, y: X.where(X.lt(y, x), y, x), [a, b], rt, rt)


@func("addcmul")
def _addcmul(tl, args, kw):
    p = P(args, kw, ["input", "tensor1", "tensor2"], value=1)
    return tl.binop("Add", p["input"], tl.m.binop("Mult", p["value"], tl.binop("Mult", p["tensor1"], p["tensor2"])))


@func("addcdiv")
def _addcdiv(tl, args, kw):
    p = P(args, kw, ["input", "tensor1", "tensor2"], value=1)
    return tl.binop("Add", p["input"], tl.m.binop("Mult", p["value"], tl.binop("Div", p["tensor1"], p["tensor2"])))


@func("lerp")
def _lerp(tl, args, kw):
    p = P(args, kw, ["input", "end", "weight"])
    return tl.binop("Add", p["input"], tl.m.binop("Mult", p["weight"], tl.binop("Sub", p["end"], p["input"])))


@func("hypot")
def _hypot(tl, args, kw):
    rt = tl.result_type(*args)
    return tl.ew("hypot", lambda x, y: X.sqrt(X.add(X.power(x, X.num(2)), X.power(y, X.num(2)))), args, rt, rt)


# reductions
@func("sum", "nansum")
def _sum(tl, args, kw):
    p = P(args, kw, ["input", "dim", "keepdim", "dtype"], dim=None, keepdim=False, dtype=None)
    x = _tens(tl, p["input"])
    return tl.sum(x, p["dim"], p["keepdim"] is True, p["dtype"].name if p["dtype"] else None)


@func("mean", "nanmean")
def _mean(tl, args, kw):
    p = P(args, kw, ["input", "dim", "keepdim", "dtype"], dim=None, keepdim=False, dtype=None)
    x = _tens(tl, p["input"])
    s = tl.sum(x, p["dim"], p["keepdim"] is True, p["dtype"].name if p["dtype"] else None)
    n = X.ONE
    for d in tl.redims(x, p["dim"]):
        n = X.mul(n, X.dimsize(x.shape[d]))
    return tl.ew("mean", lambda a: X.div(a, n), [s], s.dtype, s.dtype)


@func("prod")
def _prod(tl, args, kw):
    p = P(args, kw, ["input", "dim", "keepdim", "dtype"], dim=None, keepdim=False, dtype=None)
    x = _tens(tl, p["input"])
    ds = tl.redims(x, p["dim"])
    if all(isinstance(x.shape[d], int) for d in ds) and len(ds) == 1 and x.shape[ds[0]] <= 8:
        d = ds[0]
        parts = [tl.basic_index(x, [Slice(None, None, None)] * d + [k]) for k in range(x.shape[d])]
        r = parts[0]
        for q in parts[1:]:
            r = tl.binop("Mult", r, q)
        return tl.unsqueeze(r, d) if p["keepdim"] is True else r
    return tl.reduce("prod", x, p["dim"], p["keepdim"] is True, lambda v, b: X.reduce_("prod", v, b), x.dtype)


@func("max")
def _max(tl, args, kw):
    return _ext(tl, args, kw, "max")


@func("min")
def _min(tl, args, kw):
    return _ext(tl, args, kw, "min")


def _ext(tl, args, kw, kind):
    if len(args) > 1 and isinstance(args[1], T) or isinstance(kw.get("other"), T):
        o = args[1] if len(args) > 1 else kw["other"]
        return (_maximum if kind == "max" else _minimum)(tl, [args[0], o], {})
    p = P(args, kw, ["input", "dim", "keepdim"], dim=None, keepdim=False)
    x = _tens(tl, p["input"])
    v = tl.extremum(kind, x, p["dim"], p["keepdim"] is True)
    if p["dim"] is None:
        return v
    return NT((v, tl.argext(kind, x, p["dim"], p["keepdim"] is True)))


@func("amax")
def _amax(tl, args, kw):
    p = P(args, kw, ["input", "dim", "keepdim"], dim=None, keepdim=False)
    return tl.extremum("max", _tens(tl, p["input"]), p["dim"], p["keepdim"] is True)


@func("amin")
def _amin(tl, args, kw):
    p = P(args, kw, ["input", "dim", "keepdim"], dim=None, keepdim=False)
    return tl.extremum("min", _tens(tl, p["input"]), p["dim"], p["keepdim"] is True)


@func("argmax")
def _argmax(tl, args, kw):
    p = P(args, kw, ["input", "dim", "keepdim"], dim=None, keepdim=False)
    return tl.argext("max", _tens(tl, p["input"]), p["dim"], p["keepdim"] is True)


@func("argmin")
def _argmin(tl, args, kw):
    p = P(args, kw, ["input", "dim", "keepdim"], dim=None, keepdim=False)
    return tl.argext("min", _tens(tl, p["input"]), p["dim"], p["keepdim"] is True)


@func("any")
def _any(tl, args, kw):
    p = P(args, kw, ["input", "dim", "keepdim"], dim=None, keepdim=False)
    return tl.anyall("any", _tens(tl, p["input"]), p["dim"], p["keepdim"] is True)


@func("all")
def _all(tl, args, kw):
    p = P(args, kw, ["input", "dim", "keepdim"], dim=None, keepdim=False)
    return tl.anyall("all", _tens(tl, p["input"]), p["dim"], p["keepdim"] is True)


@func("count_nonzero")
def _cnz(tl, args, kw):
    p = P(args, kw, ["input", "dim"], dim=None)
    x = _tens(tl, p["input"])
    b = tl.ew("nz", lambda e: X.tobool(e), [x], "bool")
    return tl.sum(b, p["dim"])


@func("norm", "linalg_norm", "linalg_vector_norm")
def _norm(tl, args, kw):
    names = ["input", "p", "dim", "keepdim"]
    kw = dict(kw)
    if "ord" in kw:
        kw["p"] = kw.pop("ord")
    p = P(args, kw, names, p=2, dim=None, keepdim=False, dtype=None)
    if p["p"] not in (2, 2.0, "fro", None):
        raise Unsupported("norm order")
    x = _tens(tl, p["input"])
    sq = tl.ew("square", lambda e: X.power(e, X.num(2)), [x], x.dtype)
    s = tl.sum(sq, p["dim"], p["keepdim"] is True)
    # sub-gradient of the norm at zero is zero in torch: not singular
    return tl.ew("norm", lambda e: X.ssqrt(e), [s], s.dtype)


@func("logsumexp")
def _lse(tl, args, kw):
    p = P(args, kw, ["input", "dim", "keepdim"], keepdim=False)
    e = FUNCS["exp"](tl, [p["input"]], {})
    return FUNCS["log"](tl, [tl.sum(e, p["dim"], p["keepdim"] is True)], {})


@func("softmax", "linalg_softmax")
def _softmax(tl, args, kw):
    p = P(args, kw, ["input", "dim", "dtype"], dtype=None)
    x = p["input"]
    e = FUNCS["exp"](tl, [x], {})
    return tl.binop("Div", e, tl.sum(e, p["dim"], True))


# contraction
@func("einsum")
def _einsum(tl, args, kw):
    eq = args[0]
    ops = list(args[1:])
    if len(ops) == 1 and isinstance(ops[0], (tuple, L)):
        ops = tl.m.seq(ops[0])
    if not isinstance(eq, str):
        raise Unsupported("einsum equation")
    for o in ops:
        _need(o)
    return tl.einsum(eq, ops)


@func("dot", "inner", "vdot")
def _dot(tl, args, kw):
    return tl.einsum("...i,...i->...", [args[0], args[1]])


@func("outer", "ger")
def _outer(tl, args, kw):
    return tl.binop("Mult", tl.unsqueeze(args[0], -1), tl.unsqueeze(args[1], 0))


@func("tensordot")
def _tdot(tl, args, kw):
    raise Unsupported("tensordot")


@func("cross", "linalg_cross")
def _cross(tl, args, kw):
    raise Unsupported("cross")


def dist_leaf(tl, x, y, opname, safe=True, p=2):
    """pair distances of two coordinate tensors"""
    pn = p
    if not isinstance(p, (int, float)) or p <= 0 or p == float("inf"):
        raise Unsupported("cdist p")
    if x.shape[-1] != y.shape[-1]:
        raise AbsRaise("RuntimeError", "cdist", tl.m.loc)
    dev = tl.device_of([x, y], opname, elementwise=False)
    if x.dtype != y.dtype:
        tl.m.event("dtype-mix", op=opname, dtypes=(x.dtype, y.dtype))
    xa, ya = x.arr, y.arr
    d = x.shape[-1]
    v = X.var(d, "c")
    sh = tl.bshape(x.shape[:-2], y.shape[:-2]) + (x.shape[-2], y.shape[-2])

    def fn(i):
        b, p, q = i[:-2], i[-2], i[-1]
        ex = xa.at(tl.bidx(xa.shape[:-2], b) + (p, v))
        ey = ya.at(tl.bidx(ya.shape[:-2], b) + (q, v))
        # exact recognition of plain coordinates
        if pn != 2:
            s = X.reduce_("sum", v, X.power(X.fn("abs", X.sub(ex, ey)), X.num(pn)))
            return X.power(s, X.num(1 / X.to_frac(pn)))
        if ex.op == "leaf" and ey.op == "leaf" and ex.args[0] == ey.args[0] and ex.args[0].startswith("positions") \
                and ex.args[1:-2] == ey.args[1:-2]:
            nm = "dist" if safe else "udist"
            return X.leaf_norm([nm + ex.args[0][9:] if False else nm, *([X.leaf(ex.args[0])] if ex.args[0] != "positions" else []),
                                *ex.args[1:-2], ex.args[-2], ey.args[-2]])
        df = X.power(X.sub(ex, ey), X.num(2))
        s = X.reduce_("sum", v, df)
        return X.ssqrt(s) if safe else X.sqrt(s)
    r = tl.new(sh, lambda i: tl._lowprec(fn(i), x.dtype), x.dtype, dev)
    return r


@func("cdist")
def _cdist(tl, args, kw):
    p = P(args, kw, ["x1", "x2", "p", "compute_mode"], p=2, compute_mode=None)
    # torch.cdist has a zero sub-gradient at coinciding points but the value 0
    return dist_leaf(tl, p["x1"], p["x2"], "cdist", safe=True, p=p["p"])


# creation
@func("tensor", "asarray")
def _tensor(tl, args, kw):
    p = P(args, kw, ["data"], dtype=None, device=None, requires_grad=False, pin_memory=False)
    dt, dev = tl.dd({"dtype": p["dtype"], "device": p["device"]})
    return tl.tensor_from(_need(p["data"]), dt, dev)


@func("as_tensor")
def _as_tensor(tl, args, kw):
    p = P(args, kw, ["data", "dtype", "device"], dtype=None, device=None)
    v = _need(p["data"])
    if isinstance(v, T):
        return tl.parse_to(v, [], {"dtype": p["dtype"], "device": p["device"]})
    dt, dev = tl.dd({"dtype": p["dtype"], "device": p["device"]})
    return tl.tensor_from(v, dt, dev)


FUNCS["from_numpy"] = lambda tl, args, kw: tl.tensor_from(args[0], None, "cpu")


@func("scalar_tensor")
def _scalar_tensor(tl, args, kw):
    return _tensor(tl, args, kw)


def _sizes(tl, args):
    if len(args) == 1 and isinstance(args[0], (tuple, L)):
        return tl.lib.to_shape(args[0])
    return tl.lib.to_shape(tuple(args))


def _filledf(e):
    def f(tl, args, kw):
        kw = dict(kw)
        size = kw.pop("size", None)
        dt, dev = tl.dd(kw)
        sh = tl.lib.to_shape(size) if size is not None else _sizes(tl, args)
        return tl.filled(sh, e, dt or tl.m.default_dtype, dev)
    return f


FUNCS["zeros"] = _filledf(X.ZERO)
FUNCS["ones"] = _filledf(X.ONE)
FUNCS["empty"] = lambda tl, args, kw: _uninit(tl, args, kw)


def _uninit(tl, args, kw):
    kw = dict(kw)
    dt, dev = tl.dd(kw)
    sh = _sizes(tl, args)
    k = X.leaf(f"?uninit@{tl.m.loc}")
    return tl.new(sh, lambda i: k, dt or tl.m.default_dtype, dev)


@func("full")
def _full(tl, args, kw):
    kw = dict(kw)
    p = P(args, kw, ["size", "fill_value"], dtype=None, device=None, requires_grad=False)
    v = _need(p["fill_value"])
    dt, dev = tl.dd({"dtype": p["dtype"], "device": p["device"]})
    if dt is None:
        dt = v.dtype if isinstance(v, T) else tl.scal_dtype(v)
    e = tl.cut(v.at()) if isinstance(v, T) else tl.asE(v)
    if X.isboolish(e) and dt != "bool":
        e = boolnum(e)
    return tl.filled(tl.lib.to_shape(p["size"]), e, dt, dev)


def _like(e):
    def f(tl, args, kw):
        x = _tens(tl, args[0])
        kw = dict(kw)
        kw.pop("memory_format", None)
        dt, dev = tl.dd(kw, like=x)
        return tl.filled(x.shape, e, dt, dev)
    return f


FUNCS["zeros_like"] = _like(X.ZERO)
FUNCS["ones_like"] = _like(X.ONE)


@func("empty_like")
def _empty_like(tl, args, kw):
    x = args[0]
    dt, dev = tl.dd(kw, like=x)
    k = X.leaf(f"?uninit@{tl.m.loc}")
    return tl.new(x.shape, lambda i: k, dt, dev)


@func("full_like")
def _full_like(tl, args, kw):
    p = P(args, kw, ["input", "fill_value"], dtype=None, device=None)
    x = p["input"]
    dt, dev = tl.dd({"dtype": p["dtype"], "device": p["device"]}, like=x)
    v = p["fill_value"]
    e = tl.cut(v.at()) if isinstance(v, T) else tl.asE(v)
    return tl.filled(x.shape, e, dt, dev)


def _newf(e):
    def f(tl, args, kw):
        x = args[0]
        kw = dict(kw)
        if "size" in kw:
            args = [x, kw.pop("size")]
        dt, dev = tl.dd(kw, like=x)
        return tl.filled(_sizes(tl, args[1:]), e, dt, dev)
    return f


METHODS["new_zeros"] = _newf(X.ZERO)
METHODS["new_ones"] = _newf(X.ONE)


@methodf("new_full")
def _new_full(tl, args, kw):
    p = P(args, kw, ["self", "size", "fill_value"], dtype=None, device=None)
    dt, dev = tl.dd({"dtype": p["dtype"], "device": p["device"]}, like=p["self"])
    v = p["fill_value"]
    return tl.filled(tl.lib.to_shape(p["size"]), v.at() if isinstance(v, T) else tl.asE(v), dt, dev)


@methodf("new_tensor")
def _new_tensor(tl, args, kw):
    p = P(args, kw, ["self", "data"], dtype=None, device=None, requires_grad=False)
    dt, dev = tl.dd({"dtype": p["dtype"], "device": p["device"]}, like=p["self"])
    return tl.tensor_from(_need(p["data"]), dt, dev)


@func("arange", "range")
def _arange(tl, args, kw):
    kw = dict(kw)
    dt, dev = tl.dd({"dtype": kw.pop("dtype", None), "device": kw.pop("device", None)})
    p = dict(zip(["start", "end", "step"], args)) if len(args) > 1 else {"start": 0, "end": args[0] if args else kw["end"]}
    p.update(kw)
    st, en, sp = p.get("start", 0), p["end"], p.get("step", 1)
    if dt is None:
        dt = tl.m.default_dtype if any(isinstance(x, float) for x in (st, en, sp)) else "i64"
    if isinstance(st, (int, float)) and isinstance(en, (int, float)):
        import math
        n = max(0, math.ceil((en - st) / sp))
        t = tl.new((n,), lambda i: X.add(X.mul(i[0], X.num(sp)), X.num(st)), dt, dev)
        t.info["const"] = True
        return t
    if st == 0 and sp == 1:
        sh = tl.lib.to_shape((en,))
        return tl.new(sh, lambda i: X.mk("ival", i[0]) if i[0].op == "var" else i[0], dt, dev)
    raise Unsupported("arange")


@func("linspace")
def _linspace(tl, args, kw):
    raise Unsupported("linspace")


@func("eye")
def _eye(tl, args, kw):
    kw = dict(kw)
    dt, dev = tl.dd({"dtype": kw.pop("dtype", None), "device": kw.pop("device", None)})
    sh = tl.lib.to_shape(tuple(args[:2]) if len(args) > 1 else (args[0], args[0]))
    dt = dt or tl.m.default_dtype

    def fn(i):
        c = _ieq(i[0], i[1])
        return c if dt == "bool" else boolnum(c)
    return tl.new(sh, fn, dt, dev)


def _tri(kind):
    def f(tl, args, kw):
        p = P(args, kw, ["input", "diagonal"], diagonal=0)
        x = _tens(tl, p["input"])
        k = p["diagonal"]
        if not isinstance(k, int):
            raise Unsupported("triu diagonal")
        a = x.arr
        z = X.FALSE if x.dtype == "bool" else X.ZERO

        def fn(i):
            r, c = i[-2], i[-1]
            # triu keeps c - r >= k ; tril keeps c - r <= k
            keep = ilt(r, c, k) if kind == "u" else X.notb(ilt(r, c, k + 1))
            return X.where(keep, a.at(i), z)
        return tl.new(x.shape, fn, x.dtype, x.device)
    return f


def ilt(r, c, k):
    """index comparison c - r >= k"""
    vr, vc = X.numval(r), X.numval(c)
    if vr is not None and vc is not None:
        return X.boolc(vc - vr >= k)
    if r is c:
        return X.boolc(0 >= k)
    return X.mk("bfn", "ige", r, c, k)


FUNCS["triu"] = _tri("u")
FUNCS["tril"] = _tri("l")


@func("diag_embed")
def _diag_embed(tl, args, kw):
    p = P(args, kw, ["input", "offset", "dim1", "dim2"], offset=0, dim1=-2, dim2=-1)
    x = p["input"]
    if p["offset"] != 0:
        raise Unsupported("diag_embed offset")
    n = x.ndim + 1
    a, b = tl.axis(p["dim1"], n), tl.axis(p["dim2"], n)
    d = x.shape[-1]
    rest = list(x.shape[:-1])
    sh = []
    for k in range(n):
        sh.append(d if k in (a, b) else rest.pop(0))
    xa = x.arr
    z = X.FALSE if x.dtype == "bool" else X.ZERO

    def fn(i):
        r = tuple(v for k, v in enumerate(i) if k not in (a, b))
        return X.where(_ieq(i[a], i[b]), xa.at(r + (i[a],)), z)
    return tl.new(sh, fn, x.dtype, x.device)


@func("diagonal", "linalg_diagonal")
def _diagonal(tl, args, kw):
    p = P(args, kw, ["input", "offset", "dim1", "dim2"], offset=0, dim1=0, dim2=1)
    return tl.diagonal(p["input"], p["offset"], p["dim1"], p["dim2"])


@func("diag")
def _diag(tl, args, kw):
    x = args[0]
    return tl.diagonal(x) if x.ndim == 2 else _diag_embed(tl, [x], {})


@func("trace")
def _trace(tl, args, kw):
    return tl.sum(tl.diagonal(args[0]))


# shapes
@func("unsqueeze")
def _unsq(tl, args, kw):
    p = P(args, kw, ["input", "dim"])
    return tl.unsqueeze(_tens(tl, p["input"]), p["dim"])


@func("squeeze")
def _sq(tl, args, kw):
    p = P(args, kw, ["input", "dim"], dim=None)
    return tl.squeeze(_tens(tl, p["input"]), p["dim"])


@func("transpose", "swapaxes", "swapdims")
def _tr(tl, args, kw):
    p = P(args, kw, ["input", "dim0", "dim1"])
    return tl.transpose(_tens(tl, p["input"]), p["dim0"], p["dim1"])


@func("t")
def _t(tl, args, kw):
    return tl.permute(args[0], list(range(args[0].ndim))[::-1])


@func("permute")
def _perm(tl, args, kw):
    d = args[1:] if len(args) > 1 else [kw["dims"]]
    if len(d) == 1 and isinstance(d[0], (tuple, L)):
        d = tl.m.seq(d[0])
    return tl.permute(args[0], list(d))


@func("movedim", "moveaxis")
def _movedim(tl, args, kw):
    p = P(args, kw, ["input", "source", "destination"])
    x = p["input"]
    s, d = tl.axis(p["source"], x.ndim), tl.axis(p["destination"], x.ndim)
    perm = [k for k in range(x.ndim) if k != s]
    perm.insert(d, s)
    return tl.permute(x, perm)


@methodf("expand")
def _expand(tl, args, kw):
    return tl.expand(args[0], tuple(args[1:]) if len(args) != 2 or not isinstance(args[1], (tuple, L)) else args[1])


@methodf("expand_as")
def _expand_as(tl, args, kw):
    return tl.expand(args[0], Shape(args[1].shape))


@func("broadcast_to")
def _bto(tl, args, kw):
    return tl.expand(args[0], args[1] if len(args) > 1 else kw["size"])


@func("broadcast_tensors")
def _bts(tl, args, kw):
    sh = tl.bshape(*[a.shape for a in args])
    return tuple(tl.expand(a, Shape(sh)) for a in args)


@func("broadcast_shapes")
def _bsh(tl, args, kw):
    return Shape(tl.bshape(*[tl.lib.to_shape(a) for a in args]))


@func("reshape", "view", "unsafe_view")
def _reshape(tl, args, kw):
    x = args[0]
    rest = args[1:] or [kw["shape"]]
    if len(rest) == 1 and isinstance(rest[0], Dtype):
        raise Unsupported("view(dtype)")
    return tl.reshape(x, tuple(rest) if not (len(rest) == 1 and isinstance(rest[0], (tuple, L))) else rest[0])


@methodf("view_as", "reshape_as")
def _view_as(tl, args, kw):
    return tl.reshape(args[0], Shape(args[1].shape))


@func("flatten", "ravel")
def _flatten(tl, args, kw):
    p = P(args, kw, ["input", "start_dim", "end_dim"], start_dim=0, end_dim=-1)
    x = p["input"]
    s, e = tl.axis(p["start_dim"], x.ndim), tl.axis(p["end_dim"], x.ndim)
    if s == e:
        return x
    sh = list(x.shape)
    return tl.reshape(x, Shape(tuple(sh[:s]) + (-1,) + tuple(sh[e + 1:])))


@func("unflatten")
def _unflatten(tl, args, kw):
    p = P(args, kw, ["input", "dim", "sizes"])
    x = p["input"]
    d = tl.axis(p["dim"], x.ndim)
    return tl.reshape(x, Shape(tuple(x.shape[:d]) + tl.lib.to_shape(p["sizes"]) + tuple(x.shape[d + 1:])))


@func("stack")
def _stack(tl, args, kw):
    p = P(args, kw, ["tensors", "dim"], dim=0)
    return tl.stack(p["tensors"], p["dim"])


@func("cat", "concat", "concatenate")
def _cat(tl, args, kw):
    p = P(args, kw, ["tensors", "dim"], dim=0)
    return tl.cat_(p["tensors"], p["dim"])


@func("unbind")
def _unbind(tl, args, kw):
    p = P(args, kw, ["input", "dim"], dim=0)
    r = tl.unbind(p["input"], p["dim"], seq=True)
    return r if isinstance(r, SymSeq) else tuple(r)


@func("select")
def _select(tl, args, kw):
    p = P(args, kw, ["input", "dim", "index"])
    x = p["input"]
    return tl.basic_index(x, [Slice(None, None, None)] * tl.axis(p["dim"], x.ndim) + [p["index"]])


@func("narrow")
def _narrow(tl, args, kw):
    p = P(args, kw, ["input", "dim", "start", "length"])
    x = p["input"]
    return tl.basic_index(x, [Slice(None, None, None)] * tl.axis(p["dim"], x.ndim) +
                          [Slice(p["start"], tl.m.binop("Add", p["start"], p["length"]), None)])


@func("index_select")
def _isel(tl, args, kw):
    p = P(args, kw, ["input", "dim", "index"])
    x = p["input"]
    return tl.adv_index(x, [Slice(None, None, None)] * tl.axis(p["dim"], x.ndim) + [p["index"]])


@func("take_along_dim", "gather")
def _gather(tl, args, kw):
    if "indices" in kw:
        p = P(args, kw, ["input", "indices", "dim"])
        x, d, ix = p["input"], p["dim"], p["indices"]
    else:
        p = P(args, kw, ["input", "dim", "index"], sparse_grad=False)
        x, d, ix = p["input"], p["dim"], p["index"]
        if isinstance(d, T):
            x, ix, d = args[0], args[1], args[2]
    d = tl.axis(d, x.ndim)
    xa, ia = x.arr, ix.arr
    return tl.new(ix.shape, lambda i: xa.at(i[:d] + (ia.at(i),) + i[d + 1:]), x.dtype, x.device)


@func("tile", "repeat")
def _repeat(tl, args, kw):
    x = args[0]
    reps = args[1:]
    if len(reps) == 1 and isinstance(reps[0], (tuple, L)):
        reps = tl.m.seq(reps[0])
    n = max(len(reps), x.ndim)
    reps = [1] * (n - len(reps)) + list(reps)
    y = x
    while y.ndim < n:
        y = tl.unsqueeze(y, 0)
    sh = []
    for d, r in zip(y.shape, reps):
        if isinstance(r, int) and r == 1:
            sh.append(d)
        elif d == 1:
            sh.append(tl.lib.to_shape((r,))[0])
        else:
            raise Unsupported("repeat of extended dim")
    a = y.arr
    return tl.new(sh, lambda i: a.at(tl.bidx(a.shape, i)), x.dtype, x.device)


@func("meshgrid")
def _meshgrid(tl, args, kw):
    raise Unsupported("meshgrid")


@methodf("size")
def _size(tl, args, kw):
    x = args[0]
    d = args[1] if len(args) > 1 else kw.get("dim")
    if d is None:
        return Shape(x.shape)
    return tl.lib.dimval(x.shape[tl.axis(d, x.ndim)])


@methodf("dim", "ndimension")
def _dim(tl, args, kw):
    return args[0].ndim


@func("numel")
@methodf("numel", "nelement", "__len__")
def _numel(tl, args, kw):
    return tl.lib.prod(args[0].shape)


@methodf("__len__")
def _len(tl, args, kw):
    return tl.lib.dimval(args[0].shape[0])


# order-dependent or unmodelled: opaque
def _opaquef(name, shape=None, pair=False):
    def f(tl, args, kw):
        ts = [a for a in args if isinstance(a, T)]
        if isinstance(args[0], (tuple, L)):
            ts = [a for a in tl.m.seq(args[0]) if isinstance(a, T)]
        x = ts[0]
        r = tl.opaque("order:" + name, ts, x.shape, x.dtype, x.device)
        if pair:
            return NT((r, tl.opaque("order:arg" + name, ts, x.shape, "i64", x.device)))
        return r
    return f


for _n in ("cumsum", "cumprod", "flip", "roll", "fliplr", "flipud", "rot90"):
    FUNCS[_n] = _opaquef(_n)
for _n in ("sort", "topk", "cummax", "cummin"):
    FUNCS[_n] = _opaquef(_n, pair=True)
FUNCS["argsort"] = _opaquef("argsort")


@func("rand_like", "randn_like", "normal", "rand", "randn", "randperm", "randint", "bernoulli", "dropout")
def _rand(tl, args, kw):
    tl.m.event("random")
    tl.m.rng += 1
    x = args[0] if args and isinstance(args[0], T) else None
    sh = x.shape if x is not None else _sizes(tl, args)
    k = X.leaf(f"?random{tl.m.rng}")
    return tl.new(sh, lambda i: k, x.dtype if x is not None else tl.m.default_dtype, x.device if x is not None else "cpu")


# conversion / misc methods
METHODS["to"] = lambda tl, args, kw: tl.parse_to(args[0], args[1:], kw)


@methodf("type")
def _type(tl, args, kw):
    d = args[1] if len(args) > 1 else kw.get("dtype")
    if not isinstance(d, Dtype):
        raise Unsupported("type()")
    return tl.to(args[0], d.name)


METHODS["type_as"] = lambda tl, args, kw: tl.to(args[0], args[1].dtype, args[1].device)
for _n, _d in (("double", "f64"), ("float", "f32"), ("half", "f16"), ("long", "i64"), ("int", "i32"), ("bool", "bool"),
               ("bfloat16", "bf16"), ("short", "i16"), ("char", "i8")):
    METHODS[_n] = (lambda d: lambda tl, args, kw: tl.to(args[0], d))(_d)
METHODS["cpu"] = lambda tl, args, kw: tl.to(args[0], None, "cpu")
METHODS["cuda"] = lambda tl, args, kw: tl.to(args[0], None, "cuda")
for _n in ("contiguous", "requires_grad_", "retain_grad", "view_as_real", "resolve_conj", "share_memory_"):
    METHODS[_n] = lambda tl, args, kw: args[0]


@func("clone")
def _clone(tl, args, kw):
    return tl.to(_tens(tl, args[0]), copy=True)


@func("detach")
def _detach(tl, args, kw):
    return tl.detach(args[0])


@methodf("detach_")
def _detach_(tl, args, kw):
    x = args[0]
    a = x.arr
    x.set_arr(Arr(a.shape, lambda i: tl.cut(a.at(i)), tl.m.loc))
    return x


@methodf("item", "__float__", "__int__", "__index__")
def _item(tl, args, kw):
    x = args[0]
    if x.ndim and not all(d == 1 for d in x.shape):
        raise AbsRaise("RuntimeError" if not any(isinstance(d, str) for d in x.shape) else "RuntimeError",
                       "a Tensor with more than one element cannot be converted to Scalar", tl.m.loc)
    e = x.arr.at([X.idxc(0)] * x.ndim)
    v = X.numval(e)
    if x.dtype == "bool":
        return tl.m.mkbool(e)
    if v is not None:
        return float(v) if isfloat(x.dtype) else int(v)
    return Sc(tl.cut(e), "float" if isfloat(x.dtype) else "int")


@methodf("tolist")
def _tolist(tl, args, kw):
    x = args[0]
    if x.ndim == 0:
        return _item(tl, args, kw)
    if all(isinstance(d, int) for d in x.shape) and len(x.shape) == 1 and x.shape[0] <= 64:
        return L([_item(tl, [q], {}) for q in tl.unbind(x)], tl.m.epoch)
    return symlist(x)


@methodf("numpy", "__array__")
def _numpy(tl, args, kw):
    return Opaque("ndarray", t=args[0], arr=args[0].arr)


def symlist(t, arr=None):
    """the elements of a tensor as a Python sequence; contents are those of this moment"""
    return Opaque("symlist", t=t, arr=arr or t.arr)


def content(v):
    """expression that names the printed form or hash of a value (equal values, equal expressions)"""
    if isinstance(v, T) or isinstance(v, Opaque) and v.kind in ("symlist", "ndarray"):
        arr = v.arr if isinstance(v, T) else v.data["arr"]
        vs = tuple(X.namedvar(f"@y{k}", d) for k, d in enumerate(arr.shape))
        return X.call("text", X.lam(vs, arr.at(vs)) if vs else arr.at(()))
    if isinstance(v, Str):
        return v.e
    if isinstance(v, str):
        return X.leaf("str:" + v)
    if isinstance(v, Sc):
        return X.call("text", v.e)
    if isinstance(v, (int, float, bool)) or v is None:
        return X.leaf("str:" + repr(v))
    if isinstance(v, Dtype):
        return X.leaf("str:torch." + v.name)
    if isinstance(v, Device):
        return X.leaf("str:device:" + v.tok)
    if isinstance(v, Shape):
        return X.call("text", *[X.leaf(f"str:{d}") for d in v])
    if isinstance(v, tuple):
        return X.call("text", *[content(x) for x in v])
    if isinstance(v, L):
        return X.call("text", X.leaf("str:[]"), *[content(x) for x in v.items])
    if isinstance(v, D):
        return X.call("text", X.leaf("str:{}"), *[content(y) for kv in v.items.items() for y in kv])
    if isinstance(v, Opaque) and v.kind == "symkey":
        return v.data["e"]
    return X.leaf(f"str:object {id(v)}")


def plain_text(e):
    """content() expression without anything unknown"""
    return all(y.op != "leaf" or not str(y.args[0]).startswith(("<", "?")) for y in X.walk(e))


@methodf("data_ptr")
def _dptr(tl, args, kw):
    return ("data_ptr", args[0].region.id).__hash__()


@methodf("is_floating_point")
def _isfp(tl, args, kw):
    return isfloat(args[0].dtype)


FUNCS["is_floating_point"] = _isfp
FUNCS["is_tensor"] = lambda tl, args, kw: isinstance(args[0], T)
FUNCS["is_complex"] = lambda tl, args, kw: False
FUNCS["is_nonzero"] = lambda tl, args, kw: tl.m.truth(args[0])
METHODS["is_contiguous"] = lambda tl, args, kw: True
METHODS["element_size"] = lambda tl, args, kw: {"f64": 8, "f32": 4}.get(args[0].dtype, 8)
METHODS["get_device"] = lambda tl, args, kw: 0
METHODS["backward"] = lambda tl, args, kw: Unknown("backward")
METHODS["register_hook"] = lambda tl, args, kw: Unknown("hook")


@methodf("fill_")
def _fill_(tl, args, kw):
    x, v = args[0], args[1] if len(args) > 1 else kw["value"]
    r = v if isinstance(v, T) else tl.scalar(v, x.dtype, x.device)
    tl.inplace_set(x, r, "in-place fill_")
    return x


@methodf("zero_")
def _zero_(tl, args, kw):
    return _fill_(tl, [args[0], 0], {})


@methodf("copy_")
def _copy_(tl, args, kw):
    x, v = args[0], args[1]
    tl.inplace_set(x, tl.to(v, x.dtype, x.device), "in-place copy_")
    return x


@methodf("fill_diagonal_")
def _fd_(tl, args, kw):
    x = args[0]
    d = tl.diagonal(x, 0, 0, 1)
    _fill_(tl, [d, args[1]], {})
    return x


@methodf("index_put_", "index_fill_", "index_add_", "index_copy_", "scatter_", "scatter_add_", "masked_scatter_", "put_",
         "uniform_", "normal_", "random_", "resize_", "set_")
def _opq_inplace(tl, args, kw):
    x = args[0]
    tl.m.touch(x, "in-place operation")
    ts = [a for a in args[1:] if isinstance(a, T)]
    x.set_arr(tl.opaque("inplace", [x] + ts, x.shape, x.dtype, x.device).arr)
    return x


@func("scatter", "index_add", "scatter_add", "index_put", "masked_scatter")
def _opq_scatter(tl, args, kw):
    x = args[0]
    return tl.opaque("scatter", [a for a in args if isinstance(a, T)], x.shape, x.dtype, x.device)


@func("masked_select", "nonzero", "unique", "bincount")
def _opq_sel(tl, args, kw):
    x = args[0]
    return tl.opaque("order:select", [a for a in args if isinstance(a, T)], ("?sel",), x.dtype, x.device)


def _isclose(tl, args, kw):
    p = P(args, kw, ["input", "other", "rtol", "atol", "equal_nan"], rtol=1e-5, atol=1e-8, equal_nan=False)
    return tl.ew("isclose", lambda a, b: X.mk("bfn", "isclose", a, b), [p["input"], p["other"]], "bool")


FUNCS["isclose"] = _isclose
FUNCS["allclose"] = lambda tl, args, kw: Sc(tl.anyall("all", _isclose(tl, args, kw)).at(), "bool")
FUNCS["equal"] = lambda tl, args, kw: (False if args[0].shape != args[1].shape else
                                       tl.m.mkbool(tl.anyall("all", tl.compare("Eq", args[0], args[1])).at()))


@func("finfo", "iinfo")
def _finfo(tl, args, kw):
    d = args[0] if args else kw.get("type", kw.get("dtype"))
    if d is None:
        d = Dtype(tl.m.default_dtype)
    if not isinstance(d, Dtype):
        raise Unsupported("finfo")
    return Opaque("finfo", dtype=d.name)


TORCH_SPECIAL.update({
    "torch.get_default_dtype": lambda tl, a, k: Dtype(tl.m.default_dtype),
    "torch.get_default_device": lambda tl, a, k: Device(tl.m.default_device),
    "torch.no_grad": lambda tl, a, k: Opaque("nograd"),
    "torch.inference_mode": lambda tl, a, k: Opaque("nograd"),
    "torch.enable_grad": lambda tl, a, k: Opaque("enablegrad"),
    "torch.set_grad_enabled": lambda tl, a, k: Opaque("enablegrad" if tl.m.truth(a[0] if a else k["mode"]) else "nograd", glob=True),
    "torch.autograd.no_grad": lambda tl, a, k: Opaque("nograd"),
    "torch.is_grad_enabled": lambda tl, a, k: tl.m.nograd == 0,
    "torch.device": lambda tl, a, k: a[0] if isinstance(a[0], Device) else Device("cpu" if str(a[0]).startswith("cpu") else str(a[0])),
    "torch.Size": lambda tl, a, k: Shape(tl.lib.to_shape(a[0])),
    "torch.promote_types": lambda tl, a, k: Dtype(promote(a[0].name, a[1].name)),
    "torch.result_type": lambda tl, a, k: Dtype(tl.result_type(*a)),
    "torch.can_cast": lambda tl, a, k: True,
    "torch.cuda.is_available": lambda tl, a, k: Sc(X.leaf("?cuda_available"), "bool"),
    "torch.jit.script": lambda tl, a, k: a[0] if a else Opaque("identitydeco"),
    "torch.compile": lambda tl, a, k: a[0] if a else Opaque("identitydeco"),
    "torch.jit.is_scripting": lambda tl, a, k: False,
    "torch.vmap": lambda tl, a, k: Unknown("vmap", a),
})

# ================================================================ tad_mctc contracts
MCTC: dict = {}
STORCH: dict = {}


def mctc(*names):
    def deco(f):
        for n in names:
            MCTC[n] = f
        return f
    return deco


def _real(tl, n):
    return tl.compare("NotEq", n, 0)


@mctc("real_atoms")
def _real_atoms(tl, args, kw, n):
    return _real(tl, args[0] if args else kw["numbers"])


@mctc("real_pairs")
def _real_pairs(tl, args, kw, n):
    p = P(args, kw, ["numbers", "mask_diagonal"], mask_diagonal=True)
    a = p["numbers"].arr
    sh = a.shape
    md = p["mask_diagonal"] is True

    def fn(i):
        b = i[:-2]
        e = X.andb(X.notb(X.eq(a.at(b + (i[-2],)), X.ZERO)), X.notb(X.eq(a.at(b + (i[-1],)), X.ZERO)))
        return X.andb(e, X.notb(_ieq(i[-2], i[-1]))) if md else e
    return tl.new(sh + (sh[-1],), fn, "bool", p["numbers"].device)


@mctc("real_triples")
def _real_triples(tl, args, kw, n):
    p = P(args, kw, ["numbers", "mask_diagonal", "mask_self"], mask_diagonal=True, mask_self=True)
    a = p["numbers"].arr
    sh = a.shape

    def fn(i):
        b, (x, y, z) = i[:-3], i[-3:]
        e = X.andb(*[X.notb(X.eq(a.at(b + (v,)), X.ZERO)) for v in (x, y, z)])
        if p["mask_diagonal"] is True:
            e = X.andb(e, X.notb(_ieq(y, z)))
        if p["mask_self"] is True:
            e = X.andb(e, X.notb(_ieq(x, y)), X.notb(_ieq(x, z)), X.notb(_ieq(y, z)))
        return e
    return tl.new(sh + (sh[-1], sh[-1]), fn, "bool", p["numbers"].device)


@mctc("any_to_tensor")
def _att(tl, args, kw, n):
    p = P(args, kw, ["x", "device", "dtype"], device=None, dtype=None)
    x = p["x"]
    if isinstance(x, T):
        return tl.parse_to(x, [], {"device": p["device"], "dtype": p["dtype"]})
    dt, dev = tl.dd({"dtype": p["dtype"], "device": p["device"]})
    if isinstance(x, (int, float, bool, Sc)):
        return tl.tensor_from(x, dt, dev)
    if isinstance(x, L):
        return tl.tensor_from(x, dt, dev)
    if isinstance(x, (Unknown, OV)):
        raise Unsupported("any_to_tensor of unknown")
    raise AbsRaise("TypeError", f"Tensor-incompatible type of {x!r}", tl.m.loc)


@mctc("einsum", "einsum_greedy", "einsum_optimal")
def _meinsum(tl, args, kw, n):
    return _einsum(tl, args, {})


def _callnode(name, key, parts, idx):
    return X.call(name, key, *parts, *idx)


def _lam(t, tag):
    vs = tuple(X.namedvar(f"@{tag}{k}", d) for k, d in enumerate(t.shape))
    return X.lam(vs, t.arr.at(vs))


def fname(f):
    if isinstance(f, Ext):
        return f.name.rsplit(".", 1)[-1]
    if isinstance(f, Func):
        return f.qual
    if isinstance(f, Opaque):
        return f.data.get("name", f.kind)
    if f is None:
        return "None"
    return repr(f)


def _cn(default):
    def f(tl, args, kw, n):
        p = P(args, kw, ["numbers", "positions", "counting_function"], counting_function=None)
        cf = p["counting_function"]
        key = fname(cf) if cf is not None else default
        nu, po = p["numbers"], p["positions"]
        dev = tl.device_of([nu, po], "cn", elementwise=False)
        parts = [_lam(nu, "n"), _lam(po, "p")]
        nm = n.rsplit(".", 1)[-1]
        return tl.new(nu.shape, lambda i: _callnode(nm, key, parts, i), po.dtype, dev)
    return f


MCTC["cn_d4"] = _cn("erf_count")
MCTC["cn_d3"] = _cn("exp_count")


@mctc("get_eeq_charges")
def _eeq(tl, args, kw, n):
    p = P(args, kw, ["numbers", "positions", "chrg"], cutoff=None, cn=None)
    nu, po, ch = p["numbers"], p["positions"], p["chrg"]
    cu = p["cutoff"]
    dev = tl.device_of([nu, po], "eeq", elementwise=False)
    if isinstance(ch, T) and ch.device != po.device:
        tl.m.event("device-mix", op="get_eeq_charges", devices=(ch.device, po.device))
    if not isinstance(ch, (T, int, float, Sc)):
        raise Unsupported("eeq charge")
    cute = X.leaf("eeq-default-cutoff") if cu is None else (cu.at() if isinstance(cu, T) else tl.asE(cu))
    che = _lam(ch, "q") if isinstance(ch, T) else tl.asE(ch)
    if che.op == "lam" and not X.freevars(che.args[1]) and not X.leaves(che.args[1]):
        che = che.args[1]          # the same charge for every molecule
    if isinstance(ch, T) and isfloat(ch.dtype) and ch.dtype != po.dtype:
        tl.m.event("dtype-mix", op="get_eeq_charges", dtypes=(ch.dtype, po.dtype))
    parts = [_lam(nu, "n"), _lam(po, "p"), che, cute]
    return tl.new(nu.shape, lambda i: _callnode("eeq", "", parts, i), po.dtype, dev)


def _table(name, ndim, default_dt, order):
    def f(tl, args, kw, n):
        p = P(args, kw, order, dtype=None, device=None)
        dt, dev = tl.dd({"dtype": p["dtype"], "device": p["device"]})
        dt = dt or default_dt
        low = tl.track_round and dt in ("f32", "f16")
        t = tl.new((104,) * ndim if name == "VDW_PAIRWISE" else (119,), lambda i: X.mk("fn", "rnd", X.tab(name, *i)) if low else X.tab(name, *i), dt, dev)
        return t
    return f


MCTC["GAM"] = _table("GAM", 1, "f64", ["dtype", "device"])
MCTC["ZEFF"] = _table("ZEFF", 1, "i8", ["device", "dtype"])
MCTC["COV_D3"] = _table("COV_D3", 1, "f64", ["device", "dtype"])
MCTC["VDW_PAIRWISE"] = _table("VDW_PAIRWISE", 2, "f64", ["device", "dtype"])


def storch(name):
    def deco(f):
        STORCH[name] = f
        return f
    return deco


@storch("divide")
def _sdivide(tl, args, kw, n):
    p = P(args, kw, ["x", "y"], eps=None)
    x, y = _need(p["x"]), _need(p["y"])
    rt = tl.result_type(x, y)
    return tl.ew("storch.divide", X.sdiv, [x, y], rt, rt)


@storch("reciprocal")
def _srec(tl, args, kw, n):
    x = args[0]
    return tl.ew("storch.reciprocal", lambda e: X.div(X.ONE, X.add(e, X.mk("eps", x.dtype))), [x], x.dtype)


@storch("sqrt")
def _ssqrt(tl, args, kw, n):
    p = P(args, kw, ["x"], eps=None)
    x = _tens(tl, p["x"])
    return tl.ew("storch.sqrt", X.ssqrt, [x], x.dtype)


@storch("pow")
def _spow(tl, args, kw, n):
    p = P(args, kw, ["x", "exponent"], eps=None)
    rt = tl.result_type(p["x"], p["exponent"])
    return tl.ew("storch.pow", lambda a, b: X.mk("spow", a, b) if X.numval(b) is None or X.numval(b) <= 0
                 else X.power(a, b), [p["x"], p["exponent"]], rt, rt)


@storch("cdist")
def _scdist(tl, args, kw, n):
    p = P(args, kw, ["x", "y", "p"], y=None, p=2)
    x = p["x"]
    y = p["y"] if p["y"] is not None else x
    return dist_leaf(tl, x, y, "storch.cdist", p=p["p"])


STORCH["get_eps"] = lambda tl, args, kw, n: tl.new((), lambda i: X.mk("eps", args[0].dtype), args[0].dtype, args[0].device)
MCTC["get_eps"] = STORCH["get_eps"]
MCTC["get_default_dtype"] = lambda tl, args, kw, n: Dtype(tl.m.default_dtype)
MCTC["get_default_device"] = lambda tl, args, kw, n: Device(tl.m.default_device)
MCTC["DD"] = lambda tl, args, kw, n: D(kw, tl.m.epoch)
MCTC["cdist"] = _scdist


@mctc("symmetrize", "symmetrizef")
def _symm(tl, args, kw, n):
    x = args[0]
    return tl.ew("symm", lambda a, b: X.mul(X.num(Fraction(1, 2)), X.add(a, b)), [x, tl.transpose(x, -2, -1)], x.dtype)


# ================================================================ builtins
BUILTINS: dict = {}
TYPES: dict = {}


def bi(name):
    def deco(f):
        BUILTINS[name] = Native(f, name)
        return f
    return deco


@bi("len")
def _b_len(m, a, k):
    v = a[0]
    if isinstance(v, SymSeq):
        if v.guard is not X.TRUE:
            raise Unsupported("len")
        return m.lib.dimval(v.dim)
    if isinstance(v, T):
        if v.ndim == 0:
            raise AbsRaise("TypeError", "len() of a 0-d tensor", m.loc)
        return m.lib.dimval(v.shape[0])
    if isinstance(v, Shape):
        return len(v)
    if isinstance(v, (tuple, str)):
        return len(v)
    if isinstance(v, (L, S, D)):
        return len(v.items) + (len(v.symkeys) if isinstance(v, D) else 0)
    if isinstance(v, OD):
        return len(m.lib.od_items(v))
    if isinstance(v, Obj) and m.find(v.cls, "__len__") is not None:
        return m.call(m.getattr(v, "__len__"), [], {})
    raise Unsupported("len")


@bi("range")
def _b_range(m, a, k):
    if all(isinstance(x, int) for x in a):
        r = range(*a)
        if len(r) > 4000:
            raise Unsupported("long range")
        return It(list(r))
    from . import loops
    return loops.symrange(m, a)


@bi("sum")
def _b_sum(m, a, k):
    if isinstance(a[0], SymSeq):
        from . import loops
        return loops.total(m, loops.fresh(a[0]), a[1] if len(a) > 1 else k.get("start", 0))
    items = m.iterate(a[0])
    r = a[1] if len(a) > 1 else k.get("start", 0)
    for x in items:
        r = m.binop("Add", r, x)
    return r


@bi("any")
def _b_any(m, a, k):
    acc = X.FALSE
    for x in m.iterate(a[0]):
        t = m.truth_sym(x)
        acc = X.orb(acc, X.boolc(t) if isinstance(t, bool) else t)
    return m.mkbool(acc)


@bi("all")
def _b_all(m, a, k):
    acc = X.TRUE
    for x in m.iterate(a[0]):
        t = m.truth_sym(x)
        acc = X.andb(acc, X.boolc(t) if isinstance(t, bool) else t)
    return m.mkbool(acc)


def _typematch(m, v, t):
    """True/False/None(unknown)"""
    if isinstance(t, (tuple, L)):
        rs = [_typematch(m, v, x) for x in m.seq(t)]
        return True if True in rs else None if None in rs else False
    if isinstance(v, Unknown):
        return None
    if isinstance(t, Cls):
        if isinstance(v, Obj):
            return t in v.cls.mro
        return t is m.lib.OBJECT
    name = t.name if isinstance(t, (Native, Ext)) else ""
    last = name.rsplit(".", 1)[-1]
    if last == "Tensor":
        return isinstance(v, T)
    if last == "bool":
        return isinstance(v, bool) or isinstance(v, Sc) and v.kind == "bool"
    if last == "int":
        return isinstance(v, int) or isinstance(v, Sc) and v.kind in ("int", "bool")
    if last == "float":
        return isinstance(v, float) or isinstance(v, Sc) and v.kind == "float"
    if last in ("Number", "Real"):
        return isinstance(v, (int, float, Sc))
    if last == "str":
        if isinstance(v, Obj):
            return any("builtins.str" in c.ext_bases for c in v.cls.mro)
        return isinstance(v, (str, Str))
    if last in ("dict", "Mapping", "MutableMapping"):
        return isinstance(v, (D, OD))
    if last == "list":
        return isinstance(v, L)
    if last == "tuple":
        return isinstance(v, tuple)
    if last in ("Sequence",):
        return isinstance(v, (tuple, L, str))
    if last == "set":
        return isinstance(v, S)
    if last == "device":
        return isinstance(v, Device)
    if last == "dtype":
        return isinstance(v, Dtype)
    if last == "type":
        return isinstance(v, (Cls, Native)) or isinstance(v, Ext)
    if last == "Size":
        return isinstance(v, Shape)
    if last == "NoneType":
        return v is None
    if last in ("Enum",):
        return isinstance(v, Obj) and v.cls.enum is not None
    if last == "TensorLike":
        return isinstance(v, Obj) and m.lib.TENSORLIKE in v.cls.mro
    if last == "Callable":
        return isinstance(v, (Func, Bound, Native, Cached, Partial, Cls, Ext)) or \
            isinstance(v, Obj) and m.find(v.cls, "__call__") is not None
    if last == "Union":
        return None
    return False


@bi("isinstance")
def _b_isinstance(m, a, k):
    r = _typematch(m, a[0], a[1])
    if r is None:
        return Sc(X.leaf(f"?isinstance@{m.loc}"), "bool")
    return r


@bi("issubclass")
def _b_issub(m, a, k):
    c = a[0]
    ts = m.seq(a[1]) if isinstance(a[1], (tuple, L)) else [a[1]]
    if isinstance(c, Cls):
        return any(t in c.mro for t in ts if isinstance(t, Cls))
    return False


@bi("type")
def _b_type(m, a, k):
    v = a[0]
    if len(a) == 3:
        raise Unsupported("type()")
    if isinstance(v, Obj):
        return v.cls
    if isinstance(v, T):
        return Ext("torch.Tensor")
    for ty, nm in ((bool, "bool"), (int, "int"), (float, "float"), (str, "str"), (tuple, "tuple")):
        if isinstance(v, ty):
            return m.lib.builtin(nm)
    return Ext("builtins.type_of_value")


@bi("hasattr")
def _b_hasattr(m, a, k):
    if isinstance(a[0], Unknown):
        return Sc(X.leaf(f"?hasattr@{m.loc}"), "bool")
    try:
        m.getattr(a[0], a[1])
        return True
    except AbsRaise as e:
        if e.etype == "AttributeError":
            return False
        raise


@bi("getattr")
def _b_getattr(m, a, k):
    if not isinstance(a[1], str):
        raise Unsupported("symbolic attribute name")
    return m.getattr(a[0], a[1], *(a[2:3]))


@bi("setattr")
def _b_setattr(m, a, k):
    if not isinstance(a[1], str):
        raise Unsupported("symbolic attribute name")
    m.setattr(a[0], a[1], a[2])


@bi("delattr")
def _b_delattr(m, a, k):
    o = a[0]
    if isinstance(o, Obj):
        m.touch(o, f"attribute '{a[1]}'", attr=a[1])
        o.attrs.pop(a[1], None)


@bi("vars")
def _b_vars(m, a, k):
    return m.getattr(a[0], "__dict__")


def _symbolic(x):
    return isinstance(x, SymSeq) or isinstance(x, T) and x.ndim and not isinstance(x.shape[0], int)


@bi("zip")
def _b_zip(m, a, k):
    if any(_symbolic(x) for x in a):
        from . import loops
        return loops.zipped(m, a)
    return It([tuple(t) for t in zip(*[m.iterate(x) for x in a])])


@bi("enumerate")
def _b_enum(m, a, k):
    st = a[1] if len(a) > 1 else k.get("start", 0)
    if _symbolic(a[0]):
        from . import loops
        q = loops.symseq(m, a[0])
        if q.guard is not X.TRUE:
            raise Unsupported("enumerate")
        return SymSeq(q.v, q.dim, (Sc(X.add(q.v, X.num(st)) if st else q.v, "int"), q.item), q.guard)
    return It([(i + st, v) for i, v in enumerate(m.iterate(a[0]))])


@bi("map")
def _b_map(m, a, k):
    return It([m.call(a[0], list(t), {}) for t in zip(*[m.iterate(x) for x in a[1:]])])


@bi("filter")
def _b_filter(m, a, k):
    return It([x for x in m.iterate(a[1]) if m.truth(x if a[0] is None else m.call(a[0], [x], {}))])


@bi("reversed")
def _b_rev(m, a, k):
    return It(m.iterate(a[0])[::-1])


@bi("sorted")
def _b_sorted(m, a, k):
    items = m.iterate(a[0])
    try:
        key = k.get("key")
        if key is None:
            return L(sorted(items, reverse=k.get("reverse", False)), m.epoch)
        return L(sorted(items, key=lambda x: m.call(key, [x], {}), reverse=k.get("reverse", False)), m.epoch)
    except TypeError:
        raise Unsupported("sorted of abstract values")


@bi("iter")
def _b_iter(m, a, k):
    return It(m.iterate(a[0]))


@bi("next")
def _b_next(m, a, k):
    it = a[0]
    if isinstance(it, It):
        if it.pos < len(it.items):
            it.pos += 1
            return it.items[it.pos - 1]
        if len(a) > 1:
            return a[1]
        raise AbsRaise("StopIteration", "", m.loc)
    raise Unsupported("next")


def _minmax(kind):
    def f(m, a, k):
        items = m.iterate(a[0]) if len(a) == 1 else a
        if "key" in k:
            key = k["key"]
            ks = [m.call(key, [x], {}) for x in items]
            if all(isinstance(q, (int, float, str)) for q in ks):
                return items[(max if kind == "max" else min)(range(len(items)), key=lambda i: ks[i])]
            raise Unsupported("max key")
        if not items and "default" in k:
            return k["default"]
        if all(isinstance(x, (int, float, str)) for x in items):
            return (max if kind == "max" else min)(items)
        if all(isinstance(x, (int, float, Sc, T)) for x in items):
            if all(isinstance(x, (int, float, Sc)) for x in items):
                e = m.lib.sce(items[0])
                for x in items[1:]:
                    y = m.lib.sce(x)
                    e = X.where(X.lt(e, y), y, e) if kind == "max" else X.where(X.lt(y, e), y, e)
                return Sc(e, "float" if any(isinstance(x, float) or isinstance(x, Sc) and x.kind == "float" for x in items) else "int")
            r = items[0]
            for x in items[1:]:
                c = m.compare("Gt" if kind == "max" else "Lt", x, r)
                if m.truth(c):
                    r = x
            return r
        raise Unsupported(kind)
    return f


BUILTINS["max"] = Native(_minmax("max"), "max")
BUILTINS["min"] = Native(_minmax("min"), "min")


@bi("abs")
def _b_abs(m, a, k):
    v = a[0]
    if isinstance(v, (int, float)):
        return abs(v)
    if isinstance(v, Sc):
        return Sc(X.fn("abs", v.e), v.kind)
    if isinstance(v, T):
        return FUNCS["abs"](m.lib.t, [v], {})
    raise Unsupported("abs")


@bi("round")
def _b_round(m, a, k):
    v = a[0]
    if isinstance(v, (int, float)):
        return round(*a)
    if isinstance(v, T):
        return FUNCS["round"](m.lib.t, [v], {})
    return Sc(X.fn("round", m.lib.sce(v)), "int" if len(a) == 1 else "float")


@bi("pow")
def _b_pow(m, a, k):
    return m.binop("Pow", a[0], a[1])


@bi("divmod")
def _b_divmod(m, a, k):
    return (m.binop("FloorDiv", a[0], a[1]), m.binop("Mod", a[0], a[1]))


@bi("callable")
def _b_callable(m, a, k):
    return _typematch(m, a[0], Ext("typing.Callable"))


@bi("print")
def _b_print(m, a, k):
    return None


@bi("id")
def _b_id(m, a, k):
    v = a[0]
    # identities may be reused after an object dies: one abstract value
    m.event("identity-use", obj=v)
    if isinstance(v, T) or isinstance(v, (Obj, L, D)):
        return Opaque("symkey", e=X.leaf(f"id:{type(v).__name__}:{id(v)}"))
    return id(v)


@bi("hash")
def _b_hash(m, a, k):
    v = a[0]
    if isinstance(v, (str, int, float, bool)):
        return hash(v)
    if isinstance(v, T):
        return _b_id(m, a, k)
    return Opaque("symkey", e=content(v))


@bi("repr")
def _b_repr(m, a, k):
    if isinstance(a[0], (str, int, float, bool)):
        return repr(a[0])
    return Str(X.leaf("<repr>"))


@bi("format")
def _b_format(m, a, k):
    return Str(X.leaf("<fmt>"))


@bi("property")
def _b_property(m, a, k):
    return Prop(a[0] if a else k.get("fget"), a[1] if len(a) > 1 else k.get("fset"))


BUILTINS["staticmethod"] = Native(lambda m, a, k: Static(a[0]), "staticmethod")
BUILTINS["classmethod"] = Native(lambda m, a, k: ClassM(a[0]), "classmethod")
BUILTINS["open"] = Native(lambda m, a, k: Opaque("file", path=a[0] if isinstance(a[0], Opaque) else Opaque("path", parts=(a[0],))), "open")
BUILTINS["__import__"] = Native(lambda m, a, k: m.import_module(a[0]), "__import__")
BUILTINS["globals"] = Native(lambda m, a, k: Unknown("globals"), "globals")


def _t_float(m, a, k):
    if not a:
        return 0.0
    v = a[0]
    if isinstance(v, (int, float)):
        return float(v)
    if isinstance(v, str):
        try:
            return float(v)
        except ValueError:
            raise AbsRaise("ValueError", "float", m.loc)
    if isinstance(v, Sc):
        return Sc(v.e, "float")
    if isinstance(v, T):
        r = _item(m.lib.t, [v], {})
        return float(r) if isinstance(r, (int, float)) else Sc(r.e, "float")
    if v is None:
        raise AbsRaise("TypeError", "float(None)", m.loc)
    raise Unsupported("float()")


def _t_int(m, a, k):
    if not a:
        return 0
    v = a[0]
    if isinstance(v, (int, float)):
        return int(v)
    if isinstance(v, str):
        try:
            return int(v)
        except ValueError:
            raise AbsRaise("ValueError", "int", m.loc)
    if isinstance(v, Sc):
        return v if v.kind in ("int", "bool") else Sc(X.mk("fn", "trunc", v.e), "int")
    if isinstance(v, T):
        r = _item(m.lib.t, [v], {})
        if isinstance(r, (int, float)):
            return int(r)
        return Sc(r.e if r.kind == "int" else X.mk("fn", "trunc", r.e), "int")
    raise Unsupported("int()")


def _t_bool(m, a, k):
    c = m.truth_sym(a[0]) if a else False
    return c if isinstance(c, bool) else Sc(c, "bool")


def _t_str(m, a, k):
    v = a[0] if a else ""
    if isinstance(v, str) or isinstance(v, Str):
        return v
    if isinstance(v, (int, float, bool)) or v is None:
        return str(v)
    if isinstance(v, Obj) and v.cls.enum is None and m.find(v.cls, "__str__") is not None:
        return m.call(m.getattr(v, "__str__"), [], {})
    if isinstance(v, Dtype):
        return "torch." + v.name
    if isinstance(v, Device):
        return "device:" + v.tok
    if isinstance(v, (T, tuple, L, D, Sc)) or isinstance(v, Opaque) and v.kind in ("symlist", "ndarray", "symkey"):
        return Str(content(v))
    return Str(X.leaf("<str>"))


def _t_list(m, a, k):
    if a and isinstance(a[0], Opaque) and a[0].kind == "symlist":
        return a[0]
    return L(m.iterate(a[0]) if a else [], m.epoch)


def _t_tuple(m, a, k):
    if a and isinstance(a[0], Opaque) and a[0].kind in ("symlist", "ndarray"):
        return symlist(a[0].data["t"], a[0].data["arr"])
    if a and isinstance(a[0], Shape):
        return a[0]
    return tuple(m.iterate(a[0])) if a else ()


def _t_set(m, a, k):
    return S(m.uniq(m.iterate(a[0])) if a else [], m.epoch)


def _t_dict(m, a, k):
    if a and isinstance(a[0], OD):
        r = m.lib.od_copy(a[0])
        r.added.update(k)
        return r
    d = D({}, m.epoch)
    if a:
        if isinstance(a[0], D):
            for kk, v in m.dict_items(a[0]):
                m.dset(d, kk, v)
        else:
            for pr in m.iterate(a[0]):
                kk, v = m.iterate(pr)
                m.dset(d, kk, v)
    for kk, v in k.items():
        d.items[kk] = v
    return d


TYPES.update(float=_t_float, int=_t_int, bool=_t_bool, str=_t_str, list=_t_list, tuple=_t_tuple, set=_t_set,
             frozenset=_t_set, dict=_t_dict, type=_b_type)
TYPES["slice"] = lambda m, a, k: Slice(*( [None, a[0], None] if len(a) == 1 else (list(a) + [None])[:3]))
BUILTINS["slice"] = Native(TYPES["slice"], "slice")
BUILTINS["type"] = Native(_b_type, "type")

# string methods --------------------------------------------------------------
STR: dict = {}


def _strm(name):
    def f(m, o, a, k):
        if isinstance(o, str) and all(isinstance(x, (str, int)) or (isinstance(x, tuple) and all(isinstance(y, str) for y in x)) for x in a):
            r = getattr(o, name)(*a)
            return L(r, m.epoch) if isinstance(r, list) else r
        e = o.e if isinstance(o, Str) else X.leaf("str:" + o)
        if name in ("startswith", "endswith", "isdigit", "isalpha"):
            return Sc(X.mk("bfn", "str." + name, e, *[x.e if isinstance(x, Str) else X.leaf("str:" + str(x)) for x in a]), "bool")
        if name in ("split", "rsplit", "splitlines"):
            raise Unsupported("split of abstract string")
        if name in ("casefold", "lower") and e.op == "fn" and e.args[0] in ("str.casefold",):
            return Str(e)
        return Str(X.mk("fn", "str." + name, e, *[x.e if isinstance(x, Str) else X.leaf("str:" + str(x)) for x in a]))
    return f


for _n in ("casefold", "lower", "upper", "strip", "lstrip", "rstrip", "replace", "startswith", "endswith", "split", "rsplit",
           "title", "capitalize", "format", "zfill", "isdigit", "isalpha", "removeprefix", "removesuffix", "splitlines",
           "swapcase", "translate", "partition", "rpartition", "find", "count", "index"):
    STR[_n] = _strm(_n)


def _join(m, o, a, k):
    items = m.iterate(a[0])
    if isinstance(o, str) and all(isinstance(x, str) for x in items):
        return o.join(items)
    return Str(X.leaf("<join>"))


STR["join"] = _join
STR["encode"] = lambda m, o, a, k: o
STR["format"] = lambda m, o, a, k: Str(X.leaf("<fmt>"))
STR["format_map"] = STR["format"]

# container methods ------------------------------------------------------------
CONT: dict = {}


def cont(*names):
    def deco(f):
        for n in names:
            CONT[n] = f
        return f
    return deco


@cont("append", "add")
def _c_append(m, o, a, k):
    m.touch(o, "append")
    if isinstance(o, S):
        if not any(m.same_const(a[0], x) for x in o.items):
            o.items.append(a[0])
    else:
        o.items.append(a[0])
    if o.epoch < m.epoch:
        m.persist(a[0])


@cont("extend")
def _c_extend(m, o, a, k):
    m.touch(o, "extend")
    o.items.extend(m.iterate(a[0]))


@cont("insert")
def _c_insert(m, o, a, k):
    m.touch(o, "insert")
    o.items.insert(a[0], a[1])


@cont("remove", "discard")
def _c_remove(m, o, a, k):
    m.touch(o, "remove")
    for i, x in enumerate(o.items):
        if x is a[0] or m.truth(m.eq(x, a[0])):
            o.items.pop(i)
            return
    raise AbsRaise("ValueError", "list.remove(x): x not in list", m.loc)


@cont("clear")
def _c_clear(m, o, a, k):
    m.touch(o, "clear")
    o.items.clear()
    if isinstance(o, D):
        o.symkeys.clear()


@cont("reverse")
def _c_reverse(m, o, a, k):
    m.touch(o, "reverse")
    o.items.reverse()


@cont("sort")
def _c_sort(m, o, a, k):
    m.touch(o, "sort")
    raise Unsupported("sort")


@cont("index")
def _c_index(m, o, a, k):
    for i, x in enumerate(m.seq(o)):
        if m.same_const(x, a[0]):
            return i
    raise AbsRaise("ValueError", "index", m.loc)


@cont("count")
def _c_count(m, o, a, k):
    return sum(1 for x in m.seq(o) if m.same_const(x, a[0]))


@cont("copy")
def _c_copy(m, o, a, k):
    if isinstance(o, OD):
        return m.lib.od_copy(o)
    if isinstance(o, D):
        d = D(o.items, m.epoch)
        d.symkeys = [list(x) for x in o.symkeys]
        return d
    if isinstance(o, S):
        return S(o.items, m.epoch)
    return L(m.seq(o), m.epoch)


@cont("get")
def _c_get(m, o, a, k):
    dflt = a[1] if len(a) > 1 else k.get("default")
    if isinstance(o, OD):
        return m.lib.od_get(o, a[0], dflt, True)
    return m.dget(o, a[0], dflt)


@cont("setdefault")
def _c_setdefault(m, o, a, k):
    if isinstance(o, OD):
        h = m.lib.od_has(o, a[0])
        if h is True or (isinstance(h, E) and m.decide(h)):
            return m.lib.od_get(o, a[0])
        m.touch(o, "setdefault")
        o.added[a[0]] = a[1]
        return a[1]
    i = m.dfind(o, a[0])
    if i is not None:
        return m.dget(o, a[0])
    v = a[1] if len(a) > 1 else None
    m.touch(o, "setdefault")
    m.dset(o, a[0], v)
    if o.epoch < m.epoch or o.epoch == -1:
        m.persist(v)
    return v


@cont("pop")
def _c_pop(m, o, a, k):
    if isinstance(o, OD):
        h = m.lib.od_has(o, a[0])
        if h is False and len(a) > 1:
            return a[1]
        if isinstance(h, E):
            if not m.decide(h):
                if len(a) > 1:
                    return a[1]
                raise AbsRaise("KeyError", str(a[0]), m.loc)
        v = m.lib.od_get(o, a[0])
        m.touch(o, f"pop '{a[0]}' from data loaded from file")
        o.removed.add(a[0])
        return v
    if isinstance(o, D):
        i = m.dfind(o, a[0])
        if i is None:
            if len(a) > 1:
                return a[1]
            raise AbsRaise("KeyError", str(a[0]), m.loc)
        m.touch(o, "dict pop")
        return o.items.pop(i[1]) if i[0] == "c" else o.symkeys.pop(i[1])[1]
    m.touch(o, "pop")
    if isinstance(o, S):
        return o.items.pop()
    try:
        return o.items.pop(*a)
    except IndexError:
        raise AbsRaise("IndexError", "pop", m.loc)


@cont("popitem")
def _c_popitem(m, o, a, k):
    m.touch(o, "popitem")
    raise Unsupported("popitem")


@cont("update")
def _c_update(m, o, a, k):
    m.touch(o, "update")
    if isinstance(o, S):
        o.items = m.uniq(o.items + [y for x in a for y in m.iterate(x)])
        return
    for src in a:
        for kk, v in (m.dict_items(src) if isinstance(src, (D, OD)) else [tuple(m.iterate(p)) for p in m.iterate(src)]):
            if isinstance(o, OD):
                o.added[kk] = v
            else:
                m.dset(o, kk, v)
    for kk, v in k.items():
        if isinstance(o, OD):
            o.added[kk] = v
        else:
            o.items[kk] = v
    if o.epoch < m.epoch or o.epoch == -1:
        m.persist(o)


CONT["keys"] = lambda m, o, a, k: It([x for x, _ in m.dict_items(o)])
CONT["values"] = lambda m, o, a, k: It([v for _, v in m.dict_items(o)])
CONT["items"] = lambda m, o, a, k: It([(x, v) for x, v in m.dict_items(o)])
CONT["issubset"] = lambda m, o, a, k: all(any(m.same_const(x, y) for y in m.iterate(a[0])) for x in o.items)
CONT["union"] = lambda m, o, a, k: S(m.uniq(o.items + [y for x in a for y in m.iterate(x)]), m.epoch)
CONT["difference"] = lambda m, o, a, k: S([x for x in o.items if not any(m.same_const(x, y) for q in a for y in m.iterate(q))], m.epoch)
CONT["intersection"] = lambda m, o, a, k: S([x for x in o.items if any(m.same_const(x, y) for y in m.iterate(a[0]))], m.epoch)
CONT["numel"] = lambda m, o, a, k: m.lib.prod(o)

# other python libraries ---------------------------------------------------------
PYEXT: dict = {}
PYEXT_LAST: dict = {}


def _load_toml(m, a, k):
    f = a[0]
    if isinstance(f, Opaque) and f.kind in ("file", "filetext"):
        return m.lib.load_toml(f.data["path"])
    raise Unsupported("toml.load")


for _n in ("tomli", "tomllib", "toml"):
    PYEXT[_n + ".load"] = _load_toml
    PYEXT[_n + ".loads"] = _load_toml
PYEXT["pathlib.Path"] = lambda m, a, k: a[0] if isinstance(a[0], Opaque) else Opaque("path", parts=tuple(a))
PYEXT["os.path.dirname"] = lambda m, a, k: m.lib.opaque_attr(a[0], "parent")
PYEXT["os.path.abspath"] = lambda m, a, k: a[0]
PYEXT["os.path.join"] = lambda m, a, k: Opaque("path", parts=tuple(p for x in a for p in (x.data["parts"] if isinstance(x, Opaque) else (x,))))
PYEXT["inspect.signature"] = lambda m, a, k: Opaque("signature", func=_unwrap(a[0]))
PYEXT["functools.wraps"] = lambda m, a, k: Opaque("identitydeco")
PYEXT["functools.lru_cache"] = lambda m, a, k: Cached(a[0]) if a and isinstance(a[0], (Func, Bound)) else Opaque("cachedeco")
PYEXT["functools.cache"] = lambda m, a, k: Cached(a[0])
PYEXT["functools.partial"] = lambda m, a, k: Partial(a[0], a[1:], k)


def _reduce(m, a, k):
    items = m.iterate(a[1])
    if len(a) > 2:
        r = a[2]
    else:
        r, items = items[0], items[1:]
    for x in items:
        r = m.call(a[0], [r, x], {})
    return r


PYEXT["functools.reduce"] = _reduce
for _n, _o in (("add", "Add"), ("mul", "Mult"), ("sub", "Sub"), ("truediv", "Div"), ("pow", "Pow"), ("and_", "BitAnd"), ("or_", "BitOr")):
    PYEXT["operator." + _n] = (lambda o: lambda m, a, k: m.binop(o, a[0], a[1]))(_o)
for _n, _o in (("lt", "Lt"), ("le", "LtE"), ("gt", "Gt"), ("ge", "GtE"), ("eq", "Eq"), ("ne", "NotEq")):
    PYEXT["operator." + _n] = (lambda o: lambda m, a, k: m.compare(o, a[0], a[1]))(_o)
PYEXT["operator.itemgetter"] = lambda m, a, k: Native(lambda mm, aa, kk: mm.getitem(aa[0], a[0]), "itemgetter")
PYEXT["operator.attrgetter"] = lambda m, a, k: Native(lambda mm, aa, kk: mm.getattr(aa[0], a[0]), "attrgetter")
PYEXT["warnings.warn"] = lambda m, a, k: m.event("warn")
PYEXT["typing.cast"] = lambda m, a, k: a[1]
PYEXT["typing.TypeVar"] = lambda m, a, k: Ext("typing.T")
PYEXT["types.MappingProxyType"] = lambda m, a, k: a[0]
PYEXT["dataclasses.dataclass"] = lambda m, a, k: Opaque("dataclass")
PYEXT["dataclasses.field"] = lambda m, a, k: k.get("default", m.call(k["default_factory"], [], {}) if "default_factory" in k else None)
PYEXT["contextlib.suppress"] = lambda m, a, k: Opaque("suppress")
PYEXT["contextlib.nullcontext"] = lambda m, a, k: Opaque("nullctx")


def _deepcopy(m, a, k, depth=0):
    v = a[0]
    if isinstance(v, OD):
        r = m.lib.od_copy(v)
        r.kids = {kk: _deepcopy(m, [x], {}) for kk, x in v.kids.items()}
        return r
    if isinstance(v, D):
        return D({kk: _deepcopy(m, [x], {}) for kk, x in v.items.items()}, m.epoch)
    if isinstance(v, L):
        return L([_deepcopy(m, [x], {}) for x in v.items], m.epoch)
    if isinstance(v, T):
        return m.lib.t.to(v, copy=True)
    if isinstance(v, Obj) and v.cls.enum is None:
        o = Obj(v.cls, m.epoch)
        for kk, x in v.attrs.items():
            o.attrs[kk] = _deepcopy(m, [x], {})
        return o
    if isinstance(v, tuple):
        return tuple(_deepcopy(m, [x], {}) for x in v)
    return v


def _copy(m, a, k):
    v = a[0]
    if isinstance(v, (D, L, S, OD)):
        return _c_copy(m, v, [], {})
    if isinstance(v, Obj) and v.cls.enum is None:
        o = Obj(v.cls, m.epoch)
        o.attrs.update(v.attrs)
        return o
    if isinstance(v, T):
        return m.lib.t.to(v, copy=True)
    return v


PYEXT["copy.deepcopy"] = _deepcopy
PYEXT["copy.copy"] = _copy


def _mathf(name, f):
    def g(m, a, k):
        v = a[0]
        if all(isinstance(x, (int, float)) for x in a):
            try:
                return getattr(_math, name)(*a)
            except ValueError:
                raise AbsRaise("ValueError", "math domain error", m.loc)
        if isinstance(v, T):
            v = _t_float(m, [v], {})
        return Sc(f(*[m.lib.sce(v)] + [m.lib.sce(x) for x in a[1:]]), "float")
    return g


for _n, _f in (("sqrt", X.sqrt), ("exp", X.exp), ("log", lambda x: X.fn("log", x)), ("pow", X.power),
               ("isnan", lambda x: X.mk("isnan", x)), ("isinf", lambda x: X.mk("isinf", x)), ("fabs", lambda x: X.fn("abs", x)),
               ("floor", lambda x: X.fn("floor", x)), ("ceil", lambda x: X.fn("ceil", x)), ("isclose", lambda x, y: X.mk("bfn", "isclose", x, y))):
    PYEXT["math." + _n] = _mathf(_n, _f)
PYEXT["math.prod"] = lambda m, a, k: _reduce(m, [Native(lambda mm, aa, kk: mm.binop("Mult", aa[0], aa[1]), "mul"), a[0], 1], {})
PYEXT["itertools.product"] = lambda m, a, k: It([tuple(x) for x in __import__("itertools").product(*[m.iterate(y) for y in a], repeat=k.get("repeat", 1))])
PYEXT["itertools.chain"] = lambda m, a, k: It([y for x in a for y in m.iterate(x)])
PYEXT["itertools.combinations"] = lambda m, a, k: It(list(__import__("itertools").combinations(m.iterate(a[0]), a[1])))
PYEXT["itertools.permutations"] = lambda m, a, k: It(list(__import__("itertools").permutations(m.iterate(a[0]), *a[1:])))
PYEXT["itertools.accumulate"] = lambda m, a, k: _accum(m, a, k)
PYEXT["itertools.count"] = lambda m, a, k: Unknown("count")
PYEXT["collections.OrderedDict"] = lambda m, a, k: _t_dict(m, a, k)
PYEXT["collections.defaultdict"] = lambda m, a, k: _t_dict(m, a[1:], k)
PYEXT["weakref.WeakKeyDictionary"] = lambda m, a, k: D({}, m.epoch)
PYEXT["weakref.WeakValueDictionary"] = lambda m, a, k: D({}, m.epoch)
PYEXT["threading.Lock"] = lambda m, a, k: Opaque("lock")
PYEXT["threading.RLock"] = lambda m, a, k: Opaque("lock")
PYEXT["pydantic.Field"] = lambda m, a, k: Unknown("Field")
PYEXT["time.time"] = lambda m, a, k: (m.event("random"), Sc(X.leaf("?time"), "float"))[1]
PYEXT["os.environ.get"] = lambda m, a, k: Str(X.leaf("?environ"))
PYEXT["os.getenv"] = PYEXT["os.environ.get"]
PYEXT["builtins.NotImplemented"] = lambda m, a, k: None
PYEXT_LAST["Field"] = lambda m, a, k: Unknown("Field")
PYEXT_LAST["getLogger"] = lambda m, a, k: Opaque("warnings")
PYEXT_LAST["fromkeys"] = lambda m, a, k: Unknown("fromkeys")


def _accum(m, a, k):
    items = m.iterate(a[0])
    f = a[1] if len(a) > 1 else None
    out = []
    for x in items:
        out.append(x if not out else (m.call(f, [out[-1], x], {}) if f else m.binop("Add", out[-1], x)))
    return It(out)


def _unwrap(f):
    while True:
        if isinstance(f, Bound):
            f = f.func
        elif isinstance(f, Cached):
            f = f.func
        elif isinstance(f, Static):
            f = f.func
        else:
            break
    if not isinstance(f, Func):
        raise Unsupported("signature of a non-function")
    return f
