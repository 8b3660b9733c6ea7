"""Abstract values of the lowering: tensors, objects, containers, externals.

Nothing here is ever a concrete tensor.  A tensor value ``T`` is a symbolic
shape, a dtype, a device token and an ``Arr``: a function from index terms to
nodes of the value graph (expr.E).
"""
from __future__ import annotations

from . import expr as X
from .expr import E

FLOATS = ("f16", "bf16", "f32", "f64")
INTS = ("u8", "i8", "i16", "i32", "i64")
RANK = {"bool": 0, "u8": 1, "i8": 2, "i16": 3, "i32": 4, "i64": 5,
        "f16": 6, "bf16": 7, "f32": 8, "f64": 9, "c64": 10, "c128": 11}


def isfloat(dt):
    return dt in FLOATS or dt in ("c64", "c128")


def promote(*dts):
    """torch promotion among tensors of equal category rank (see binary ops)."""
    r = None
    for d in dts:
        if d is None:
            continue
        if r is None:
            r = d
        else:
            if {r, d} == {"u8", "i8"}:
                r = "i16"
            elif {r, d} == {"f16", "bf16"}:
                r = "f32"
            else:
                r = r if RANK[r] >= RANK[d] else d
    return r


class Unsupported(Exception):
    """construct outside the lowered subset"""


class Arr:
    __slots__ = ("shape", "fn", "memo", "loc", "dt")

    def __init__(self, shape, fn, loc=None, dt=None):
        self.dt = dt
        self.shape = tuple(shape)
        self.fn = fn
        self.memo = {}
        self.loc = loc

    def at(self, idx) -> E:
        k = tuple(i.id for i in idx)
        r = self.memo.get(k)
        if r is None:
            if len(idx) != len(self.shape):
                raise Unsupported(f"rank mismatch {len(idx)} vs {self.shape}")
            old = X.CURLOC[0]
            if self.loc is not None:
                X.CURLOC[0] = self.loc
            odt = X.CURDT[0]
            if self.dt is not None:
                X.CURDT[0] = self.dt
            try:
                r = self.fn(tuple(idx))
            finally:
                X.CURLOC[0] = old
                X.CURDT[0] = odt
            if self.dt == "f64":
                X.WIDE.add(r.id)
            self.memo[k] = r
        return r


_rid = [0]


class Region:
    """storage shared by a tensor and its views"""
    __slots__ = ("id", "epoch", "origin")

    def __init__(self, epoch, origin="fresh"):
        _rid[0] += 1
        self.id = _rid[0]
        self.epoch = epoch
        self.origin = origin


class T:
    __slots__ = ("_arr", "dtype", "device", "region", "view", "name", "info")

    def __init__(self, arr, dtype, device, region, view=None, name=None):
        self._arr = arr
        self.dtype = dtype
        self.device = device
        self.region = region
        self.view = view          # (base T, fwd(arr)->arr, put(base_arr, new)->arr | None)
        self.name = name
        self.info = {}

    @property
    def arr(self) -> Arr:
        if self.view is not None:
            base, fwd, _ = self.view
            ba = base.arr
            c = self.info.get("vc")
            if c is not None and c[0] is ba:
                return c[1]
            a = fwd(ba)
            self.info["vc"] = (ba, a)
            return a
        return self._arr

    def set_arr(self, arr):
        if self.view is not None:
            base, fwd, put = self.view
            if put is None:
                raise Unsupported("in-place write through an unsupported view")
            base.set_arr(put(base.arr, arr))
        else:
            self._arr = arr

    @property
    def shape(self):
        return self.arr.shape

    @property
    def ndim(self):
        return len(self.arr.shape)

    def at(self, *idx):
        return self.arr.at(idx)

    def __repr__(self):
        return f"T({self.name or ''}{list(self.shape)},{self.dtype},{self.device})"


class Sc:
    """symbolic Python scalar"""
    __slots__ = ("e", "kind")

    def __init__(self, e, kind):
        self.e = e
        self.kind = kind      # 'int' | 'float' | 'bool'

    def __repr__(self):
        return f"Sc<{self.kind}>({X.show(self.e, 4)})"


class Str:
    """abstract string: an expression over string leaves"""
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    def __repr__(self):
        return f"Str({X.show(self.e)})"


class Unknown:
    """result of a construct outside the lowered subset"""
    __slots__ = ("why", "deps", "epoch")

    def __init__(self, why, deps=()):
        self.why = why
        self.deps = tuple(deps)
        self.epoch = 0

    def __repr__(self):
        return f"Unknown({self.why})"


class Device:
    __slots__ = ("tok",)

    def __init__(self, tok):
        self.tok = tok

    def __eq__(self, o):
        return isinstance(o, Device) and o.tok == self.tok

    def __hash__(self):
        return hash(("dev", self.tok))

    def __repr__(self):
        return f"device({self.tok})"


class Dtype:
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, Dtype) and o.name == self.name

    def __hash__(self):
        return hash(("dt", self.name))

    def __repr__(self):
        return f"dtype({self.name})"


class Shape(tuple):
    """torch.Size with symbolic entries (ints, or dimension names)"""


class Slot:
    """common base of mutable python-level values: creation epoch and origin"""


class L(Slot):
    __slots__ = ("items", "epoch", "origin")

    def __init__(self, items, epoch=0, origin=None):
        self.items = list(items)
        self.epoch = epoch
        self.origin = origin

    def __repr__(self):
        return f"L{self.items}"


class D(Slot):
    """dict; keys are concrete hashables or Key wrappers"""
    __slots__ = ("items", "epoch", "origin", "kind", "symkeys")

    def __init__(self, items=None, epoch=0, origin=None, kind="dict"):
        self.items = dict(items or {})
        self.epoch = epoch
        self.origin = origin
        self.kind = kind
        self.symkeys = []      # list of [key value, stored value]

    def __repr__(self):
        return f"D{self.items}"


class S(Slot):
    __slots__ = ("items", "epoch", "origin")

    def __init__(self, items=(), epoch=0, origin=None):
        self.items = list(items)
        self.epoch = epoch
        self.origin = origin


class OD(Slot):
    """opaque mapping read from a data file: nested by key path"""
    __slots__ = ("path", "epoch", "origin", "removed", "added", "copyof", "facts", "kids")

    def __init__(self, path, epoch=0, origin=None):
        self.path = tuple(path)
        self.epoch = epoch
        self.origin = origin
        self.removed = set()
        self.added = {}
        self.copyof = None
        self.facts = {}
        self.kids = {}          # nested containers, one object per key

    def __repr__(self):
        return f"OD{self.path}"


class OV:
    """opaque value stored in a data file"""
    __slots__ = ("path",)

    def __init__(self, path):
        self.path = tuple(path)

    def __repr__(self):
        return f"OV{self.path}"


class Func:
    __slots__ = ("node", "module", "closure", "name", "qual", "defaults", "kwdefaults",
                 "cls", "wrapped", "attrs", "epoch", "decor")

    def __init__(self, node, module, closure, name, qual, defaults, kwdefaults, cls=None):
        self.node = node
        self.module = module
        self.closure = closure
        self.name = name
        self.qual = qual
        self.defaults = defaults
        self.kwdefaults = kwdefaults
        self.cls = cls
        self.wrapped = None
        self.attrs = {}
        self.epoch = 0
        self.decor = ()

    def __repr__(self):
        return f"<func {self.qual}>"


class Bound:
    __slots__ = ("func", "self_")

    def __init__(self, func, self_):
        self.func = func
        self.self_ = self_


class Cached:
    """lru_cache / cache wrapper"""
    __slots__ = ("func", "store", "epoch", "attrs")

    def __init__(self, func):
        self.func = func
        self.store = []      # list of (key, value)
        self.epoch = 0
        self.attrs = {}


class Native:
    __slots__ = ("fn", "name")

    def __init__(self, fn, name):
        self.fn = fn
        self.name = name

    def __repr__(self):
        return f"<native {self.name}>"


class Partial:
    __slots__ = ("func", "args", "kw")

    def __init__(self, func, args, kw):
        self.func, self.args, self.kw = func, args, kw


class Prop:
    __slots__ = ("fget", "fset", "cached")

    def __init__(self, fget, fset=None, cached=False):
        self.fget, self.fset, self.cached = fget, fset, cached


class Static:
    __slots__ = ("func",)

    def __init__(self, func):
        self.func = func


class ClassM:
    __slots__ = ("func",)

    def __init__(self, func):
        self.func = func


class Cls(Slot):
    __slots__ = ("name", "bases", "dict", "mro", "module", "epoch", "origin", "kind", "node", "ext_bases", "enum", "qual")

    def __init__(self, name, bases, d, module, node=None):
        self.name = name
        self.bases = bases
        self.dict = d
        self.module = module
        self.node = node
        self.epoch = 0
        self.origin = f"class {name}"
        self.kind = "class"
        self.ext_bases = set()
        self.enum = None
        self.mro = None
        self.qual = name

    def __repr__(self):
        return f"<class {self.name}>"


def c3(cls):
    seqs = [list(b.mro) for b in cls.bases] + [list(cls.bases)]
    out = [cls]
    while True:
        seqs = [s for s in seqs if s]
        if not seqs:
            return out
        for s in seqs:
            c = s[0]
            if not any(c in t[1:] for t in seqs):
                break
        else:
            raise Unsupported("inconsistent MRO")
        out.append(c)
        for t in seqs:
            if t and t[0] is c:
                t.pop(0)


class Obj(Slot):
    __slots__ = ("cls", "attrs", "epoch", "origin", "info")

    def __init__(self, cls, epoch=0, origin=None):
        self.cls = cls
        self.attrs = {}
        self.epoch = epoch
        self.origin = origin
        self.info = {}

    def __repr__(self):
        return f"<obj {self.cls.name}>"


class Module(Slot):
    __slots__ = ("name", "dict", "path", "epoch", "origin", "tree", "is_pkg")

    def __init__(self, name, path):
        self.name = name
        self.path = path
        self.dict = {}
        self.epoch = 0
        self.origin = f"module {name}"
        self.tree = None
        self.is_pkg = False

    def __repr__(self):
        return f"<module {self.name}>"


class Ext:
    """reference to something outside the repository, by dotted name"""
    __slots__ = ("name",)
    _tab: dict = {}

    def __new__(cls, name):
        r = cls._tab.get(name)
        if r is None:
            r = object.__new__(cls)
            r.name = name
            cls._tab[name] = r
        return r

    def __repr__(self):
        return f"<ext {self.name}>"


class Slice:
    __slots__ = ("a", "b", "c")

    def __init__(self, a, b, c):
        self.a, self.b, self.c = a, b, c


class It:
    """materialised iterator (generator, zip, ...)"""
    __slots__ = ("items", "pos")

    def __init__(self, items):
        self.items = list(items)
        self.pos = 0


class SymSeq:
    """sequence of symbolic length: one item per value of index variable v over dimension dim"""
    __slots__ = ("v", "dim", "item", "guard", "region0", "epoch")

    def __init__(self, v, dim, item, guard):
        self.v = v
        self.dim = dim
        self.item = item
        self.guard = guard
        self.region0 = _rid[0]
        self.epoch = 0


class Opaque:
    """abstract external object carrying its inputs (path, file handle, signature)"""
    __slots__ = ("kind", "data", "epoch")

    def __init__(self, kind, **data):
        self.kind = kind
        self.data = data
        self.epoch = 0

    def __repr__(self):
        return f"<{self.kind}>"


class AbsRaise(Exception):
    """an exception of the analysed program; explicit: raised by a raise statement of the repository"""

    explicit = False

    def __init__(self, etype, msg="", loc=None, obj=None):
        super().__init__(f"{etype}: {msg}")
        self.etype = etype
        self.msg = msg
        self.loc = loc
        self.obj = obj
