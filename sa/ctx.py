"""Symbolic calling contexts: leaf tensors for the arguments of public calls."""
from __future__ import annotations

import os

from . import expr as X
from . import interp
from .values import *
from .interp import Machine, explore, MISSING

PK = "tad_dftd4"


def leafT(m, name, shape, dtype, device, epoch=1):
    old = m.epoch
    m.epoch = epoch
    ng, m.nograd = m.nograd, 0
    t = m.tlib.new(shape, lambda i: X.leaf(name, *i), dtype, device, name=name)
    m.nograd = ng
    m.epoch = old
    t.region.origin = f"argument '{name}'"
    m.leafshape[name] = tuple(shape)
    return t


class Ctx:
    """arguments for one symbolic molecule (batch=False) or batch of molecules"""

    def __init__(self, m, batch=False, dtype="f64", device="dev", tag="", n="N", b="B"):
        self.m = m
        self.lead = (b,) if batch else ()
        self.N = n
        self.dtype, self.device = dtype, device
        self.tag = tag

    def t(self, name, shape, dtype=None, device=None):
        return leafT(self.m, name + self.tag, shape, dtype or self.dtype, device or self.device)

    @property
    def nshape(self):
        return self.lead + (self.N,)

    def numbers(self):
        return self.t("numbers", self.nshape, "i64")

    def positions(self):
        return self.t("positions", self.nshape + (3,))

    def charge(self):
        return self.t("charge", self.lead)

    def atomwise(self, name):
        return self.t(name, self.nshape)

    def pairwise(self, name):
        return self.t(name, self.nshape + (self.N,))

    def scalar(self, name):
        return self.t(name, ())

    def param(self, keys, device=None):
        d = D({k: self.scalar(k) for k in keys}, 1, "argument 'param'")
        return d

    def idx(self, n, lead=True):
        """canonical index variables: batch index, then atoms"""
        out = [X.namedvar("b", self.lead[0])] if self.lead and lead else []
        for k in range(n):
            out.append(X.namedvar("ijklmn"[k], self.N))
        return out


def mod(m, name):
    return m.import_module(f"{PK}.{name}" if name else PK)


def get(m, dotted):
    """attribute of the repository by 'module:attr.attr'"""
    mn, _, at = dotted.partition(":")
    try:
        v = mod(m, mn)
        for a in at.split("."):
            v = m.getattr(v, a)
        return v
    except AbsRaise as e:
        if e.etype not in ("AttributeError", "ImportError", "ModuleNotFoundError"):
            raise
        # moved: look for a definition of that name anywhere in the package
        head, *rest = at.split(".")
        for name in all_modules():
            try:
                mm = m.import_module(name)
            except AbsRaise:
                continue
            v = mm.dict.get(head)
            if v is None:
                continue
            try:
                for a in rest:
                    v = m.getattr(v, a)
                return v
            except AbsRaise:
                continue
        raise AnchorMissing(dotted) from e


class AnchorMissing(Exception):
    pass


def all_modules():
    out = []
    root = os.path.join(interp.SRC, interp.PKG)
    for dp, dn, fn in os.walk(root):
        dn[:] = sorted(d for d in dn if d != "__pycache__")
        for f in sorted(fn):
            if f.endswith(".py"):
                parts = os.path.relpath(os.path.join(dp, f), interp.SRC)[:-3].split(os.sep)
                if parts[-1] == "__init__":
                    parts.pop()
                if parts:
                    out.append(".".join(parts))
    return out


def call(m, f, *a, epoch=2, **kw):
    old = m.epoch
    m.epoch = epoch
    try:
        if isinstance(f, str):
            f = get(m, f)
        return m.call(f, list(a), kw)
    finally:
        m.epoch = old


def native(name):
    def deco(fn):
        fn._method = True
        return Native(fn, name)
    return deco


def lamE(t, tag):
    vs = tuple(X.namedvar(f"@{tag}{k}", d) for k, d in enumerate(t.shape))
    return X.lam(vs, t.arr.at(vs))


def weights_node(cn, q):
    """name of the weights used: (E for cn, E for q)"""
    f = lambda v, t: X.leaf("none") if v is None else (lamE(v, t) if isinstance(v, T) else X.leaf("?"))
    return f(cn, "c"), f(q, "q")


def opaque_model(m, c, base="model.d4:D4Model", numbers=None, nref=7):
    """Instance of a subclass of a repository model whose published methods are
    uninterpreted: weights, C6 and polarizabilities are named by their inputs."""
    cls0 = get(m, base)

    def params(args, kw, names):
        d = dict(zip(names, args[1:]))
        d.update(kw)
        return [d.get(n) for n in names]

    @native("weight_references")
    def wr(mm, args, kw):
        cn, q = params(args, kw, ["cn", "q"])
        a, b = weights_node(cn, q)
        s = args[0].attrs["numbers"].shape
        return mm.tlib.new(s + (nref,), lambda i: X.call("gw", a, b, *i), c.dtype, c.device)

    @native("get_atomic_c6")
    def c6(mm, args, kw):
        (gw,) = params(args, kw, ["gw"])
        s = args[0].attrs["numbers"].shape
        l = lamE(gw, "w")
        return mm.tlib.new(s + (s[-1],), lambda i: X.call("c6", l, *i), c.dtype, c.device)

    @native("get_weighted_pols")
    def wp(mm, args, kw):
        (gw,) = params(args, kw, ["gw"])
        s = args[0].attrs["numbers"].shape
        l = lamE(gw, "w")
        return mm.tlib.new(s + (23,), lambda i: X.call("pol", l, *i), c.dtype, c.device)

    cls = Cls("D4Uninterpreted", [cls0], {"weight_references": wr, "get_atomic_c6": c6, "get_weighted_pols": wp},
              cls0.module)
    cls.mro = c3(cls)
    cls.qual = "context:D4Uninterpreted"
    old = m.epoch
    m.epoch = 1
    try:
        o = m.call(cls, [numbers if numbers is not None else c.numbers()],
                   {"dtype": Dtype(c.dtype), "device": Device(c.device)})
    finally:
        m.epoch = old
    o.origin = "argument 'model'"
    return o


def gw_at(cn, q, *idx):
    a, b = weights_node(cn, q)
    return X.call("gw", a, b, *idx)


def c6_lam(m, c, cn, q, nref=7):
    a, b = weights_node(cn, q)
    shape = c.nshape + (nref,)
    vs = tuple(X.namedvar(f"@w{k}", d) for k, d in enumerate(shape))
    return X.lam(vs, X.call("gw", a, b, *vs))


def cutoff_obj(m, c, names=("disp2", "disp3", "cn", "cn_eeq")):
    kw = {n: c.scalar(n) for n in names}
    old = m.epoch
    m.epoch = 1
    try:
        o = m.call(get(m, "cutoff:Cutoff"), [], {**kw, "dtype": Dtype(c.dtype), "device": Device(c.device)})
    finally:
        m.epoch = old
    o.origin = "argument 'cutoff'"
    return o


def value_at(runs, idx, pick=None):
    """one graph for the result of all paths: decision conditions become phis"""
    x = [r.exc for r in runs]
    if all(e is not None and not e.explicit for e in x):
        # a library call that always fails would break every test: the model of that call is in doubt
        raise Unsupported(f"every path ends in a library error ({x[0]})")

    def one(r):
        if r.exc is not None:
            return X.leaf("raise:" + r.exc.etype)
        v = r.value if pick is None else pick(r.value)
        if isinstance(v, Unknown):
            raise Unsupported(v.why)
        if isinstance(v, (int, float, bool, Sc)):
            return r.machine.lib.sce(v)
        if not isinstance(v, T):
            raise Unsupported(f"result {v!r}")
        if len(v.shape) != len(idx):
            return X.leaf(f"rank:{len(v.shape)}")
        return v.arr.at(tuple(X.idxc(0) if d == 1 else i for d, i in zip(v.shape, idx)))

    def build(rs, depth):
        if len(rs) == 1:
            return one(rs[0])
        conds = {r.conds[depth][0] for r in rs if len(r.conds) > depth}
        c = next(iter(conds))
        t = [r for r in rs if r.conds[depth][1]]
        f = [r for r in rs if not r.conds[depth][1]]
        if not t or not f:
            return build(t or f, depth + 1)
        return X.phi(c, build(t, depth + 1), build(f, depth + 1))
    return build(runs, 0)
