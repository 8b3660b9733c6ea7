"""Public entry points as symbolic calling scenarios, shared by the checks."""
from __future__ import annotations

from . import expr as X
from .ctx import *
from .interp import explore, PathLimit

BJ = ("s6", "s8", "s9", "a1", "a2", "alp")
BJ10 = BJ + ("s10",)
ZERO = ("s6", "s8", "s9", "rs6", "rs8", "rs9", "alp")
MZERO = ZERO + ("bet",)
OP = ("s6", "s8", "s9", "a1", "a2", "alp", "bet")


class Scen:
    """name, fn(m, ctx) -> value, outputs: list of (label, pick, index kinds)

    index kinds: 'N' atom axis, or an int for a fixed axis (after the batch axis)"""

    def __init__(self, name, fn, outs, tags=()):
        self.name = name
        self.fn = fn
        self.outs = outs
        self.tags = set(tags)


SC: dict = {}


def scen(name, outs=None, tags=()):
    def deco(f):
        SC[name] = Scen(name, f, outs or [("energy", None, ("N",))], tags)
        return f
    return deco


def damp(m, name):
    if name == "RationalDamping" or name.endswith("ZeroDamping"):
        p = "damping:" + name
    else:
        p = "damping.functions:" + name
    return call(m, p, epoch=1)


def _dftd4(m, c, keys=BJ, **kw):
    return call(m, "disp:dftd4", c.numbers(), c.positions(), c.charge(), c.param(keys), **kw)


@scen("dftd4", tags={"energy", "core"})
def _(m, c):
    return _dftd4(m, c)


@scen("dftd4 s10", tags={"energy"})
def _(m, c):
    return _dftd4(m, c, BJ10)


@scen("dftd4 d4s", tags={"energy", "core"})
def _(m, c):
    return _dftd4(m, c, model="d4s")


@scen("dftd4 few parameters", tags={"energy", "core"})
def _(m, c):
    return _dftd4(m, c, ("s8", "a1", "a2"))


@scen("dftd4 zero damping", tags={"energy", "core"})
def _(m, c):
    return _dftd4(m, c, ZERO, damping_function=damp(m, "ZeroDamping"))


@scen("dftd4 modified zero damping", tags={"energy"})
def _(m, c):
    return _dftd4(m, c, MZERO, damping_function=damp(m, "MZeroDamping"))


@scen("dftd4 optimised power damping", tags={"energy"})
def _(m, c):
    return _dftd4(m, c, OP, damping_function=damp(m, "OptimisedPowerDamping"))


@scen("dftd4 all options", tags={"energy", "core"})
def _(m, c):
    nu = c.numbers()
    return call(m, "disp:dftd4", nu, c.positions(), c.charge(), c.param(BJ10), model=opaque_model(m, c, numbers=nu),
                rcov=c.atomwise("rcov"), r4r2=c.atomwise("r4r2"), rvdw=c.pairwise("rvdw~s"), q=c.atomwise("q"),
                cutoff=cutoff_obj(m, c))


@scen("dftd4 model instance", tags={"energy", "core"})
def _(m, c):
    nu = c.numbers()
    mod = call(m, "model.d4:D4Model", nu, epoch=1, ref_charges="gfn2", ga=Sc(X.leaf("ga"), "float"), gc=Sc(X.leaf("gc"), "float"),
               wf=c.scalar("wf"), dtype=Dtype(c.dtype), device=Device(c.device))
    return call(m, "disp:dftd4", nu, c.positions(), c.charge(), c.param(BJ), model=mod)


def disp_class(m, c, path, keys=BJ, q=False, model="d4", cutoff=False, all_options=False, **kw):
    nu = c.numbers()
    if all_options:
        d = call(m, path, opaque_model(m, c, numbers=nu), epoch=1, dtype=Dtype(c.dtype), device=Device(c.device), **kw)
        return call(m, m.getattr(d, "calculate"), nu, c.positions(), c.charge(), c.param(keys), **({"q": c.atomwise("q")} if q else {}),
                    rcov=c.atomwise("rcov"), r4r2=c.atomwise("r4r2"), rvdw=c.pairwise("rvdw~s"), cutoff=cutoff_obj(m, c))
    d = call(m, path, model, epoch=1, dtype=Dtype(c.dtype), device=Device(c.device), **kw)
    ckw = {}
    if q:
        ckw["q"] = c.atomwise("q")
    if cutoff:
        ckw["cutoff"] = cutoff_obj(m, c)
    return call(m, m.getattr(d, "calculate"), nu, c.positions(), c.charge(), c.param(keys), **ckw)


@scen("DispD4", tags={"energy", "core"})
def _(m, c):
    return disp_class(m, c, "dispersion.d4:DispD4")


@scen("DispD4 d4s", tags={"energy"})
def _(m, c):
    return disp_class(m, c, "dispersion.d4:DispD4", model="d4s")


@scen("DispD4 model options", tags={"energy"})
def _(m, c):
    kw = D({"ga": Sc(X.leaf("ga"), "float"), "gc": Sc(X.leaf("gc"), "float"), "wf": c.scalar("wf"), "ref_charges": "gfn2"}, 1,
           "argument 'model_kwargs'")
    return disp_class(m, c, "dispersion.d4:DispD4", model_kwargs=kw)


@scen("DispD4Exact", tags={"energy", "core"})
def _(m, c):
    return disp_class(m, c, "dispersion.d4:DispD4Exact")


@scen("DispD4Exact d4s", tags={"energy"})
def _(m, c):
    return disp_class(m, c, "dispersion.d4:DispD4Exact", model="d4s")


@scen("DispD3BJ with D4 model", tags={"energy"})
def _(m, c):
    return disp_class(m, c, "dispersion.d3:DispD3BJ", BJ + ("rs9",))


@scen("DispD3Zero with D4 model", tags={"energy"})
def _(m, c):
    return disp_class(m, c, "dispersion.d3:DispD3Zero", ZERO)


@scen("DispD3BJ all options", tags={"energy"})
def _(m, c):
    return disp_class(m, c, "dispersion.d3:DispD3BJ", BJ + ("rs9",), all_options=True)


@scen("DispD3Zero all options", tags={"energy"})
def _(m, c):
    return disp_class(m, c, "dispersion.d3:DispD3Zero", ZERO, all_options=True)


@scen("DispD4Exact all options", tags={"energy"})
def _(m, c):
    return disp_class(m, c, "dispersion.d4:DispD4Exact", BJ10, q=True, all_options=True)


@scen("dispersion2", tags={"energy", "core"})
def _(m, c):
    return call(m, "dispersion.twobody:dispersion2", c.numbers(), c.positions(), c.param(BJ10), c.pairwise("c6~s"),
                c.atomwise("r4r2"))


@scen("dispersion2 matrix", [("pair energy", None, ("N", "N"))], tags={"energy", "core", "matrix"})
def _(m, c):
    return call(m, "dispersion.twobody:dispersion2", c.numbers(), c.positions(), c.param(BJ10), c.pairwise("c6~s"),
                c.atomwise("r4r2"), rvdw=c.pairwise("rvdw~s"), cutoff=c.scalar("cutoff"), as_matrix=True)


@scen("dispersion2 zero matrix", [("pair energy", None, ("N", "N"))], tags={"energy", "matrix"})
def _(m, c):
    return call(m, "dispersion.twobody:dispersion2", c.numbers(), c.positions(), c.param(ZERO), c.pairwise("c6~s"),
                c.atomwise("r4r2"), rvdw=c.pairwise("rvdw~s"), damping_function=damp(m, "ZeroDamping"),
                cutoff=c.scalar("cutoff"), as_matrix=True)


@scen("get_atm_dispersion", tags={"energy", "core", "atm"})
def _(m, c):
    return call(m, "dispersion.threebody:get_atm_dispersion", c.numbers(), c.positions(),
                c.t("c9", c.nshape + (c.N, c.N)), c.pairwise("radii~s"), c.scalar("cutoff"), s9=c.scalar("s9"), alp=c.scalar("alp"))


PROP = [("coordination number", lambda v: v[0], ("N",)), ("charge", lambda v: v[1], ("N",)),
        ("c6", lambda v: v[2], ("N", "N")), ("polarizability", lambda v: v[3], ("N",))]


@scen("get_properties", PROP, tags={"property", "core"})
def _(m, c):
    return call(m, "disp:get_properties", c.numbers(), c.positions(), c.charge())


@scen("get_properties no charge", PROP, tags={"property"})
def _(m, c):
    return call(m, "disp:get_properties", c.numbers(), c.positions())


@scen("get_properties cutoff", PROP, tags={"property"})
def _(m, c):
    return call(m, "disp:get_properties", c.numbers(), c.positions(), c.charge(), cutoff_obj(m, c))


def _model(kind, ref):
    outs = [("weight", lambda v: v[0], ("N", "N", 7) if kind == "d4s" else ("N", 7)),
            ("c6", lambda v: v[1], ("N", "N")), ("weighted polarizability", lambda v: v[2], ("N", 23)),
            ("static polarizability", lambda v: v[3], ("N",)), ("reference c6", lambda v: v[4], ("N", "N", 7, 7))]

    def f(m, c):
        nu = c.numbers()
        wf = {} if ref == "default" else {"wf": c.pairwise("wf") if kind == "d4s" else c.scalar("wf"),
                                          "ga": Sc(X.leaf("ga"), "float"), "gc": Sc(X.leaf("gc"), "float"),
                                          "ref_charges": "gfn2"}
        mod = call(m, "model.d4s:D4SModel" if kind == "d4s" else "model.d4:D4Model", nu, epoch=2, dtype=Dtype(c.dtype),
                   device=Device(c.device), **wf)
        mod.epoch = 1
        gw = call(m, m.getattr(mod, "weight_references"), c.atomwise("cn"), c.atomwise("q"))
        c6 = call(m, m.getattr(mod, "get_atomic_c6"), gw)
        wp = call(m, m.getattr(mod, "get_weighted_pols"), gw)
        sp = call(m, m.getattr(mod, "get_polarizabilities"), gw)
        return (gw, c6, wp, sp, m.getattr(mod, "rc6"))
    SC[f"{kind} model {ref}"] = Scen(f"{kind} model {ref}", f, outs, {"model", "core"})


for _k in ("d4", "d4s"):
    for _r in ("default", "given"):
        _model(_k, _r)


def indices(c, kinds):
    out = [X.namedvar("b", c.lead[0])] if c.lead else []
    names = iter("ijklmn")
    rn = iter("rtuvw")
    for k in kinds:
        out.append(X.namedvar(next(names), c.N) if k == "N" else X.namedvar(next(rn), k))
    return out


class Lowered:
    """one output of one scenario as a value graph"""

    def __init__(self, name, label, e, idx, runs, c, vals):
        self.name, self.label, self.e, self.idx, self.runs, self.c = name, label, e, idx, runs, c
        self.vals = vals             # the T value per path

    def __repr__(self):
        return f"{self.name} / {self.label}"

    @property
    def full(self):
        return f"{self.name}{' (batch)' if self.c.lead else ''}: {self.label}"


def lowered(rep, tags=None, names=None, batches=(False, True), dtype="f64", device="dev", setup=None, **mkw):
    """all outputs of the selected scenarios; undecided ones are recorded"""
    from .checks.formulas import lower
    for s in list(SC.values()):
        if names is not None and s.name not in names:
            continue
        if tags is not None and not (s.tags & set(tags)):
            continue
        for batch in batches:
            def scenario(m, s=s):
                if setup:
                    setup(m)
                m.import_module(PK)
                c = Ctx(m, batch, dtype=dtype, device=device)
                m.epoch = 1
                return s.fn(m, c)
            nm = f"{s.name}{' (batch)' if batch else ''}"
            runs = lower(rep, scenario, nm, **mkw)
            if runs is None:
                continue
            c = Ctx(runs[0].machine, batch, dtype=dtype, device=device)
            for lab, pick, kinds in s.outs:
                idx = indices(c, kinds)
                try:
                    e = value_at(runs, idx, pick)
                    vals = [(pick(r.value) if pick else r.value) for r in runs if r.exc is None]
                except Unsupported as u:
                    rep.undecided(f"{nm}: {lab}", f"not lowered: {u}")
                    continue
                except (KeyError, TypeError, IndexError, RecursionError) as u:
                    rep.undecided(f"{nm}: {lab}", f"not lowered: {type(u).__name__} {u}")
                    continue
                yield Lowered(s.name, lab, e, idx, runs, c, vals)
