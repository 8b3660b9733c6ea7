"""C09-C11, C13, C14, C24: precision, device, differentiability, side effects, history, conversion."""
from __future__ import annotations

import math

from .. import expr as X
from .. import rand, iso, scen
from ..rand import Val, Undecidable
from ..relate import RVal
from ..ctx import *
from ..interp import MISSING
from ..report import Report, locstr
from ..scen import lowered, SC, Scen, BJ, BJ10, ZERO, MZERO, OP
from .formulas import TRUST, lower, result

FL = lambda n: Sc(X.leaf(n), "float")


class FloatCtx(Ctx):
    """parameters, total charge and cutoffs as Python numbers"""

    def scalar(self, name):
        return FL(name + self.tag)

    def param(self, keys, device=None):
        return D({k: FL(k) for k in keys}, 1, "argument 'param'")

    def charge(self):
        return FL("charge") if not self.lead else super().charge()


def extra_scenarios():
    """calls that the scenario library does not contain: Python numbers, derivatives, single pieces"""
    out = []

    def add(name, outs=None):
        def deco(f):
            out.append(Scen(name, f, outs or [("energy", None, ("N",))], {"energy"}))
            return f
        return deco

    for nm, keys, kw in (("dftd4 numbers", BJ, {}), ("dftd4 numbers zero damping", ZERO, {"damping_function": "ZeroDamping"}),
                         ("dftd4 numbers modified zero damping", MZERO, {"damping_function": "MZeroDamping"}),
                         ("dftd4 numbers optimised power damping", OP, {"damping_function": "OptimisedPowerDamping"}),
                         ("dftd4 numbers s10", BJ10, {}), ("dftd4 numbers d4s", BJ, {"model": "d4s"})):
        def f(m, c, keys=keys, kw=kw):
            fc = FloatCtx(m, bool(c.lead), c.dtype, c.device)
            k2 = {k: (scen.damp(m, v) if k == "damping_function" else v) for k, v in kw.items()}
            cut = call(m, "cutoff:Cutoff", epoch=1, **{n: FL(n) for n in ("disp2", "disp3", "cn", "cn_eeq")},
                       dtype=Dtype(c.dtype), device=Device(c.device))
            return call(m, "disp:dftd4", fc.numbers(), fc.positions(), fc.charge(), fc.param(keys), cutoff=cut, **k2)
        add(nm)(f)
    for nm, path, keys in (("DispD4 numbers", "dispersion.d4:DispD4", BJ),
                           ("DispD4Exact numbers", "dispersion.d4:DispD4Exact", ("s6", "s8", "a1", "a2")),
                           ("DispD3BJ numbers", "dispersion.d3:DispD3BJ", ("s6", "s8", "a1", "a2")),
                           ("DispD3Zero numbers", "dispersion.d3:DispD3Zero", ("s6", "s8", "rs6", "rs8", "alp"))):
        def f(m, c, path=path, keys=keys):
            fc = FloatCtx(m, bool(c.lead), c.dtype, c.device)
            return scen.disp_class(m, fc, path, keys)
        add(nm)(f)
    for kind in ("d4", "d4s"):
        outs = [("weight", lambda v: v[0], ("N", 7) if kind == "d4" else ("N", "N", 7))]
        if kind == "d4":
            outs += [("dgwdcn", lambda v: v[1], ("N", 7)), ("dgwdq", lambda v: v[2], ("N", 7))]
        else:
            outs += [("dgwdq", lambda v: v[1], ("N", "N", 7))]

        def f(m, c, kind=kind):
            mod = call(m, f"model.{kind}:{kind.upper()}Model", c.numbers(), epoch=1, dtype=Dtype(c.dtype),
                       device=Device(c.device), wf=FL("wf0") if kind == "d4" else None, ga=FL("ga"), gc=FL("gc"))
            kw = {"with_dgwdcn": True} if kind == "d4" else {}
            return call(m, m.getattr(mod, "weight_references"), c.atomwise("cn"), c.atomwise("q"), with_dgwdq=True, **kw)
        add(f"{kind} derivatives", outs)(f)

        def f(m, c, kind=kind):
            mod = call(m, f"model.{kind}:{kind.upper()}Model", c.numbers(), epoch=1, dtype=Dtype(c.dtype), device=Device(c.device))
            return call(m, m.getattr(mod, "weight_references"))
        add(f"{kind} default weights", [("weight", None, outs[0][2])])(f)

    @add("trapzd_noref", [("c6", None, ("N", "N"))])
    def f(m, c):
        return call(m, "utils:trapzd_noref", c.t("pol", c.nshape + (23,)))

    @add("trapzd_atm", [("c9", None, ("N", "N", "N"))])
    def f(m, c):
        return call(m, "utils:trapzd_atm", c.t("pol3", c.nshape + (c.N, c.N, 23)))

    @add("get_properties numbers", scen.PROP)
    def f(m, c):
        fc = FloatCtx(m, bool(c.lead), c.dtype, c.device)
        return call(m, "disp:get_properties", fc.numbers(), fc.positions(), fc.charge())

    @add("get_atm_dispersion numbers")
    def f(m, c):
        return call(m, "dispersion.threebody:get_atm_dispersion", c.numbers(), c.positions(), c.t("c9", c.nshape + (c.N, c.N)),
                    c.pairwise("radii~s"), c.scalar("cutoff"), s9=FL("s9"), alp=FL("alp"))

    @add("dispersion2 numbers")
    def f(m, c):
        fc = FloatCtx(m, bool(c.lead), c.dtype, c.device)
        return call(m, "dispersion.twobody:dispersion2", c.numbers(), c.positions(), fc.param(BJ10), c.pairwise("c6~s"),
                    c.atomwise("r4r2"))

    for meth, k in (("get_rcov", 1), ("get_r4r2", 1), ("get_rvdw", 2)):
        def f(m, c, meth=meth):
            d = call(m, "dispersion.base:Disp", "d4", epoch=1, dtype=Dtype(c.dtype), device=Device(c.device))
            return call(m, m.getattr(d, meth), c.numbers())
        add("Disp." + meth, [(meth, None, ("N",) * k)])(f)
    return out


EXTRA = extra_scenarios()


def all_lowered(rep, names=None, extra=True, **kw):
    yield from lowered(rep, names=names, **kw)
    if not extra:
        return
    for s in EXTRA:
        SC[s.name] = s
    try:
        yield from lowered(rep, names={s.name for s in EXTRA}, **kw)
    finally:
        for s in EXTRA:
            del SC[s.name]


# --------------------------------------------------------------------- C09
CONT = {"numbers"}


def lossy(e):
    """roundings to a narrower type of something that is not exactly representable there"""
    out = []
    for x in X.walk(e):
        if x.op == "fn" and x.args[0] == "rnd":
            arg = x.args[1]
            # small integers survive every float type
            if all(y.op not in ("leaf", "call", "tab", "opq") or (y.op == "leaf" and rand.base(y.args[0]) in CONT)
                   for y in X.walk(arg)) and all(y.op in ("leaf", "num", "var", "add", "mul", "where", "eq", "lt", "not", "and",
                                                          "ival", "bool", "fn", "red") and
                                                 (y.op != "num" or y.args[0].denominator == 1) for y in X.walk(arg)):
                continue
            out.append(x)
    return out


def influences(e, nodes, idx):
    """does the value of one of the nodes matter for e?  (valuations of the graph)"""
    k = 0
    for x in nodes[:6]:
        k += 1
        # a large change second: the contribution may be small beside the others
        for p in (X.mul(x, X.leaf(f"perturb{k}")), X.mul(x, X.num(10 ** 9))):
            try:
                w = rand.distinguish(e, X.subst(e, {x: p}, capture=True), idx, trials=16)
            except (Undecidable, RecursionError, OverflowError, KeyError, TypeError):
                continue
            if w:
                return x
    return None


def check_C09(rep: Report):
    rep.rule("dtype inference over the value graph of every public call: with double-precision inputs and a single-precision "
             "default type no conversion or literal on a path to the result is narrower than double unless the value is an "
             "exactly representable integer; the result type is the type of the positions for double and single inputs")
    rep.assume(*TRUST[:1], "objects are created with the type of the coordinates")
    done = set()
    for dt, dd in (("f64", "f32"), ("f32", "f64")):
        def setup(m):
            m.tlib.track_round = dt == "f64"
        for lo in all_lowered(rep, dtype=dt, default_dtype=dd, setup=setup):
            name = f"{lo.full} [{dt}, default {dd}]"
            rep.count(lo.e)
            rep.sites += 1
            bad = sorted({v.dtype for v in lo.vals if isinstance(v, T) and v.dtype != dt})
            exc = [r.exc for r in lo.runs if r.exc is not None]
            if exc and not lo.vals:
                ok64 = lo.name not in done and dt == "f32"
                if ok64 or dt == "f64":
                    rep.undecided(name, f"raises {exc[0].etype}: {exc[0]}")
                    continue
                # the same call works in double precision
                rep.bad(f"raise:{lo.name}:{lo.label}:{dt}", f"call fails in single precision: {exc[0].etype} {exc[0]}", exc[0].loc)
                continue
            done.add(lo.name)
            if bad:
                rep.bad(f"dtype:{lo.name}:{lo.label}:{dt}", f"result of {lo.full} has type {'/'.join(bad)} for {dt} "
                        f"coordinates and default type {dd}", X.LOC.get(lo.e.id))
                continue
            if dt != "f64":
                rep.ok(name)
                continue
            ls = lossy(lo.e)
            if not ls:
                rep.ok(name)
                continue
            x = influences(lo.e, ls, lo.idx)
            if x is None:
                rep.undecided(name, "a narrower intermediate type was found, but it does not reach the result")
            else:
                rep.bad(f"round:{lo.name}:{lo.label}", f"{X.show(x, 5)[:160]} is rounded to a narrower type on the way to the "
                        f"result of {lo.full}", X.LOC.get(x.id) or X.LOC.get(x.args[1].id))


# --------------------------------------------------------------------- C10
def check_C10(rep: Report):
    rep.rule("device inference: with all tensor inputs on a symbolic device different from the default one, no operation of any "
             "public call combines tensors of different devices (zero-dimensional host scalars excepted, as in torch) and "
             "every result is on the input device")
    rep.assume(*TRUST[:1], "objects are created with the device of the coordinates")
    for lo in all_lowered(rep):
        name = lo.full
        ev = [e for r in lo.runs for e in r.machine.events if e["kind"] == "device-mix"]
        rep.sites += sum(r.machine.ops for r in lo.runs)
        bad = sorted({str(v.device) for v in lo.vals if isinstance(v, T) and v.device != "dev"})
        for e in ev:
            rep.bad(f"mix:{e['op']}:{locstr(e['loc']).split(' (')[-1]}", f"{e['op']} combines tensors on the devices "
                    f"{'/'.join(map(str, e['devices']))} ({name})", e["loc"])
        if bad:
            rep.bad(f"device:{lo.name}:{lo.label}", f"result of {name} is on device {'/'.join(bad)}", X.LOC.get(lo.e.id))
        if not ev and not bad:
            rep.ok(name)


# --------------------------------------------------------------------- C11
STEP = ("cut", "trunc", "floor", "ceil", "round", "sign", "argmax", "argmin", "floordiv")
CONTINUOUS = ("positions", "dist", "charge", "q", "s6", "s8", "s9", "s10", "a1", "a2", "rs6", "rs8", "rs9", "alp", "bet",
              "r4r2", "rvdw", "cn", "ga", "gc", "wf", "wf0", "c6", "c9", "radii", "pol", "pol3")


def value_nodes(e):
    """nodes that reach e along value edges (not as mask conditions or indices)"""
    seen, order, st = set(), [], [e]
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        order.append(x)
        if x.op in ("where", "phi"):
            st += [x.args[1], x.args[2]]
        elif x.op in ("leaf", "tab", "var", "num", "bool", "eq", "lt", "not", "and", "eqi", "isnan", "isinf", "bfn"):
            continue
        else:
            st += [y for y in X.children(x)]
    return order


def continuous(x):
    return any(y.op == "leaf" and rand.base(y.args[0]) in CONTINUOUS or y.op == "call" for y in X.walk(x))


class Frozen(RVal):
    """derivative as automatic differentiation sees it: detached nodes keep their old value"""

    def __init__(self, base, shapes, dims, n, bump, old=None):
        super().__init__(base, shapes, dims, n)
        self.bump, self.old = bump, old

    def leaf(self, name, idx):
        v = super().leaf(name, idx)
        if self.bump and rand.base(name) == self.bump[0]:
            return v + self.bump[1] * (0.3 + self.rnd("dir", name, idx))
        return v

    def override(self, e, env):
        if self.old is not None and e.op == "fn" and e.args[0] == "cut":
            return rand.ev(e, self.old, env)
        return None


def check_C11(rep: Report):
    rep.rule("no detaching, integer-valued or argument-selecting operation lies on a value edge from a continuous input to a "
             "result (mask conditions and indices are not value edges); a detached node is reported only when the "
             "derivative that automatic differentiation would see differs from the derivative of the value")
    rep.assume(*TRUST[:1])
    for lo in all_lowered(rep):
        name = lo.full
        rep.count(lo.e)
        vn = value_nodes(lo.e)
        rep.sites += len(vn)
        sus = [x for x in vn if x.op == "fn" and x.args[0] in STEP and continuous(x)]
        sus += [x for x in vn if x.op == "call" for y in x.args if isinstance(y, X.E) and y.op == "lam"
                for _ in ()]
        if not sus:
            rep.ok(name)
            continue
        cut = [x for x in sus if x.args[0] == "cut"]
        hard = [x for x in sus if x.args[0] != "cut"]
        x = influences(lo.e, hard, lo.idx) if hard else None
        if x is not None:
            rep.bad(f"step:{lo.name}:{lo.label}:{x.args[0]}", f"{x.args[0]} of a continuous input reaches the value of {name}",
                    X.LOC.get(x.id))
            continue
        if cut:
            w = detached(lo, cut)
            if w:
                rep.bad(f"detached:{lo.name}:{lo.label}", f"part of the dependence of {name} on {w['input']} is hidden from "
                        "automatic differentiation", first(cut), construct=[X.show(c, 5)[:200] for c in cut[:3]], witness=w)
                continue
        rep.undecided(name, f"{[x.args[0] for x in sus[:4]]} on a value edge, but the derivative is complete")


def first(nodes):
    for x in nodes:
        l = X.LOC.get(x.id) or X.LOC.get(x.args[1].id)
        if l:
            return l
    return None


def detached(lo, cut):
    shapes = dict(lo.runs[0].machine.leafshape)
    for y in X.walk(lo.e):
        if y.op == "leaf" and len(y.args) == 1:
            shapes.setdefault(y.args[0], ())
    names = sorted({rand.base(y.args[0]) if rand.base(y.args[0]) != "dist" else "positions"
                    for x in cut for y in X.walk(x) if y.op == "leaf" and rand.base(y.args[0]) in CONTINUOUS})
    pool = rand.pool_of(lo.e)
    import time
    t0 = time.monotonic()
    vs = [t[0] for t in rand.dim_variants(lo.e)][:6]
    for nm in names:
        for k in range(8 * len(vs)):
            e = vs[k % len(vs)]
            if time.monotonic() - t0 > 40:
                return None
            base = Val(9000 + k, {"N": 3, "B": 2}, pool, special=False)
            env = {x: rand._h(k, x.args[0]) % base.size(x.args[1]) for x in lo.idx}
            h = 1e-5
            try:
                v0 = Frozen(base, shapes, {"N": 3, "B": 2}, 3, None)
                v1 = Frozen(base, shapes, {"N": 3, "B": 2}, 3, (nm, h))
                v2 = Frozen(base, shapes, {"N": 3, "B": 2}, 3, (nm, h), v0)
                f0, f1, f2 = (float(rand.ev(e, v, env)) for v in (v0, v1, v2))
            except (Undecidable, KeyError, OverflowError, RecursionError, TypeError, ValueError):
                continue
            if not all(map(math.isfinite, (f0, f1, f2))):
                continue
            d1, d2 = (f1 - f0) / h, (f2 - f0) / h
            if abs(d1 - d2) > 1e-3 * max(abs(d1), abs(d2)) and abs(d1 - d2) > 1e-6 * max(abs(f0), 1e-12) / 1.0 and \
                    abs(f1 - f2) > 1e-13 * max(abs(f1), abs(f2)):
                return {"input": nm, "derivative": d1, "seen by autodiff": d2, "seed": base.seed}
    return None


# --------------------------------------------------------------------- C13
def content_equal(a, b):
    """shallow equality of two abstract values"""
    if a is b:
        return True
    if isinstance(a, (int, float, str, bool, type(None))) and isinstance(b, (int, float, str, bool, type(None))):
        return type(a) is type(b) and a == b
    if isinstance(a, Sc) and isinstance(b, Sc):
        return a.e is b.e or iso.same(a.e, b.e)
    if isinstance(a, T) and isinstance(b, T):
        if a.shape != b.shape or a.dtype != b.dtype:
            return False
        vs = tuple(X.namedvar(f"@x{k}", d) for k, d in enumerate(a.shape))
        try:
            x, y = a.arr.at(vs), b.arr.at(vs)
        except Unsupported:
            return None
        return x is y or iso.same(x, y)
    if isinstance(a, (Dtype, Device)) and isinstance(b, (Dtype, Device)):
        return repr(a) == repr(b)
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return all(content_equal(x, y) for x, y in zip(a, b))
    if isinstance(a, L) and isinstance(b, L):
        return len(a.items) == len(b.items) and all(content_equal(x, y) for x, y in zip(a.items, b.items))
    if isinstance(a, D) and isinstance(b, D):
        return a.items.keys() == b.items.keys() and all(content_equal(a.items[k], b.items[k]) for k in a.items)
    return False


def changed(e):
    """does a mutate event leave the object different from before?  None: unknown"""
    o, b = e["obj"], e.get("before", MISSING)
    if isinstance(o, T):
        vs = tuple(X.namedvar(f"@x{k}", d) for k, d in enumerate(o.shape))
        try:
            x, y = b.at(vs), o.arr.at(vs)
        except Unsupported:
            return None
        if x is y or iso.same(x, y):
            return False
        try:
            return bool(rand.distinguish(x, y, list(vs), trials=20)) or None
        except (Undecidable, RecursionError, OverflowError):
            return None
    if isinstance(o, D):
        if b is MISSING:
            return None
        now = o.items
        return not (now.keys() == b[0].keys() and all(content_equal(now[k], b[0][k]) for k in now)
                    and len(o.symkeys) == len(b[1]))
    if isinstance(o, L):
        return not (len(o.items) == len(b) and all(content_equal(x, y) for x, y in zip(o.items, b)))
    if isinstance(o, Obj):
        now = o.attrs.get(e["attr"], MISSING)
        return not (now is b or (b is not MISSING and now is not MISSING and content_equal(now, b)))
    if isinstance(o, Cls):
        now = o.dict.get(e["attr"], MISSING)
        return not (now is b or (b is not MISSING and now is not MISSING and content_equal(now, b)))
    return None


def param_scenarios():
    """calls that are no energy calculations"""
    out = {}

    def f(m, c):
        p = call(m, "damping.parameters:get_params", method="d4", functional="b3lyp")
        return call(m, "damping.parameters:get_params", method="d4", functional="pbe", keep_doi=True), p
    out["get_params"] = f

    def f(m, c):
        return call(m, "damping.parameters:get_params", method="d3", functional="b3lyp", variant="zero", keep_doi=False)
    out["get_params d3"] = f

    def f(m, c):
        return call(m, "damping.parameters:get_params", method="d4", functional=None)
    out["get_params default"] = f
    for path, keys in (("disp:dftd4", BJ), ("dispersion.d4:DispD4", BJ), ("dispersion.d3:DispD3Zero", ZERO)):
        def f(m, c, path=path, keys=keys):
            # a looked-up block with its reference
            p = c.param(keys)
            p.items["doi"] = "10.1000/xyz"
            if path.startswith("disp:"):
                return call(m, path, c.numbers(), c.positions(), c.charge(), p)
            d = call(m, path, "d4", epoch=2, dtype=Dtype(c.dtype), device=Device(c.device))
            return call(m, m.getattr(d, "calculate"), c.numbers(), c.positions(), c.charge(), p)
        out[path + " dispersion with a documented block"] = f
    for path, keys in (("dispersion.d4:DispD4", BJ), ("dispersion.d4:DispD4Exact", BJ), ("dispersion.d3:DispD3Zero", ZERO)):
        def f(m, c, path=path, keys=keys):
            kw = D({"ref_charges": "gfn2", "ga": FL("ga")}, 1, "argument 'model_kwargs'")
            ck = D({}, 1, "argument 'cn_fn_kwargs'")
            d = call(m, path, "d4", epoch=2, model_kwargs=kw, cn_fn_kwargs=ck, dtype=Dtype(c.dtype), device=Device(c.device))
            t = call(m, "dispersion.twobody:TwoBodyTerm")
            call(m, m.getattr(d, "register"), t)
            call(m, m.getattr(d, "deregister"), t)
            return call(m, m.getattr(d, "calculate"), c.numbers(), c.positions(), c.charge(), c.param(keys))
        out[path + " with options"] = f
    def f(m, c):
        construct(m, c, 2)
    out["dispersion objects of every model"] = f
    for o in ("cutoff:Cutoff", "dispersion.d4:DispD4", "dispersion.twobody:TwoBodyTerm", "model.d4:D4Model", "model.d4s:D4SModel"):
        def f(m, c, o=o):
            args = [c.numbers()] if o.startswith("model") else []
            x = call(m, o, *args, epoch=1, **({"dtype": Dtype("f64"), "device": Device("dev")} if "Term" not in o else {}))
            call(m, m.getattr(x, "to"), Device("dev2"))
            return call(m, m.getattr(x, "type"), Dtype("f32"))
        out[o + " conversion"] = f
    return out


def check_C13(rep: Report):
    rep.rule("effect analysis: every write of a public call to an object older than the call (argument tensors, dictionaries, "
             "lists, model, damping, cutoff and method objects, reference tables, loaded parameter files, default argument "
             "objects, class attributes, module globals) is collected; a write that changes the contents is reported "
             "unless it only adds a derived attribute or entry, or the attribute is never read")
    rep.assume(*TRUST[:1])
    events, reads, names = [], set(), 0
    preread = set()
    seen_runs = set()

    def take(name, runs):
        nonlocal names
        names += 1
        bad = 0
        for r in runs:
            if id(r) in seen_runs:
                continue
            seen_runs.add(id(r))
            reads.update(r.machine.attr_reads)
            rep.sites += len(r.machine.events)
            for e in r.machine.events:
                if e["kind"] in ("mutate", "global-write") and e["epoch"] >= 2:
                    events.append((name, e))
                elif e["kind"] == "unknown-effect":
                    rep.undecided(name, "unknown effect")
        return bad

    for lo in all_lowered(rep):
        take(lo.full, lo.runs)
        rep.ok(lo.full)
    for nm, f in param_scenarios().items():
        for batch in (False, True) if "dispersion" in nm else (False,):
            def scenario(m):
                m.import_module(PK)
                c = Ctx(m, batch)
                m.epoch = 1
                return f(m, c)
            runs = lower(rep, scenario, nm)
            if runs is not None:
                take(nm, runs)
                rep.ok(nm)
    for name, e in events:
        judge_effect(rep, name, e, reads)


def judge_effect(rep, name, e, reads):
    where = locstr(e["loc"]).split(" (")[-1].rstrip(")")
    if e["kind"] == "global-write":
        if e.get("module") == "torch":
            rep.bad(f"torch-global:{e['name']}:{where}", f"{name} changes the global torch setting '{e['name']}'", e["loc"])
            return
        b = e.get("before", MISSING)
        if b is MISSING or b is None or content_equal(b, e.get("after")):
            return                   # a cache is filled: C14 decides whether it is keyed correctly
        if isinstance(b, (int, float)) and isinstance(e.get("after"), (int, float, Sc)):
            # a counter or a setting?  only matters if a result depends on it (C14)
            if (e["module"], e["name"]) not in SETTINGS:
                return
        rep.bad(f"global:{e['module']}.{e['name']}", f"{name} rebinds the module global {e['module']}.{e['name']}", e["loc"])
        return
    o = e["obj"]
    ch = changed(e)
    if ch is False:
        return
    if ch is None:
        rep.undecided(f"{name}: {e['what']} at {where}", "contents before and after not comparable")
        return
    org = e["origin"] or "object"
    if isinstance(o, Obj):
        b = e.get("before", MISSING)
        if b is MISSING or b is None:
            return                   # derived attribute: C14
        if e["attr"] is not None and not any(a == e["attr"] for _, a in reads):
            return                   # never read: no result depends on it
        if str(e["attr"]).startswith("_TensorLike__") or e["oepoch"] == 2:
            return
        rep.bad(f"object:{o.cls.name}.{e['attr']}:{where}", f"{name} changes attribute '{e['attr']}' of {org} "
                f"({o.cls.name} object that existed before the call)", e["loc"])
        return
    if isinstance(o, D):
        b = e["before"][0]
        if e["oepoch"] in (0, -1) and all(k in o.items and content_equal(o.items[k], v) for k, v in b.items()) and \
                not (e["origin"] and "file" in str(e["origin"])):
            return                   # entries added to a module-level cache: C14
        rep.bad(f"dict:{org}:{where}", f"{name} changes {org} ({e['what']})", e["loc"])
        return
    if isinstance(o, L):
        rep.bad(f"list:{org}:{where}", f"{name} changes {org} ({e['what']})", e["loc"])
        return
    if isinstance(o, Cls):
        if e.get("before", MISSING) is MISSING:
            return
        rep.bad(f"class:{o.name}.{e['attr']}", f"{name} changes class attribute {o.name}.{e['attr']}", e["loc"])
        return
    if isinstance(o, T):
        rep.bad(f"tensor:{org}:{where}", f"{name} changes the contents of {org} ({e['what']})", e["loc"])
        return
    rep.bad(f"{org}:{where}", f"{name} changes {org} ({e['what']})", e["loc"])


SETTINGS = set()


# --------------------------------------------------------------------- C14
class Reuse(Ctx):
    """the same argument objects for both calls, with new contents in between"""

    def __init__(self, m, batch, store, second, **kw):
        super().__init__(m, batch, **kw)
        self.store, self.second = store, second

    def t(self, name, shape, dtype=None, device=None):
        k = name
        if self.second and k in self.store:
            x = self.store[k]
            x.set_arr(Arr(x.shape, lambda i: X.leaf(name, *i)))
            self.m.leafshape[name] = tuple(x.shape)
            return x
        nm = name if self.second else name + "#1"
        x = leafT(self.m, nm, shape, dtype or self.dtype, device or self.device)
        self.store[k] = x
        return x

    def param(self, keys, device=None):
        if self.second and "param" in self.store:
            d = self.store["param"]
            for k in list(d.items):
                if k not in keys:
                    del d.items[k]
            for k in keys:
                d.items[k] = self.scalar(k)
            return d
        d = super().param(keys)
        self.store["param"] = d
        return d


class Partial(Ctx):
    """the arguments of the second call, except the named ones"""

    def __init__(self, m, batch, names, **kw):
        super().__init__(m, batch, **kw)
        self.names = names

    def t(self, name, shape, dtype=None, device=None):
        return leafT(self.m, name + ("#1" if name.split("~")[0] in self.names else ""), shape, dtype or self.dtype,
                     device or self.device)


PARTS = (("positions", ("positions",)), ("total charge", ("charge",)),
         ("damping parameters", ("s6", "s8", "s9", "s10", "a1", "a2", "alp", "rs6", "rs8", "rs9", "bet")),
         ("atomic numbers", ("numbers",)), ("partial charges", ("q",)), ("coordination numbers", ("cn",)),
         ("coefficients", ("c6", "c9")), ("radii", ("r4r2", "rvdw", "radii", "rcov")), ("cutoffs", ("cutoff", "disp2", "disp3", "cn_eeq")),
         ("model options", ("ga", "gc", "wf")))


def sequences():
    """(name, first(m, batch), second scenario)"""
    core = ["dftd4", "dftd4 d4s", "dftd4 few parameters", "dftd4 zero damping", "DispD4", "DispD4Exact", "dispersion2",
            "get_atm_dispersion", "get_properties", "d4 model default", "d4s model default"]
    out = []

    def other(name, **kw):
        def f(m, batch):
            c = Ctx(m, kw.get("batch", batch), dtype=kw.get("dtype", "f64"), device=kw.get("device", "dev"), tag="#1",
                    n=kw.get("n", "N"), b=kw.get("b", "B"))
            SC[name].fn(m, c)
        return f
    for s in core:
        out.append((f"{s}: another molecule of the same size", other(s), s))
        out.append((f"{s}: another molecule of another size", other(s, n="M", b="Bx"), s))
        out.append((f"{s}: same call in single precision", other(s, dtype="f32"), s))
        out.append((f"{s}: same call on another device", other(s, device="dev2"), s))

        def again(m, batch, s=s):
            SC[s].fn(m, Ctx(m, batch))
        out.append((f"{s}: the same call", again, s))

        def reuse(m, batch, s=s):
            st = {}
            SC[s].fn(m, Reuse(m, batch, st, False))
            return Reuse(m, batch, st, True)
        out.append((f"{s}: the same tensors with new contents", reuse, s))
    for a in ("dftd4 s10", "dftd4 d4s", "dftd4 zero damping", "dftd4 modified zero damping", "dftd4 optimised power damping",
              "dftd4 all options", "dftd4 model instance", "get_properties", "d4 model given", "d4s model given",
              "DispD3Zero with D4 model", "DispD4 model options"):
        for b in ("dftd4", "dftd4 few parameters", "DispD4", "get_properties", "d4 model default", "d4s model default"):
            def before(m, batch, a=a):
                SC[a].fn(m, Ctx(m, batch))
            out.append((f"{b}: after {a} for the same molecule", before, b))
    for s in ["dftd4", "DispD4Exact", "dispersion2", "get_atm_dispersion", "get_properties", "d4 model given", "d4s model given",
              "dftd4 all options", "DispD3Zero all options"]:
        for what, names in PARTS:
            def part(m, batch, s=s, names=names):
                SC[s].fn(m, Partial(m, batch, names))
            out.append((f"{s}: the same call with other {what}", part, s))

    def failed(m, batch):
        c = Ctx(m, batch, tag="#1")
        for kw in ({"model": "nonsense"}, {"r4r2": c.pairwise("bad")}):
            try:
                call(m, "disp:dftd4", c.numbers(), c.positions(), c.charge(), c.param(BJ10), **kw)
            except AbsRaise:
                pass
    for b in ("dftd4", "DispD4", "get_properties"):
        out.append((f"{b}: after failed calls", failed, b))

    def objects(m, batch):
        construct(m, Ctx(m, batch, tag="#1"), 1)
    for b in ("dftd4", "DispD4", "DispD3Zero"):
        if b in SC:
            out.append((f"{b}: after other method objects were set up", objects, b))
    return out


def construct(m, c, epoch):
    """set up, extend, reduce and convert method objects with every model"""
    for path in ("dispersion.d4:DispD4", "dispersion.d4:DispD4Exact", "dispersion.d3:DispD3BJ", "dispersion.d3:DispD3Zero"):
        for model in ("d3", "D4", "d4s", "d5"):
            try:
                d = call(m, path, model, epoch=epoch, dtype=Dtype(c.dtype), device=Device(c.device))
                call(m, m.getattr(d, "register"), call(m, "dispersion.twobody:TwoBodyTerm"))
                terms = m.getattr(d, "terms")
                if isinstance(terms, L):
                    call(m, m.getattr(d, "deregister"), terms.items[0])
                d = call(m, m.getattr(d, "type"), Dtype("f32"))
            except AbsRaise:
                pass


def object_sequences():
    """one object used for several calls: (name, build(m, c), use(m, obj, c), kinds)"""
    out = []
    for path, keys, model in (("dispersion.d4:DispD4", BJ10, "d4"), ("dispersion.d4:DispD4", BJ, "d4s"),
                              ("dispersion.d4:DispD4Exact", BJ, "d4"), ("dispersion.d3:DispD3Zero", ZERO, "d4")):
        def build(m, c, path=path, model=model):
            return call(m, path, model, epoch=1, dtype=Dtype(c.dtype), device=Device(c.device))

        def use(m, o, c, keys=keys):
            return call(m, m.getattr(o, "calculate"), c.numbers(), c.positions(), c.charge(), c.param(keys))
        out.append((f"{path}[{model}] object", build, use, ("N",)))

        def use(m, o, c, keys=keys):
            kw = {"q": c.atomwise("q")} if "d3" not in path else {}
            return call(m, m.getattr(o, "calculate"), c.numbers(), c.positions(), c.charge(), c.param(keys[:-1]),
                        r4r2=c.atomwise("r4r2"), rvdw=c.pairwise("rvdw~s"), **kw)
        out.append((f"{path}[{model}] object with options", build, use, ("N",)))
    for dm in ("RationalDamping", "ZeroDamping", "MZeroDamping", "OptimisedPowerDamping"):
        def build(m, c, dm=dm):
            return scen.damp(m, dm)

        def use(m, o, c, dm=dm):
            keys = {"RationalDamping": ("a1", "a2", "s6", "s8"), "ZeroDamping": ("rs6", "rs8", "alp", "s6", "s8"),
                    "MZeroDamping": ("rs6", "rs8", "alp", "bet", "s6", "s8"),
                    "OptimisedPowerDamping": ("a1", "a2", "bet", "s6", "s8")}[dm]
            return call(m, "dispersion.twobody:dispersion2", c.numbers(), c.positions(), c.param(keys), c.pairwise("c6~s"),
                        c.atomwise("r4r2"), c.pairwise("rvdw~s"), o)
        out.append((f"{dm} object", build, use, ("N",)))

    def build(m, c):
        return None

    def use(m, o, c):
        return call(m, "dispersion.twobody:dispersion2", c.numbers(), c.positions(), c.param(("s6", "s8", "a1", "a2")),
                    c.pairwise("c6~s"), c.atomwise("r4r2"))
    out.append(("default damping object", build, use, ("N",)))
    for kind in ("d4", "d4s"):
        nu = {}

        def build(m, c, kind=kind):
            n = leafT(m, "numbers", c.nshape, "i64", c.device)
            return call(m, f"model.{kind}:{kind.upper()}Model", n, epoch=1, dtype=Dtype(c.dtype), device=Device(c.device))

        def use(m, o, c, kind=kind):
            gw = call(m, m.getattr(o, "weight_references"), c.atomwise("cn"), c.atomwise("q"))
            return (gw, call(m, m.getattr(o, "get_atomic_c6"), gw), call(m, m.getattr(o, "get_polarizabilities"), gw))
        out.append((f"{kind} model object: c6", build, use, ("N", "N"), lambda v: v[1]))
        out.append((f"{kind} model object: polarizability", build, use, ("N",), lambda v: v[2]))

        def use(m, o, c, kind=kind):
            return call(m, m.getattr(o, "weight_references"), None, c.atomwise("q")) if c.tag else \
                call(m, m.getattr(o, "weight_references"), c.atomwise("cn"), None)
        out.append((f"{kind} model object: weights", build, use, ("N", 7) if kind == "d4" else ("N", "N", 7)))
    return out


def check_C14(rep: Report):
    rep.rule("two calls are interpreted one after the other in one abstract process; the value graph of the second equals the "
             "graph of the same call made first, and contains no leaf of the first call's arguments (other molecule, other "
             "size, other options, other type or device, failed call, same tensors with new contents, shared objects)")
    rep.assume(*TRUST[:1])
    from . import data
    for meth, (_, tab) in data.toml_files().items():
        # a dictionary the lookup handed out belongs to its caller
        if isinstance(tab, dict) and "parameter" in tab:
            data.histories(rep, meth, tab)
    fresh = {}
    batches = (False, True)
    want = {}
    names = {s for _, _, s in sequences()}
    for lo in lowered(rep, names=names, batches=batches):
        want[lo.name, bool(lo.c.lead), lo.label] = lo
    for nm, first_, sname in sequences():
        s = SC[sname]
        for batch in batches if rep.tier == "thorough" or sname in ("dftd4", "DispD4", "get_properties", "d4 model default",
                                                                    "d4s model default") else (False,):
            def scenario(m):
                m.import_module(PK)
                m.epoch = 1
                c2 = first_(m, batch)
                m.epoch = 1
                c = c2 if isinstance(c2, Ctx) else Ctx(m, batch)
                return s.fn(m, c)
            compare_history(rep, f"{nm}{' (batch)' if batch else ''}", scenario, s.outs, batch,
                            lambda lab: want.get((sname, batch, lab)))
    for item in object_sequences():
        nm, build, use, kinds = item[:4]
        pick = item[4] if len(item) > 4 else None
        for batch in batches:
            def once(m):
                m.import_module(PK)
                m.epoch = 1
                c = Ctx(m, batch)
                o = build(m, c)
                return use(m, o, c)

            def twice(m):
                m.import_module(PK)
                m.epoch = 1
                c = Ctx(m, batch)
                o = build(m, c)
                use(m, o, Ctx(m, batch, tag="#1"))
                m.epoch = 1
                return use(m, o, c)

            def inplace(m):
                m.import_module(PK)
                m.epoch = 1
                st = {}
                c0 = Reuse(m, batch, st, False)
                o = build(m, Ctx(m, batch))
                use(m, o, c0)
                m.epoch = 1
                return use(m, o, Reuse(m, batch, st, True))
            b = " (batch)" if batch else ""
            r0 = lower(rep, once, nm + b)
            c = Ctx(r0[0].machine, batch)
            idx = scen.indices(c, kinds)
            e0 = result(rep, r0, idx, nm + b, pick)
            if e0 is None:
                continue
            for lab, sc in (("second call", twice), ("new contents", inplace)):
                runs = lower(rep, sc, f"{nm}{b} {lab}")
                e = result(rep, runs, idx, f"{nm}{b} {lab}", pick)
                if e is not None:
                    history_verdict(rep, f"{nm}{b} {lab}", e, e0, idx)


def compare_history(rep, name, scenario, outs, batch, want):
    runs = lower(rep, scenario, name)
    if runs is None:
        return
    c = Ctx(runs[0].machine, batch)
    for lab, pick, kinds in outs:
        lo = want(lab)
        if lo is None:
            continue
        idx = scen.indices(c, kinds)
        e = result(rep, runs, idx, f"{name}: {lab}", pick)
        if e is not None:
            for r in runs:
                if r.exc is None:
                    v = pick(r.value) if pick else r.value
                    w = lo.vals[0]
                    if isinstance(v, T) and isinstance(w, T) and (v.dtype != w.dtype or v.device != w.device):
                        rep.bad(f"{name}: {lab}", f"type or device of the result ({v.dtype}, {v.device}) is that of the earlier "
                                f"call, not ({w.dtype}, {w.device})", X.LOC.get(e.id))
                    break
            history_verdict(rep, f"{name}: {lab}", e, lo.e, idx)


def history_verdict(rep, name, e, want, idx):
    rep.sites += 1
    rep.count(e)
    if e is want or iso.key(e) == iso.key(want):
        rep.ok(name)
        return
    stale = [x for x in X.walk(e) if x.op == "leaf" and "#1" in str(x.args[0])]
    rep.equal(name, e, want, idx, X.LOC.get(stale[0].id) if stale else None, suspect=bool(stale),
              what="result of a call made after another one" + (f" (depends on {stale[0].args[0]} of the earlier call)" if stale
                                                                 else ""))


# --------------------------------------------------------------------- C24
CONVERSIONS = (("type single", "f64", "dev", "f32", "dev", lambda m, o: call(m, m.getattr(o, "type"), Dtype("f32"), epoch=1)),
               ("type double", "f32", "dev", "f64", "dev", lambda m, o: call(m, m.getattr(o, "type"), Dtype("f64"), epoch=1)),
               ("to device", "f64", "dev", "f64", "dev2", lambda m, o: call(m, m.getattr(o, "to"), Device("dev2"), epoch=1)),
               ("to device and type", "f64", "dev", "f32", "dev2",
                lambda m, o: call(m, m.getattr(o, "to"), epoch=1, device=Device("dev2"), dtype=Dtype("f32"))),
               ("to unchanged", "f64", "dev", "f64", "dev",
                lambda m, o: call(m, m.getattr(o, "to"), epoch=1, device=Device("dev"), dtype=Dtype("f64"))))


def custom_cn(m):
    """a caller-supplied coordination number function with keyword arguments"""
    def f(mm, a, kw):
        d = dict(zip(["numbers", "positions"], a))
        d.update(kw)
        nu, po = d.pop("numbers"), d.pop("positions")
        pl, extra = lamE(po, "p"), []
        for k in sorted(d):
            v = d[k]
            extra.append(lamE(v, "k") if isinstance(v, T) else mm.lib.sce(v))
            if isinstance(v, T) and v.shape and v.device != po.device:
                mm.event("device-mix", op="cn_fn", devices=[v.device, po.device], loc=mm.loc)
        return mm.tlib.new(nu.shape, lambda i: X.call("mycn", pl, *extra, *i), po.dtype, po.device)
    return Native(f, "cn_fn")


def convertible():
    """(name, build(m, c), use(m, obj, c) -> tuple, outputs)"""
    out = []
    E = [("energy", lambda v: v, ("N",))]
    dd = lambda c: {"dtype": Dtype(c.dtype), "device": Device(c.device)}

    # cutoffs
    names = ("disp2", "disp3", "cn", "cn_eeq")
    for nm, f in (("all given", lambda c: {n: c.scalar(n) for n in names}),
                  ("numbers", lambda c: {n: FL(n) for n in names}),
                  ("two given", lambda c: {"disp3": c.scalar("disp3"), "cn_eeq": c.scalar("cn_eeq")}),
                  ("defaults", lambda c: {})):
        def build(m, c, f=f):
            return call(m, "cutoff:Cutoff", epoch=1, **f(c), **dd(c))

        def use(m, o, c):
            return tuple(m.getattr(o, n) for n in names)
        out.append((f"Cutoff {nm}", build, use, [(n, lambda v, k=k: v[k], ()) for k, n in enumerate(names)]))
    # models
    for kind in ("d4", "d4s"):
        wfl = (lambda c: c.pairwise("wf")) if kind == "d4s" else (lambda c: c.scalar("wf"))
        for nm, f in (("defaults", lambda c: {}),
                      ("factors", lambda c: {"ga": FL("ga"), "gc": FL("gc"), "ref_charges": "gfn2"}),
                      ("tensors", lambda c, wfl=wfl: {"wf": wfl(c), "rc6": c.t("rc6", c.nshape + (c.N, 7, 7))}),
                      ("tensor factors", lambda c: {"ga": c.scalar("ga"), "gc": c.scalar("gc")})):
            def build(m, c, f=f, kind=kind):
                return call(m, f"model.{kind}:{kind.upper()}Model", c.numbers(), epoch=1, **f(c), **dd(c))

            def use(m, o, c):
                gw = call(m, m.getattr(o, "weight_references"), c.atomwise("cn"), c.atomwise("q"))
                return (gw, call(m, m.getattr(o, "get_atomic_c6"), gw), call(m, m.getattr(o, "get_polarizabilities"), gw),
                        m.getattr(o, "rc6"))
            outs = [("weights", lambda v: v[0], ("N", 7) if kind == "d4" else ("N", "N", 7)), ("c6", lambda v: v[1], ("N", "N")),
                    ("polarizability", lambda v: v[2], ("N",)), ("reference c6", lambda v: v[3], ("N", "N", 7, 7))]
            out.append((f"{kind} model {nm}", build, use, outs))
    # dispersion objects
    for path, keys in (("dispersion.d4:DispD4", BJ10), ("dispersion.d4:DispD4Exact", BJ), ("dispersion.d3:DispD3BJ", BJ + ("rs9",)),
                       ("dispersion.d3:DispD3Zero", ZERO)):
        def use(m, o, c, keys=keys):
            return call(m, m.getattr(o, "calculate"), c.numbers(), c.positions(), c.charge(), c.param(keys))
        opts = [("defaults", lambda m, c: ("d4", {}))]
        if "DispD4" in path:
            opts += [("d4s", lambda m, c: ("d4s", {})),
                     ("model options", lambda m, c: ("d4", {"model_kwargs": D({"ga": FL("ga"), "gc": FL("gc"),
                                                                               "ref_charges": "gfn2", "wf": FL("wf0")}, 1)})),
                     ("model tensors", lambda m, c: ("d4", {"model_kwargs": D({"wf": c.scalar("wf"),
                                                                               "rc6": c.t("rc6", c.nshape + (c.N, 7, 7))}, 1)})),
                     ("model instance", lambda m, c: (call(m, "model.d4:D4Model", c.numbers(), epoch=1, ref_charges="gfn2",
                                                           ga=FL("ga"), wf=c.scalar("wf"), **dd(c)), {})),
                     ("coordination number function", lambda m, c: ("d4", {"cn_fn": custom_cn(m)})),
                     ("coordination number options", lambda m, c: ("d4", {
                         "cn_fn": custom_cn(m), "cn_fn_kwargs": D({"kcn": FL("kcn"), "rcov": c.atomwise("rcov")}, 1)}))]
        for nm, f in opts:
            def build(m, c, f=f, path=path):
                model, kw = f(m, c)
                return call(m, path, model, epoch=1, **kw, **dd(c))
            out.append((f"{path.split(':')[1]} {nm}", build, use, E))

        def terms(m, c, path=path):
            d = call(m, "dispersion.base:Disp", "d4", epoch=1, **dd(c))
            t = call(m, "dispersion.twobody:TwoBodyTerm", epoch=1, damping_fn=scen.damp(m, "ZeroDamping"), charge_dependent=False)
            call(m, m.getattr(d, "register"), t, epoch=1)
            return d

        def use2(m, o, c):
            return call(m, m.getattr(o, "calculate"), c.numbers(), c.positions(), c.charge(), c.param(ZERO))
        if path.endswith("DispD4"):
            out.append(("Disp with registered terms", terms, use2, E))

            def dereg(m, c):
                d = call(m, "dispersion.d4:DispD4", "d4", epoch=1, **dd(c))
                ts = list(m.iterate(m.getattr(d, "terms")))
                call(m, m.getattr(d, "deregister"), ts[-1], epoch=1)
                return d
            out.append(("DispD4 without three-body term", dereg, use, E))
    # terms
    for nm, path, damp, cd in (("two-body term", "dispersion.twobody:TwoBodyTerm", "ZeroDamping", False),
                               ("two-body term (charges)", "dispersion.twobody:TwoBodyTerm", "RationalDamping", True),
                               ("ATM term", "dispersion.d4:D4ATMApprox", "ZeroDamping", True),
                               ("exact ATM term", "dispersion.d4:D4ATMExact", "ZeroDamping", True),
                               ("D3 ATM term", "dispersion.d3:D3ATM", "ZeroDamping", False)):
        def build(m, c, path=path, damp=damp, cd=cd):
            return call(m, path, epoch=1, damping_fn=scen.damp(m, damp), charge_dependent=cd)

        def use(m, o, c):
            nu = c.numbers()
            return call(m, m.getattr(o, "calculate"), numbers=nu, positions=c.positions(), param=c.param(
                BJ + ("rs6", "rs8", "rs9", "bet")), cn=c.atomwise("cn"), model=opaque_model(m, c, numbers=nu), q=c.atomwise("q"),
                r4r2=c.atomwise("r4r2"), rvdw=c.pairwise("rvdw~s"), cutoff=cutoff_obj(m, c))
        out.append((nm, build, use, E))
    return out


def one_eps(e):
    """tiny regularisation constants of the two types are identified"""
    d = {x: X.mk(x.op, "f64") for x in X.walk(e) if x.op in ("eps", "fmax", "fmin", "ftiny") and x.args[0] != "f64"}
    return X.subst(e, d) if d else e


def check_C24(rep: Report):
    rep.rule("for every cutoff, model, dispersion and term object with default and with caller-supplied settings and every "
             "conversion: results computed with the converted object have the value graph, type and device of results "
             "computed with an object constructed with the same settings for the new type and device; no tensor on the old "
             "device takes part, and a second conversion back does not change the graph")
    rep.assume(*TRUST[:1], "TensorLike of tad_mctc clones the attributes named in __slots__")
    for nm, build, use, outs in convertible():
        for batch in (False, True) if rep.tier == "thorough" or "model" in nm else (False,):
            for cname, dt0, dev0, dt1, dev1, conv in CONVERSIONS:
                name = f"{nm}{' (batch)' if batch else ''}, {cname}"

                def native_(m):
                    m.import_module(PK)
                    m.epoch = 1
                    c = Ctx(m, batch, dtype=dt1, device=dev1)
                    return use(m, build(m, c), c)

                def converted(m):
                    m.import_module(PK)
                    m.epoch = 1
                    o = build(m, Ctx(m, batch, dtype=dt0, device=dev0))
                    return use(m, conv(m, o), Ctx(m, batch, dtype=dt1, device=dev1))

                def original(m):
                    m.import_module(PK)
                    m.epoch = 1
                    c = Ctx(m, batch, dtype=dt0, device=dev0)
                    o = build(m, c)
                    conv(m, o)
                    return use(m, o, c)

                r0, r1 = lower(rep, native_, name), lower(rep, converted, name)
                if r0 is None or r1 is None:
                    continue
                x0 = [r.exc for r in r0 if r.exc is not None]
                x1 = [r.exc for r in r1 if r.exc is not None]
                if x0:
                    rep.undecided(name, f"native object raises {x0[0].etype}: {x0[0]}")
                    continue
                if x1:
                    rep.bad(f"raise:{nm}:{cname}", f"{name}: using the converted object raises {x1[0].etype}: {x1[0]}", x1[0].loc)
                    continue
                ev0 = [e for r in r0 for e in r.machine.events if e["kind"] == "device-mix"]
                ev = [e for r in r1 for e in r.machine.events if e["kind"] == "device-mix"]
                if len(ev) > len(ev0):
                    e = ev[-1]
                    rep.bad(f"device:{nm}:{cname}", f"{name}: {e['op']} combines tensors on the devices "
                            f"{'/'.join(map(str, e['devices']))}", e["loc"])
                    continue
                c = Ctx(r0[0].machine, batch, dtype=dt1, device=dev1)
                for lab, pick, kinds in outs:
                    idx = scen.indices(c, kinds) if kinds else []
                    full = f"{name}: {lab}"
                    a, b = result(rep, r0, idx, full, pick), result(rep, r1, idx, full, pick)
                    if a is None or b is None:
                        continue
                    rep.sites += 1
                    v0, v1 = pick(r0[0].value), pick(r1[0].value)
                    if isinstance(v0, T) and isinstance(v1, T) and (v0.dtype, v0.device) != (v1.dtype, v1.device):
                        rep.bad(f"kind:{nm}:{cname}:{lab}", f"{full} of the converted object is ({v1.dtype}, {v1.device}) instead "
                                f"of ({v0.dtype}, {v0.device})", X.LOC.get(b.id))
                        continue
                    rep.equal(full, one_eps(b), one_eps(a), idx, what="result of a converted object")
                if cname in ("type single", "to device"):
                    r2 = lower(rep, original, name)
                    c0 = {}

                    def plain(m):
                        m.import_module(PK)
                        m.epoch = 1
                        c = Ctx(m, batch, dtype=dt0, device=dev0)
                        return use(m, build(m, c), c)
                    r3 = lower(rep, plain, name)
                    if r2 is None or r3 is None:
                        continue
                    x2 = [r.exc for r in r2 if r.exc is not None]
                    if x2:
                        rep.bad(f"original:{nm}:{cname}", f"{name}: the original cannot be used after the conversion "
                                f"({x2[0].etype}: {x2[0]})", x2[0].loc)
                        continue
                    for lab, pick, kinds in outs:
                        idx = scen.indices(c, kinds) if kinds else []
                        a, b = result(rep, r3, idx, name, pick), result(rep, r2, idx, name, pick)
                        if a is not None and b is not None:
                            rep.equal(f"{name}: {lab} of the original", b, a, idx, what="result of the original after a conversion")
