"""C19: inconsistent inputs raise the documented errors."""
from __future__ import annotations

from .. import expr as X
from ..ctx import *
from ..report import Report, locstr
from ..scen import BJ, BJ10, ZERO, MZERO, OP, damp
from .formulas import TRUST, lower

ENTRY = {
    "dftd4": BJ, "dispersion.d4:DispD4": BJ, "dispersion.d4:DispD4Exact": BJ, "dispersion.d3:DispD3BJ": BJ + ("rs9",),
    "dispersion.d3:DispD3Zero": ZERO, "Disp with registered terms": BJ,
}


def energy_call(m, c, entry, nu, pos, charge, keys, model="d4", **kw):
    dd = {"dtype": Dtype(c.dtype), "device": Device(c.device)}
    if entry == "dftd4":
        return call(m, "disp:dftd4", nu, pos, charge, c.param(keys), model=model, **kw)
    if entry.startswith("Disp with"):
        d = call(m, "dispersion.base:Disp", model, epoch=1, **dd)
        for t, a in (("dispersion.twobody:TwoBodyTerm", {"damping_fn": damp(m, "RationalDamping"), "charge_dependent": False}),
                     ("dispersion.d4:D4ATMExact", {"damping_fn": damp(m, "ZeroDamping"), "charge_dependent": True})):
            call(m, m.getattr(d, "register"), call(m, t, epoch=1, **a), epoch=1)
    else:
        d = call(m, entry, model, epoch=1, **dd)
    return call(m, m.getattr(d, "calculate"), nu, pos, charge, c.param(keys), **kw)


def atom_shapes(lead):
    if not lead:
        return [("M",), ("N", 1), (1,), (), (1, "N"), ("N", "N"), ("N", 3), ("B", "N"), ("M", "N")]
    return [("N",), ("B", "M"), ("B", 1), (1, "N"), ("B", "N", 1), (1, 1), ("B",), (), ("B", 1, "N"), ("N", "B"), ("Bx", "N"), (1,)]


def pair_shapes(lead):
    if not lead:
        return [("N",), ("N", 1), (1, "N"), ("M", "M"), (1, 1), ("N", "M"), ("M", "N"), (), (1,), (1, "N", "N"), ("N", "N", 1),
                ("B", "N", "N")]
    return [("B", "N"), ("N", "N"), ("B", "N", 1), ("B", 1, "N"), (1, "N", "N"), ("B", "M", "M"), ("B", 1, 1), ("N",), (),
            ("Bx", "N", "N"), ("B", 1, "N", "N"), ("B", "N", "N", 1)]


def pos_shapes(lead):
    if not lead:
        return [("M", 3), (1, 3), (3,), ("N", "N", 3), ("B", "N", 3), (1, "N", 3), ("N", 1, 3)]
    return [("N", 3), ("B", "M", 3), ("B", 1, 3), (1, "N", 3), ("B", "N", 1, 3), ("B", 3), (3,), ("Bx", "N", 3), ("B", "N", "N", 3)]


def expect(rep, name, key, scenario, etype, allow=lambda r: False, symbolic=False, valid=()):
    runs = lower(rep, scenario, name)
    if runs is None:
        return
    rep.sites += 1
    bad = None
    for r in runs:
        if allow(r):
            continue
        if symbolic and r.exc is None:
            rep.undecided(name, "a path accepts the symbolic name")
            return
        if r.exc is None:
            bad = ("is accepted without an error", None)
            break
        if r.exc.etype == "?":
            rep.undecided(name, "unknown exception type")
            return
        ok = r.exc.etype == etype or subtype(r.exc.etype, etype)
        if not ok and not r.exc.explicit and locstr(r.exc.loc) in valid:
            rep.undecided(name, f"also consistent inputs end in a library error there: {r.exc}")
            return
        if not ok:
            bad = (f"raises {r.exc.etype} ({str(r.exc)[:80]}) instead of {etype}", r.exc.loc)
            break
    if bad:
        rep.bad(key, f"{name} {bad[0]}", bad[1] or (entry_loc(runs[0])))
    else:
        rep.ok(name)


def subtype(a, b):
    import builtins
    x, y = getattr(builtins, a, None), getattr(builtins, b, None)
    return isinstance(x, type) and isinstance(y, type) and issubclass(x, y)


def entry_loc(r):
    for e in r.machine.functions:
        if str(e).endswith("Disp.calculate") or str(e).endswith("dispersion2"):
            return str(e)
    return None


def check_C19(rep: Report):
    rep.rule("every public energy call is interpreted with one input of a shape that does not fit (other size, missing or extra "
             "axis, axis of length one that would broadcast, transposed, unbatched for a batch): every path raises "
             "ValueError; charges for methods without charge-dependent terms raise RuntimeError; unknown names raise "
             "ValueError; each damping function is interpreted with every subset of its required parameters missing: "
             "every path raises TypeError")
    rep.assume(*TRUST[:1], "differently named axes have different lengths, none of them one")
    for entry, keys in ENTRY.items():
        for batch in (False, True):
            b = " (batch)" if batch else ""
            lead = ("B",) if batch else ()
            cdep = "D3" not in entry
            jobs = [("positions", s) for s in pos_shapes(lead)] + [("rvdw", s) for s in pair_shapes(lead)]
            for a in ("r4r2", "rcov") + (("q",) if cdep else ()):
                jobs += [(a, s) for s in atom_shapes(lead)]

            def good(m):
                m.import_module(PK)
                m.epoch = 1
                c = Ctx(m, batch)
                return energy_call(m, c, entry, c.numbers(), c.positions(), c.charge(), keys)
            valid = {locstr(r.exc.loc) for r in lower(rep, good, f"{entry}{b}: consistent inputs") or () if r.exc is not None}
            for arg, shape in jobs:
                def scenario(m):
                    m.import_module(PK)
                    m.epoch = 1
                    c = Ctx(m, batch)
                    t = c.t(arg, shape)
                    kw = {} if arg == "positions" else {arg: t}
                    return energy_call(m, c, entry, c.numbers(), t if arg == "positions" else c.positions(), c.charge(), keys, **kw)
                nm = entry.split(":")[-1]
                expect(rep, f"{nm}{b}: {arg} of shape {fmt(shape)} for atomic numbers of shape {fmt(lead + ('N',))}",
                       f"shape:{nm}:{arg}", scenario, "ValueError", valid=valid)
            if not cdep:
                def scenario(m):
                    m.import_module(PK)
                    m.epoch = 1
                    c = Ctx(m, batch)
                    return energy_call(m, c, entry, c.numbers(), c.positions(), c.charge(), keys, q=c.atomwise("q"))
                expect(rep, f"{entry.split(':')[-1]}{b}: charges without charge-dependent term", f"charges:{entry}", scenario,
                       "RuntimeError")
    # no terms at all, and terms without charges
    for nm, terms in (("Disp without terms", ()), ("Disp with charge-independent terms", (("dispersion.twobody:TwoBodyTerm", False),)),
                      ("Disp with two charge-independent terms", (("dispersion.twobody:TwoBodyTerm", False),
                                                                  ("dispersion.d4:D4ATMApprox", False)))):
        def scenario(m):
            m.import_module(PK)
            m.epoch = 1
            c = Ctx(m, False)
            d = call(m, "dispersion.base:Disp", "d4", epoch=1, dtype=Dtype(c.dtype), device=Device(c.device))
            for t, cd in terms:
                call(m, m.getattr(d, "register"), call(m, t, epoch=1, charge_dependent=cd), epoch=1)
            return call(m, m.getattr(d, "calculate"), c.numbers(), c.positions(), c.charge(), c.param(BJ), q=c.atomwise("q"))
        expect(rep, f"{nm}: charges given", f"charges:{nm}", scenario, "RuntimeError")
    names(rep)
    dampings(rep)


def infeasible(r, known):
    """the path requires the symbolic name to be one of the known ones"""
    lv = {"str:" + k for k in known}
    for cnd, t in r.conds:
        d = {x: X.FALSE for x in X.walk(cnd) if x.op == "bfn" and x.args[0] == "streq" and
             any(isinstance(y, X.E) and y.op == "leaf" and y.args[0] in lv for y in x.args)}
        c = X.subst(cnd, d) if d else cnd
        if c in (X.TRUE, X.FALSE) and (c is X.TRUE) != t:
            return True
    return False


def fmt(s):
    return "(" + ", ".join(map(str, s)) + ("," if len(s) == 1 else "") + ")"


def names(rep):
    known = ("d3", "d4", "d4s", "d5")
    for entry in ("dftd4", "dispersion.base:Disp", "dispersion.d4:DispD4", "dispersion.d4:DispD4Exact", "dispersion.d3:DispD3BJ"):
        nm = entry.split(":")[-1]
        for name in ("d2", "d4x", "", "4", "d", "d4 ", "D6", "eeq", "gfn2", "d4_s", "instance", Str(X.leaf("name"))):
            def scenario(m):
                m.import_module(PK)
                m.epoch = 1
                c = Ctx(m, False)
                if entry == "dftd4":
                    return call(m, "disp:dftd4", c.numbers(), c.positions(), c.charge(), c.param(BJ), model=name)
                return call(m, entry, name, dtype=Dtype(c.dtype), device=Device(c.device))

            def allow(r):
                return isinstance(name, Str) and infeasible(r, known)
            expect(rep, f"{nm}: model name {name if isinstance(name, Str) else repr(name)}", f"model-name:{nm}", scenario,
                   "ValueError", allow, isinstance(name, Str))
    for kind in ("d4", "d4s"):
        for ref in ("eeqq", "", "EEQ ", "gfn1", "d4", None, Str(X.leaf("ref"))):
            for rc6 in (False, True):
                def scenario(m):
                    m.import_module(PK)
                    m.epoch = 1
                    c = Ctx(m, False)
                    kw = {"rc6": c.t("rc6", c.nshape + (c.N, 7, 7))} if rc6 else {}
                    o = call(m, f"model.{kind}:{kind.upper()}Model", c.numbers(), ref_charges=ref, dtype=Dtype(c.dtype),
                             device=Device(c.device), **kw)
                    return call(m, m.getattr(o, "weight_references"), c.atomwise("cn"), c.atomwise("q"))

                def allow(r):
                    return isinstance(ref, Str) and infeasible(r, ("eeq", "gfn2"))
                expect(rep, f"{kind} model{' with given C6' if rc6 else ''}: reference charges {ref!r}", f"ref-charges:{kind}",
                       scenario, "ValueError", allow, isinstance(ref, Str))
    for rt in ("foo", "", None, "R4R2x"):
        for matrix in (False, True):
            def scenario(m):
                m.import_module(PK)
                m.epoch = 1
                c = Ctx(m, False)
                d = damp(m, "RationalDamping")
                d.attrs["radius_type"] = rt
                return call(m, "dispersion.twobody:dispersion2", c.numbers(), c.positions(), c.param(BJ), c.pairwise("c6~s"),
                            c.atomwise("r4r2"), c.pairwise("rvdw~s"), d, as_matrix=matrix)
            expect(rep, f"dispersion2: radius type {rt!r}{' (matrix)' if matrix else ''}", "radius-type", scenario, "ValueError")
    for dn, keys in (("ZeroDamping", ZERO), ("MZeroDamping", MZERO)):
        def scenario(m):
            m.import_module(PK)
            m.epoch = 1
            c = Ctx(m, False)
            return call(m, "dispersion.twobody:dispersion2", c.numbers(), c.positions(), c.param(keys), c.pairwise("c6~s"),
                        c.atomwise("r4r2"), damping_function=damp(m, dn))
        expect(rep, f"dispersion2: {dn} without van der Waals radii", f"rvdw-missing:{dn}", scenario, "ValueError")


REQ = {"RationalDamping": {6: ("a1", "a2"), 8: ("a1", "a2"), 10: ("a1", "a2")},
       "ZeroDamping": {6: ("rs6",), 8: ("rs8",)},
       "MZeroDamping": {6: ("rs6", "bet"), 8: ("rs8", "bet")},
       "OptimisedPowerDamping": {6: ("a1", "a2", "bet"), 8: ("a1", "a2", "bet")}}
FULL = {"RationalDamping": ("s6", "s8", "s10", "a1", "a2"), "ZeroDamping": ("s6", "s8", "rs6", "rs8", "alp"),
        "MZeroDamping": ("s6", "s8", "rs6", "rs8", "alp", "bet"), "OptimisedPowerDamping": ("s6", "s8", "a1", "a2", "bet")}


def subsets(keys):
    for k in range(1, 2 ** len(keys)):
        yield tuple(x for j, x in enumerate(keys) if k >> j & 1)


def dampings(rep):
    for dn, orders in REQ.items():
        for order, req in orders.items():
            for gone in subsets(req):
                for none in (False, True):
                    def scenario(m):
                        m.import_module(PK)
                        m.epoch = 1
                        c = Ctx(m, False)
                        par = {k: c.scalar(k) for k in FULL[dn] if k not in gone}
                        if none:
                            par.update({k: None for k in gone})
                        return call(m, damp(m, dn), c.pairwise("dist"), c.pairwise("radii"), order, **par)
                    expect(rep, f"{dn} order {order}: {'+'.join(gone)} {'None' if none else 'missing'}",
                           f"damping:{dn}:{order}:{'+'.join(gone)}", scenario, "TypeError")
        req = sorted({k for o, r in orders.items() for k in r if o in (6, 8)})
        for gone in req:
            for entry in ("dispersion2", "TwoBodyTerm"):
                def scenario(m):
                    m.import_module(PK)
                    m.epoch = 1
                    c = Ctx(m, False)
                    par = c.param(tuple(k for k in FULL[dn] if k != gone))
                    nu = c.numbers()
                    if entry == "dispersion2":
                        return call(m, "dispersion.twobody:dispersion2", nu, c.positions(), par, c.pairwise("c6~s"),
                                    c.atomwise("r4r2"), c.pairwise("rvdw~s"), damp(m, dn))
                    t = call(m, "dispersion.twobody:TwoBodyTerm", damping_fn=damp(m, dn), epoch=1)
                    return call(m, m.getattr(t, "calculate"), numbers=nu, positions=c.positions(), param=par, cn=c.atomwise("cn"),
                                model=opaque_model(m, c, numbers=nu), q=c.atomwise("q"), r4r2=c.atomwise("r4r2"),
                                rvdw=c.pairwise("rvdw~s"), cutoff=cutoff_obj(m, c))
                expect(rep, f"{entry} with {dn}: {gone} missing", f"damping:{dn}:{entry}:{gone}", scenario, "TypeError")
