"""C17 (limits of the damping functions) and C18 (signs)."""
from __future__ import annotations

import math

from .. import expr as X
from .. import canon as C
from .. import rand
from ..asym import Asym, NoLimit, linear
from ..ctx import *
from ..rand import ev, Undecidable
from ..scen import lowered
from ..sign import Sign, Facts, N, Z, P
from .finite import FVal
from .formulas import lower, result, TRUST, TERMS3

ORDERS = {"RationalDamping": (6, 8, 10), "ZeroDamping": (6, 8, 9), "MZeroDamping": (6, 8), "OptimisedPowerDamping": (6, 8)}
KEYS = {"RationalDamping": ("a1", "a2", "s6", "s8", "s9", "s10"),
        "ZeroDamping": ("rs6", "rs8", "rs9", "alp", "s6", "s8", "s9"),
        "MZeroDamping": ("rs6", "rs8", "alp", "bet", "s6", "s8", "s9"),
        "OptimisedPowerDamping": ("a1", "a2", "bet", "s6", "s8", "s9")}


def damping_value(rep, cls, order, only, scalars, name, zero_bet=False):
    def scenario(m):
        m.import_module(PK)
        c = Ctx(m, False)
        m.epoch = 1
        d = call(m, ("damping:" if cls != "OptimisedPowerDamping" else "damping.functions:") + cls, epoch=1)
        kw = {k: (Sc(X.leaf(k), "float") if scalars else c.scalar(k)) for k in KEYS[cls]}
        if only:
            kw["only_damping"] = True
        return call(m, m.getattr(d, "__call__"), c.pairwise("d"), c.pairwise("radii"), order, **kw)
    runs = lower(rep, scenario, name)
    if runs is None:
        return None, None, None
    c = Ctx(runs[0].machine, False)
    idx = c.idx(2)
    got = result(rep, runs, idx, name)
    if got is None:
        return None, None, None
    rep.count(got)
    i, j = idx
    return got, X.leaf("d", i, j), idx


RANGES = {"d": P, "radii": P, "da": P}


def numeric(e, d, val, order, alp, radii=3.1):
    """interpretation of the graph at a distance (only used to confirm a failed proof)"""
    v = FVal(31, "f64", set(), None)
    v.override0 = v.override

    def over(x, env):
        if x is d:
            return val
        if x.op == "leaf" and x.args[0] == "bet" and alp == "bet0":
            return 0.0
        if x.op == "leaf" and x.args[0] == "radii":
            return radii
        if x.op == "leaf" and x.args[0] in ("alp",):
            return 14.0
        return None
    v.override = over
    return float(ev(e, v, {x: k for k, x in enumerate(sorted(X.freevars(e), key=lambda x: x.args[0]))}))


def check_C17(rep):
    rep.rule("leading-term analysis of the lowered damping functions: d^n*t_n has leading term 1*d^0 for d to infinity, t_n a "
             "non-negative leading exponent for d to 0, and the sign analysis shows t_n positive")
    rep.assume(*TRUST, "admissible parameters: radii, a1, a2, rs6, rs8, rs9 positive, alp larger than 6, bet not negative")
    for cls, orders in ORDERS.items():
        for order in orders:
            for scalars in (False, True):
                for only in ((True,) if order == 9 else (False, True) if cls == "ZeroDamping" else (False,)):
                    limits(rep, cls, order, only, scalars)


def limits(rep, cls, order, only, scalars):
    name = f"{cls} order {order}{' factor' if only else ''}{' floats' if scalars else ''}"
    e, d, idx = damping_value(rep, cls, order, only, scalars, name)
    if e is None:
        return
    key = f"{cls}:{order}{':factor' if only else ''}"
    # alp = 6 + da with da > 0
    m = {X.leaf("alp"): X.add(X.num(6), X.leaf("da"))}
    e0 = X.subst(e, m)
    n = 0 if only else order
    loc = X.LOC.get(e.id)
    # long range
    try:
        c, p = Asym(d, True, RANGES).of(e0)
        ok = X.isnum(linear(X.add(p, X.num(n))), 0) and (c is X.ONE or C.same(c, X.ONE))
        why = f"leading term {X.show(c, 4)}*d^({X.show(p, 4)})"
    except (NoLimit, C.TooBig, RecursionError) as u:
        ok, why = False, str(u)
    if ok:
        rep.ok(name + ": long-range limit")
    else:
        confirm(rep, name + ": long-range limit", key + ":long", loc, why,
                lambda: long_bad(e, d, n), f"{cls} of order {order} does not approach {'1' if only else f'R^-{n}'} at large distance")
    # short range
    es = X.subst(e0, {X.leaf("bet"): X.ZERO}) if cls == "MZeroDamping" else e0
    try:
        c, p = Asym(d, False, RANGES).of(es)
        s = Sign(RANGES).of(linear(p), Facts())
        ok = s == P if only else not s & N
        why = f"leading term {X.show(c, 4)}*d^({X.show(linear(p), 4)})"
    except (NoLimit, C.TooBig, RecursionError) as u:
        ok, why = False, str(u)
    b0 = "bet0" if cls == "MZeroDamping" else None
    if ok:
        rep.ok(name + ": short-range limit")
    else:
        confirm(rep, name + ": short-range limit", key + ":short", loc, why, lambda: short_bad(e, d, only, b0),
                f"{cls} of order {order} {'does not vanish' if only else 'diverges'} at short distance")
    # positivity
    s = Sign(RANGES).of(e0, Facts())
    if s == P:
        rep.ok(name + ": positive")
    else:
        confirm(rep, name + ": positive", key + ":positive", loc, "sign not proved", lambda: sign_bad(e, d),
                f"{cls} of order {order} is not positive")


def confirm(rep, name, key, loc, why, fn, msg):
    try:
        w = fn()
    except (Undecidable, OverflowError, ZeroDivisionError) as u:
        rep.undecided(name, f"{why}; {u}")
        return
    if w is None:
        rep.undecided(name, why)
    else:
        rep.bad(key, msg, loc, analysis=why, witness=w)


def long_bad(e, d, n):
    # radii of the order of every constant a distance may be compared with
    for r0 in sorted({3.1} | {2.0 * c for c in rand.pool_of(e) if c > 0}):
        xs = [f * r0 / 3.1 for f in (1e4, 1e5, 1e6)]
        vals = [numeric(e, d, x, n, None, r0) * x ** n for x in xs]
        if all(not abs(v - 1) < 2e-2 for v in vals):
            return {"distances": xs, "radius": r0, "d^n*t_n": vals}
    return None


def short_bad(e, d, only, b0):
    vals = [numeric(e, d, x, 0, b0) for x in (1e-2, 1e-3, 1e-4)]
    if only:
        return {"factor at 1e-2, 1e-3, 1e-4": vals} if not vals[-1] < 1e-3 else None
    if not math.isfinite(vals[-1]) or abs(vals[1]) > 8 * abs(vals[0]) and abs(vals[2]) > 8 * abs(vals[1]):
        return {"t_n at 1e-2, 1e-3, 1e-4": vals}
    return None


def sign_bad(e, d):
    for x in (0.3, 1.0, 2.0, 3.5, 5.0, 8.0, 15.0, 40.0):
        v = numeric(e, d, x, 0, None)
        if not v > 0:
            return {"distance": x, "value": v}
    return None


# ----------------------------------------------------------------------- C18
def nonneg(rep, name, key, e, idx, forbid, what, loc=None):
    """the sign of e excludes ``forbid``"""
    rep.count(e)
    sg = Sign()
    try:
        s = sg.of(e, Facts())
    except RecursionError:
        s = 7
    rep.assume(*sorted(sg.assumed))
    if not s & forbid:
        rep.ok(name)
        return
    import time
    t0 = time.monotonic()
    for t in range(40):
        if time.monotonic() - t0 > 6 and t > 4:
            break
        v = FVal(4400 + t, "f64", set(), varied=True)
        for env in envs(idx, v, t):
            try:
                r = float(ev(e, v, env))
            except (Undecidable, OverflowError, KeyError):
                continue
            if r != 0 and (r < 0) == (forbid == N) and abs(r) > 1e-12:
                rep.bad(key, f"{what} can be {'negative' if r < 0 else 'positive'} ({r:.3g})", loc or X.LOC.get(e.id),
                        expression=X.show(e, 9)[:900], witness={"indices": {x.args[0]: k for x, k in env.items()},
                                                                "atomic numbers": str(v.numbers), "value": r})
                return
    rep.undecided(name, "sign not proved, no valuation found")


def envs(idx, v, t):
    out = []
    for k in range(9):
        out.append({x: rand._h(t, k, x.args[0]) % v.size(x.args[1]) for x in idx})
    return out


def check_C18(rep):
    rep.rule("sign analysis (abstract domain of subsets of {-,0,+}, conditions as facts in their branches) of the lowered "
             "weights, polarizabilities, C6, C9 and two-body energies")
    rep.assume(*TRUST, "scaling parameters and coordination numbers are not negative, radii and damping parameters positive")
    from ..ctx import opaque_model
    for l in lowered(rep, tags=("model",)):
        nonneg(rep, l.full, f"{l.name}:{l.label}", l.e, l.idx, N, l.label)
    for l in lowered(rep, names=("get_properties", "get_properties no charge")):
        if l.label in ("c6", "polarizability"):
            nonneg(rep, l.full, f"{l.name}:{l.label}", l.e, l.idx, N, l.label)
    for l in lowered(rep, names=("dispersion2", "dispersion2 matrix", "dispersion2 zero matrix")):
        nonneg(rep, l.full, f"{l.name}:{l.label}", l.e, l.idx, P, "two-body energy")
    for batch in (False, True):
        for cls, keys in (("RationalDamping", ("s6", "s8", "s10", "a1", "a2")), ("ZeroDamping", ("s6", "s8", "rs6", "rs8", "alp")),
                          ("MZeroDamping", ("s6", "s8", "rs6", "rs8", "alp", "bet")),
                          ("OptimisedPowerDamping", ("s6", "s8", "a1", "a2", "bet"))):
            term_energy(rep, batch, cls, keys)
        for term in TERMS3:
            c9_sign(rep, batch, term)


def term_energy(rep, batch, cls, keys):
    for kind in ("d4", "d4s"):
        name = f"two-body term {cls} {kind} {'batch' if batch else 'single'}"

        def scenario(m):
            m.import_module(PK)
            c = Ctx(m, batch)
            m.epoch = 1
            nu = c.numbers()
            mod = call(m, "model.d4s:D4SModel" if kind == "d4s" else "model.d4:D4Model", nu, epoch=1, dtype=Dtype(c.dtype),
                       device=Device(c.device))
            damp = call(m, ("damping:" if cls != "OptimisedPowerDamping" else "damping.functions:") + cls, epoch=1)
            t = call(m, "dispersion.twobody:TwoBodyTerm", damping_fn=damp, charge_dependent=True, epoch=1)
            return call(m, m.getattr(t, "calculate"), numbers=nu, positions=c.positions(), param=c.param(keys),
                        cn=c.atomwise("cn"), model=mod, q=c.atomwise("q"), r4r2=c.atomwise("r4r2"), rvdw=c.pairwise("rvdw~s"),
                        cutoff=cutoff_obj(m, c))
        runs = lower(rep, scenario, name)
        if runs is None:
            continue
        idx = Ctx(runs[0].machine, batch).idx(1)
        got = result(rep, runs, idx, name)
        if got is not None:
            nonneg(rep, name, f"energy:{cls}:{kind}", got, idx, P, "two-body energy of an atom")


def c9_sign(rep, batch, term):
    path = TERMS3[term][0]
    for kind in ("d4", "d4s"):
        name = f"C9 of {term} {kind} {'batch' if batch else 'single'}"

        def scenario(m):
            m.import_module(PK)
            c = Ctx(m, batch)
            m.epoch = 1
            nu = c.numbers()
            mod = call(m, "model.d4s:D4SModel" if kind == "d4s" else "model.d4:D4Model", nu, epoch=1, dtype=Dtype(c.dtype),
                       device=Device(c.device))
            damp = call(m, "damping:ZeroDamping", epoch=1)
            t = call(m, path, damping_fn=damp, charge_dependent=True, epoch=1)
            return call(m, m.getattr(t, "get_c9"), mod, c.atomwise("cn"), c.atomwise("q"))
        runs = lower(rep, scenario, name)
        if runs is None:
            continue
        idx = Ctx(runs[0].machine, batch).idx(3)
        got = result(rep, runs, idx, name)
        if got is not None:
            nonneg(rep, name, f"c9:{term}:{kind}", got, idx, N, "C9 coefficient")
