"""C01, C02, C16: energies against the published formulas."""
from __future__ import annotations

from .. import expr as X
from .. import spec
from ..ctx import *
from ..interp import explore, PathLimit
from ..report import Report, Anchor

TRUST = ("torch, tad_mctc (cn_d4, real_pairs, real_triples, storch) and tad_multicharge behave as their contracts in "
         "sa/torchlib.py and sa/extlib.py state",
         "formulas are compared in exact real arithmetic (rounding is not part of this property)")

TWO = "dispersion.twobody:dispersion2"


def lower(rep, scenario, name, **mkw):
    """runs of a scenario; a vanished public anchor is an error, not a pass"""
    try:
        runs = explore(scenario, **mkw)
    except PathLimit:
        rep.undecided(name, "too many paths")
        return None
    rep.seen(runs)
    for r in runs:
        if r.exc is not None and r.exc.etype in ("AttributeError", "ModuleNotFoundError", "ImportError") and \
                r.machine.stack == [] and r.exc.loc is None:
            raise Anchor(f"{name}: {r.exc}")
    return runs


def result(rep, runs, idx, name, pick=None):
    if runs is None:
        return None
    try:
        return value_at(runs, idx, pick)
    except Unsupported as u:
        rep.undecided(name, f"not lowered: {u}")
    except (RecursionError, KeyError) as u:
        rep.undecided(name, f"not lowered: {type(u).__name__} {u}")
    return None


def pdict(keys, c=None):
    return {k: X.leaf(k) for k in keys}


def two_body_obligations(rep, batch, damping, keys, defaults, s10=False, matrix=False, via="function", cutoff="given",
                         scalars=False, label=""):
    """compare dispersion2 / TwoBodyTerm.calculate with the pair sum"""
    name = f"two-body {via} {damping} {'batch' if batch else 'single'} params={'+'.join(keys) or '-'}" \
           f"{' matrix' if matrix else ''}{' cutoff ' + cutoff if cutoff != 'given' else ''}{' floats' if scalars else ''}"
    keep = {}

    def scenario(m):
        m.import_module(PK)
        c = Ctx(m, batch)
        m.epoch = 1
        if scalars:
            par = D({k: Sc(X.leaf(k), "float") for k in keys}, 1, "argument 'param'")
        else:
            par = c.param(keys)
        damp = m.call(get(m, "damping:" + damping if damping != "OptimisedPowerDamping" else
                          "damping.functions:" + damping), [], {})
        nu, po = c.numbers(), c.positions()
        if via == "function":
            kw = dict(damping_function=damp, rvdw=c.pairwise("rvdw~s"))
            if cutoff == "given":
                kw["cutoff"] = c.scalar("cutoff")
            if matrix:
                kw["as_matrix"] = True
            return call(m, TWO, nu, po, par, c.pairwise("c6~s"), c.atomwise("r4r2"), **kw)
        model = opaque_model(m, c, numbers=nu)
        cn, q = c.atomwise("cn"), c.atomwise("q")
        cd = via == "term"
        keep["c6"] = c6_lam(m, c, cn, q if cd else None)
        term = call(m, "dispersion.twobody:TwoBodyTerm", damping_fn=damp, charge_dependent=cd, epoch=1)
        return call(m, m.getattr(term, "calculate"), numbers=nu, positions=po, param=par, cn=cn, model=model, q=q,
                    r4r2=c.atomwise("r4r2"), rvdw=c.pairwise("rvdw~s"), cutoff=cutoff_obj(m, c))
    runs = lower(rep, scenario, name)
    c = Ctx(runs[0].machine, batch) if runs else None
    if runs is None:
        return
    idx = c.idx(2 if matrix else 1)
    got = result(rep, runs, idx, name)
    if got is None:
        return
    lead = idx[:len(c.lead)]
    mol = spec.Mol(lead)
    at = idx[len(lead):]
    p = {k: X.leaf(k) for k in keys}
    for k, v in defaults.items():
        p.setdefault(k, X.num(v))
    if via == "function":
        c6 = lambda a, b: mol.L("c6~s", a, b)
        cut = X.leaf("cutoff") if cutoff == "given" else X.num(60)
    else:
        l = keep["c6"]
        c6 = lambda a, b: X.call("c6", l, *lead, a, b)
        cut = X.leaf("disp2")
    want = spec.two_body(mol, at[0], damping, p, c6, cut, s10=s10, matrix=matrix, j=at[1] if matrix else None)
    rep.equal(name, got, want, idx, what="two-body energy" + (" matrix element" if matrix else ""),
              key=f"{via}:{damping}:{'matrix' if matrix else 'atom'}:{'+'.join(keys)}")


def check_C01(rep: Report):
    rep.rule("canonical form of the lowered result of dispersion2 / TwoBodyTerm.calculate == canonical form of the "
             "damped multipole pair sum, for symbolic atom and batch dimensions")
    rep.assume(*TRUST)
    bj = ("s6", "s8", "a1", "a2")
    for batch in (False, True):
        two_body_obligations(rep, batch, "RationalDamping", bj, {})
        two_body_obligations(rep, batch, "RationalDamping", bj + ("s10",), {}, s10=True)
        two_body_obligations(rep, batch, "RationalDamping", bj, {}, matrix=True)
        two_body_obligations(rep, batch, "RationalDamping", bj + ("s10",), {}, s10=True, matrix=True)
        two_body_obligations(rep, batch, "ZeroDamping", ("s6", "s8", "rs6", "rs8", "alp"), {})
        two_body_obligations(rep, batch, "MZeroDamping", ("s6", "s8", "rs6", "rs8", "alp", "bet"), {})
        two_body_obligations(rep, batch, "OptimisedPowerDamping", bj + ("bet",), {})
        two_body_obligations(rep, batch, "ZeroDamping", ("s6", "s8", "rs6", "rs8", "alp"), {}, matrix=True)
        for via in ("term", "term-noq"):
            two_body_obligations(rep, batch, "RationalDamping", bj, {}, via=via)
            two_body_obligations(rep, batch, "RationalDamping", bj + ("s10", "s9", "alp"), {}, s10=True, via=via)
            two_body_obligations(rep, batch, "ZeroDamping", ("s6", "s8", "rs6", "rs8", "alp", "s9", "rs9"), {}, via=via)
            two_body_obligations(rep, batch, "MZeroDamping", ("s6", "s8", "rs6", "rs8", "alp", "bet"), {}, via=via)
            two_body_obligations(rep, batch, "OptimisedPowerDamping", bj + ("bet",), {}, via=via)
    two_body_obligations(rep, False, "RationalDamping", bj, {}, scalars=True)
    two_body_obligations(rep, False, "ZeroDamping", ("s6", "s8", "rs6", "rs8", "alp"), {}, scalars=True)
    two_body_obligations(rep, True, "RationalDamping", bj, {}, cutoff="default")


# ------------------------------------------------------------------ three body
ATMF = "dispersion.threebody:get_atm_dispersion"
TERMS3 = {"D4ATMApprox": ("dispersion.d4:D4ATMApprox", "bj", "approx"),
          "D4ATMExact": ("dispersion.d4:D4ATMExact", "bj", "exact"),
          "D3ATM": ("dispersion.d3:D3ATM", "vdw", "approx")}

CP_WEIGHTS = [2.49995e-2, 4.99995e-2, 7.5e-2] + [0.1] * 8 + [0.15] + [0.2] * 4 + [0.35, 0.5, 0.75, 1.0, 1.75, 2.5, 1.25]
THOPI = 3.0 / 3.141592653589793


def cp_table():
    from ..torchlib import table_name, register_table
    n = table_name(CP_WEIGHTS, (23,))
    register_table(n, list(CP_WEIGHTS), (23,))
    return n


def atm_function(rep, batch, scalars=False, keys=("s9", "alp")):
    name = f"three-body function {'batch' if batch else 'single'}{' floats' if scalars else ''} params={'+'.join(keys)}"

    def scenario(m):
        m.import_module(PK)
        c = Ctx(m, batch)
        m.epoch = 1
        c9 = c.t("c9", c.nshape + (c.N, c.N))
        kw = {k: (Sc(X.leaf(k), "float") if scalars else c.scalar(k)) for k in keys}
        return call(m, ATMF, c.numbers(), c.positions(), c9, c.pairwise("radii"), c.scalar("cutoff"), **kw)
    runs = lower(rep, scenario, name)
    if runs is None:
        return
    c = Ctx(runs[0].machine, batch)
    idx = c.idx(1)
    got = result(rep, runs, idx, name)
    if got is None:
        return
    lead = idx[:-1]
    mol = spec.Mol(lead)
    want = spec.atm(mol, idx[-1], lambda i, j, k: mol.L("c9", i, j, k), lambda i, j: mol.L("radii", i, j),
                    X.leaf("s9") if "s9" in keys else X.num(1), X.leaf("alp") if "alp" in keys else X.num(16),
                    X.leaf("cutoff"))
    rep.equal(name, got, want, idx, what="three-body energy", key=f"function:atm:{'+'.join(keys)}")


def atm_term(rep, batch, term, keys, defaults, charge_dependent=False):
    name = f"three-body term {term} {'batch' if batch else 'single'} params={'+'.join(keys) or '-'}" \
           f"{' charge-dependent' if charge_dependent else ''}"
    path, radii, c9kind = TERMS3[term]
    keep = {}

    def scenario(m):
        m.import_module(PK)
        c = Ctx(m, batch)
        m.epoch = 1
        nu = c.numbers()
        model = opaque_model(m, c, numbers=nu)
        cn, q = c.atomwise("cn"), c.atomwise("q")
        keep["gw"] = c6_lam(m, c, cn, q if charge_dependent else None)
        damp = m.call(get(m, "damping:ZeroDamping"), [], {})
        t = call(m, path, damping_fn=damp, charge_dependent=charge_dependent, epoch=1)
        return call(m, m.getattr(t, "calculate"), numbers=nu, positions=c.positions(), param=c.param(keys), cn=cn,
                    model=model, q=q, r4r2=c.atomwise("r4r2"), rvdw=c.pairwise("rvdw~s"), cutoff=cutoff_obj(m, c))
    runs = lower(rep, scenario, name)
    if runs is None:
        return
    c = Ctx(runs[0].machine, batch)
    idx = c.idx(1)
    got = result(rep, runs, idx, name)
    if got is None:
        return
    lead = idx[:-1]
    mol = spec.Mol(lead)
    p = {k: X.leaf(k) for k in keys}
    for k, v in defaults.items():
        p.setdefault(k, X.num(v))
    l = keep["gw"]
    if c9kind == "approx":
        c9 = spec.c9_approx(lambda a, b: X.call("c6", l, *lead, a, b))
    else:
        tn = cp_table()

        def c9(i, j, k):
            w = X.var(23, "w")
            pol = lambda a: X.call("pol", l, *lead, a, w)
            return X.mul(X.num(THOPI), X.reduce_("sum", w, X.mul(X.tab(tn, w), pol(i), pol(j), pol(k))))
    if radii == "bj":
        r0 = lambda i, j: spec.bj_radius(p["a1"], p["a2"], mol.L("r4r2", i), mol.L("r4r2", j))
    else:
        r0 = lambda i, j: X.mul(p["rs9"], mol.L("rvdw~s", i, j))
    want = spec.atm(mol, idx[-1], c9, r0, p["s9"], p["alp"], X.leaf("disp3"))
    rep.equal(name, got, want, idx, what="three-body energy", key=f"{term}:{'+'.join(keys)}")


def check_C02(rep):
    rep.rule("canonical form of the lowered three-body energy == damped Axilrod-Teller-Muto triple sum with the "
             "required C9 coefficients and critical radii")
    rep.assume(*TRUST)
    for batch in (False, True):
        atm_function(rep, batch)
        atm_term(rep, batch, "D4ATMApprox", ("a1", "a2", "s9", "alp"), {})
        atm_term(rep, batch, "D4ATMExact", ("a1", "a2", "s9", "alp"), {})
        atm_term(rep, batch, "D3ATM", ("rs9", "s9", "alp"), {})
        atm_term(rep, batch, "D4ATMApprox", ("a1", "a2", "s9", "alp", "s6", "s8", "s10"), {}, charge_dependent=True)
    atm_function(rep, False, scalars=True)
    atm_term(rep, False, "D4ATMExact", ("a1", "a2", "s9", "alp"), {}, charge_dependent=True)


# ------------------------------------------------------- scaling parameters
def linear(rep, name, got, scal, free, key):
    """got is affine-linear in every scaling leaf, jointly homogeneous of degree one"""


def check_C16(rep):
    rep.rule("for every subset of given scaling parameters the lowered energy equals the formula in which each "
             "parameter multiplies exactly its own term and omitted ones take their defaults")
    rep.assume(*TRUST)
    D2 = {"s6": 1}
    for batch in (False, True):
        # omitted s6; s8 has to be given (or its order is absent), s10 omitted -> 0
        two_body_obligations(rep, batch, "RationalDamping", ("s8", "a1", "a2"), D2)
        two_body_obligations(rep, batch, "RationalDamping", ("s6", "a1", "a2"), {"s8": 0})
        two_body_obligations(rep, batch, "RationalDamping", ("s6", "s8", "a1", "a2"), {})
        two_body_obligations(rep, batch, "RationalDamping", ("s6", "s8", "s9", "s10", "a1", "a2", "alp"), {}, s10=True)
        two_body_obligations(rep, batch, "RationalDamping", ("s8", "s10", "a1", "a2"), D2, s10=True, matrix=True)
        two_body_obligations(rep, batch, "ZeroDamping", ("s8", "rs6", "rs8", "alp"), D2)
        two_body_obligations(rep, batch, "ZeroDamping", ("s6", "s8", "rs6", "rs8"), {"alp": 16})
        two_body_obligations(rep, batch, "ZeroDamping", ("s6", "rs6", "rs8", "alp"), {"s8": 1})
        two_body_obligations(rep, batch, "ZeroDamping", ("rs6", "rs8"), {"s6": 1, "s8": 1, "alp": 16}, matrix=True)
        two_body_obligations(rep, batch, "MZeroDamping", ("s6", "rs6", "rs8", "bet"), {"s8": 1, "alp": 16})
        two_body_obligations(rep, batch, "OptimisedPowerDamping", ("s8", "a1", "a2", "bet"), D2)
        two_body_obligations(rep, batch, "OptimisedPowerDamping", ("s6", "a1", "a2", "bet"), {"s8": 0})
        two_body_obligations(rep, batch, "RationalDamping", ("s8", "a1", "a2"), D2, via="term")
        two_body_obligations(rep, batch, "RationalDamping", ("s6", "s8", "s9", "s10", "a1", "a2"), {}, s10=True, via="term")
        dflt = {"s9": 1, "alp": 16, "a1": "2/5", "a2": 5, "rs9": 1}
        from fractions import Fraction
        dflt = {k: Fraction(v) for k, v in dflt.items()}
        allk = ("a1", "a2", "s9", "alp")
        for drop in allk:
            atm_term(rep, batch, "D4ATMApprox", tuple(k for k in allk if k != drop), dflt)
        atm_term(rep, batch, "D4ATMApprox", (), dflt)
        atm_term(rep, batch, "D4ATMExact", (), dflt)
        atm_term(rep, batch, "D4ATMApprox", ("s6", "s8", "s9", "s10", "a1", "a2", "alp"), dflt)
        atm_term(rep, batch, "D3ATM", (), dflt)
        atm_term(rep, batch, "D3ATM", ("s9", "rs9"), dflt)
        atm_function(rep, batch, keys=())
    whole_energy_linear(rep)


def whole_energy_linear(rep):
    """end to end: dftd4 energy == s6*E6 + s8*E8 + s10*E10 + s9*E3 with parameter-free E's"""
    keys = ("s6", "s8", "s9", "s10", "a1", "a2", "alp")
    for batch in (False, True):
        name = f"dftd4 energy is linear in s6, s8, s9, s10 ({'batch' if batch else 'single'})"

        def scenario(m):
            m.import_module(PK)
            c = Ctx(m, batch)
            m.epoch = 1
            nu = c.numbers()
            return call(m, "disp:dftd4", nu, c.positions(), c.charge(), c.param(keys), model=opaque_model(m, c, numbers=nu))
        runs = lower(rep, scenario, name)
        if runs is None:
            continue
        idx = Ctx(runs[0].machine, batch).idx(1)
        got = result(rep, runs, idx, name)
        if got is None:
            continue
        S = [X.leaf(k) for k in ("s6", "s8", "s9", "s10")]
        total = X.ZERO
        for s in S:
            part = X.subst(got, {x: (X.ONE if x is s else X.ZERO) for x in S})
            total = X.add(total, X.mul(s, part))
        rep.equal(name, got, total, idx, what="energy as a function of the scaling parameters", key="linear:dftd4")
