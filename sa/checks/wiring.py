"""C08, C15, C23: which quantity reaches which part of the calculation."""
from __future__ import annotations

from .. import expr as X
from .. import iso, rand
from ..ctx import *
from ..report import Report
from .. import scen
from ..scen import BJ, BJ10, ZERO, MZERO, OP, damp, indices, PROP
from .formulas import lower, result, TRUST, TERMS3


def rewrite(e, f):
    """bottom-up rewriting; f(node) -> replacement or None"""
    memo = {}

    def go(x):
        r = memo.get(x.id)
        if r is not None:
            return r
        if x.op == "red":
            y = X.reduce_(x.args[0], x.args[1], go(x.args[2]))
        elif x.op == "lam":
            y = X.lam(x.args[0], go(x.args[1]))
        elif not x.args or x.op in ("var", "num", "bool"):
            y = x
        else:
            y = X.rebuild(x, [go(z) if isinstance(z, X.E) else z for z in x.args])
        r = f(y)
        if r is None:
            r = y
        memo[x.id] = r
        return r
    return go(e)


def setleaf(e, **kw):
    m = {X.leaf(k): v for k, v in kw.items()}
    return X.subst(e, m)


def energy(rep, name, fn, batch=False, pick=None, kinds=("N",), dtype="f64"):
    """(graph, indices, context) of one symbolic call, or None"""
    def scenario(m):
        m.import_module(PK)
        c = Ctx(m, batch, dtype=dtype)
        m.epoch = 1
        return fn(m, c)
    runs = lower(rep, scenario, name)
    if runs is None:
        return None
    c = Ctx(runs[0].machine, batch)
    idx = indices(c, kinds)
    e = result(rep, runs, idx, name, pick)
    if e is None:
        return None
    rep.sites += 1
    return e, idx, c


def two_body_only(e):
    return iso.zero_fold(setleaf(e, s9=X.ZERO))


def three_body_only(e):
    return iso.zero_fold(setleaf(e, s6=X.ZERO, s8=X.ZERO, s10=X.ZERO))


# --------------------------------------------------------------------- C08
def uncut(e, cut):
    """the energy without its cutoff: every comparison of a distance with it succeeds"""
    from ..asym import Asym, NoLimit
    an = Asym(cut, True)

    def outcome(x):
        # the outcome of a comparison for an ever larger cutoff
        try:
            t = an.cond(x)
        except (NoLimit, RecursionError):
            t = None
        if t is None:
            # a bound that stops growing with the cutoff: a distance below it is inside, beyond it outside
            a, b = (set(X.walk(y)) for y in x.args)
            far = [any(y.op == "leaf" and rand.base(y.args[0]) == "dist" for y in s) for s in (a, b)]
            if far[0] and cut not in a and not far[1]:
                t = True
            elif far[1] and cut not in b and not far[0]:
                t = False
        return t

    # comparisons of distances first: a bound they use may itself depend on comparisons with the cutoff
    m = {}
    for x in X.walk(e):
        if x.op == "lt":
            ws = set(X.walk(x))
            if cut in ws and any(y.op == "leaf" and rand.base(y.args[0]) == "dist" for y in ws):
                t = outcome(x)
                if t is not None:
                    m[x] = X.boolc(t)

    def f(x):
        if x.op == "lt" and cut in set(X.walk(x)):
            t = outcome(x)
            return None if t is None else X.boolc(t)
        return None
    return rewrite(X.subst(e, m) if m else e, f)


def isolate(e, atoms, kind):
    """C6 coefficients are 1 inside the given group of atoms and 0 otherwise"""
    def f(x):
        if (x.op == "call" and x.args[0] == "c6") or (x.op == "leaf" and x.args[0] == "c6~s"):
            p, q = x.args[-2:]
            opts = []
            for a in atoms:
                for b in atoms:
                    if a is not b:
                        opts.append(X.andb(X.eqi(p, a), X.eqi(q, b)))
            return X.where(X.orb(*opts), X.ONE, X.ZERO)
        if x.op == "leaf" and x.args[0] == "c9":
            p = x.args[-3:]
            from itertools import permutations
            opts = [X.andb(*[X.eqi(u, v) for u, v in zip(p, w)]) for w in permutations(atoms)]
            return X.where(X.orb(*opts), X.ONE, X.ZERO)
        return None
    return rewrite(e, f)


def gate(rep, name, e, idx, cut, n, what):
    """the contribution of a group of n atoms is the uncut one exactly inside the cutoff"""
    i = idx[-1]
    at = [X.namedvar(s, "N") for s in "PQR"[:n]]
    lead = idx[:-1]
    g = X.subst(isolate(e, at, n), {i: at[0]})
    inside = X.andb(*[X.le(X.leaf_norm(["dist", *lead, a, b]), cut) for k, a in enumerate(at) for b in at[k + 1:]])
    distinct = X.andb(*[X.notb(X.eqi(a, b)) for k, a in enumerate(at) for b in at[k + 1:]])
    want = X.where(X.andb(distinct, inside), uncut(g, cut), X.ZERO)
    got = X.where(distinct, g, X.ZERO)
    rep.equal(name, got, want, lead + at, what=what, trials=150, gated=True)
    # far and near groups must both be decided by it at all
    if cut not in set(X.walk(e)):
        rep.bad(name + " used", f"{what}: the cutoff does not reach the calculation", X.LOC.get(e.id))
    else:
        rep.ok(name + " used")


def eeq_cutoffs(e):
    return {x.args[5] for x in X.walk(e) if x.op == "call" and x.args[0] == "eeq"}


def check_C08(rep: Report):
    rep.rule("the contribution of a pair (triple), isolated by unit coefficients, equals the contribution without cutoff "
             "when all its distances are <= the two-body (three-body) cutoff and zero otherwise; the charge model's "
             "cutoff argument is the EEQ cutoff; a call without cutoff object equals the call with the documented "
             "defaults; no cutoff occurs in another interaction")
    rep.assume(*TRUST)
    D2, D3, EQ = X.leaf("disp2"), X.leaf("disp3"), X.leaf("cn_eeq")
    for batch in (False, True):
        b = " batch" if batch else ""
        # functions with an explicit cutoff
        r = energy(rep, "dispersion2" + b, lambda m, c: call(
            m, "dispersion.twobody:dispersion2", c.numbers(), c.positions(), c.param(BJ10), c.pairwise("c6~s"),
            c.atomwise("r4r2"), cutoff=c.scalar("cutoff")), batch)
        if r:
            gate(rep, "dispersion2 pair gate" + b, r[0], r[1], X.leaf("cutoff"), 2, "pair contribution")
        r = energy(rep, "dispersion2 zero damping" + b, lambda m, c: call(
            m, "dispersion.twobody:dispersion2", c.numbers(), c.positions(), c.param(ZERO), c.pairwise("c6~s"),
            c.atomwise("r4r2"), rvdw=c.pairwise("rvdw~s"), damping_function=damp(m, "ZeroDamping"),
            cutoff=c.scalar("cutoff")), batch)
        if r:
            gate(rep, "dispersion2 zero damping pair gate" + b, r[0], r[1], X.leaf("cutoff"), 2, "pair contribution")
        r = energy(rep, "dispersion2 default" + b, lambda m, c: call(
            m, "dispersion.twobody:dispersion2", c.numbers(), c.positions(), c.param(BJ10), c.pairwise("c6~s"),
            c.atomwise("r4r2")), batch)
        r2 = energy(rep, "dispersion2 60" + b, lambda m, c: call(
            m, "dispersion.twobody:dispersion2", c.numbers(), c.positions(), c.param(BJ10), c.pairwise("c6~s"),
            c.atomwise("r4r2"), cutoff=c.scalar("cutoff")), batch)
        if r and r2:
            rep.equal("dispersion2 default cutoff is 60" + b, r[0], setleaf(r2[0], cutoff=X.num(60)), r[1],
                      what="two-body energy without cutoff")
        r = energy(rep, "get_atm_dispersion" + b, lambda m, c: call(
            m, "dispersion.threebody:get_atm_dispersion", c.numbers(), c.positions(), c.t("c9", c.nshape + (c.N, c.N)),
            c.pairwise("radii~s"), c.scalar("cutoff"), s9=c.scalar("s9"), alp=c.scalar("alp")), batch)
        if r:
            gate(rep, "get_atm_dispersion triple gate" + b, r[0], r[1], X.leaf("cutoff"), 3, "triple contribution")
        r = energy(rep, "dispersion2 matrix" + b, scen.SC["dispersion2 matrix"].fn, batch, kinds=("N", "N"))
        if r:
            e, idx, _ = r
            i, j = idx[-2:]
            inside = X.le(X.leaf_norm(["dist", *idx[:-2], i, j]), X.leaf("cutoff"))
            rep.equal("dispersion2 matrix gate" + b, e, X.where(inside, uncut(e, X.leaf("cutoff")), X.ZERO), idx,
                      what="pair-energy matrix element", trials=150)

        # whole methods with a cutoff object
        def full(path, model, keys, q):
            def f(m, c):
                nu = c.numbers()
                kw = dict(cutoff=cutoff_obj(m, c))
                if q:
                    kw["q"] = c.atomwise("q")
                mod = opaque_model(m, c, numbers=nu) if model == "opaque" else model
                if path == "dftd4":
                    return call(m, "disp:dftd4", nu, c.positions(), c.charge(), c.param(keys), model=mod, **kw)
                d = call(m, path, mod, epoch=1, dtype=Dtype(c.dtype), device=Device(c.device))
                return call(m, m.getattr(d, "calculate"), nu, c.positions(), c.charge(), c.param(keys), **kw)
            return f
        for path, keys, q in (("dftd4", BJ10, True), ("dftd4", BJ10, False), ("dispersion.d4:DispD4", BJ, True),
                              ("dispersion.d3:DispD3BJ", BJ + ("rs9",), False), ("dispersion.d3:DispD3Zero", ZERO, False)):
            nm = f"{path.rsplit(':')[-1]}{' q' if q else ''}{b}"
            r = energy(rep, nm, full(path, "opaque", keys, q), batch)
            if not r:
                continue
            e, idx, _ = r
            e2, e3 = two_body_only(e), three_body_only(e)
            gate(rep, nm + " pair gate", e2, idx, D2, 2, "pair contribution")
            gate(rep, nm + " triple gate", e3, idx, D3, 3, "triple contribution")
            for part, own, x in (("two-body", {"disp2"}, e2), ("three-body", {"disp3"}, e3)):
                got = (X.leaves(x) & {"disp2", "disp3", "cn", "cn_eeq"}) - own - {"cn_eeq"}
                if got:
                    rep.bad(f"{nm} {part} cutoffs", f"{part} energy depends on another interaction's cutoff {sorted(got)}",
                            X.LOC.get(x.id))
                else:
                    rep.ok(f"{nm} {part} cutoffs")
        # exact C9: gate by counting cutoffs only (triple symmetric weights are not opaque)
        for path, model in (("dftd4", "d4"), ("dftd4", "d4s"), ("dispersion.d4:DispD4", "d4"), ("dispersion.d4:DispD4Exact", "d4")):
            nm = f"{path.rsplit(':')[-1]} {model}{b}"
            given = energy(rep, nm + " given cutoffs", full(path, model, BJ, False), batch)

            def dflt(m, c, path=path, model=model):
                if path == "dftd4":
                    return call(m, "disp:dftd4", c.numbers(), c.positions(), c.charge(), c.param(BJ), model=model)
                d = call(m, path, model, epoch=1, dtype=Dtype(c.dtype), device=Device(c.device))
                return call(m, m.getattr(d, "calculate"), c.numbers(), c.positions(), c.charge(), c.param(BJ))
            default = energy(rep, nm + " default cutoffs", dflt, batch)
            if given and default:
                eeq_arg(rep, nm, given[0], EQ)
                eeq_arg(rep, nm + " default", default[0], X.num(25))
                rep.equal(nm + " default cutoffs", default[0],
                          setleaf(given[0], disp2=X.num(60), disp3=X.num(40), cn=X.num(30), cn_eeq=X.num(25)), default[1],
                          what="energy without cutoff object")
                if "cn" not in X.leaves(*[x.args[k] for x in X.walk(given[0]) if x.op == "call" and
                                         x.args[0].startswith("cn_") for k in range(1, len(x.args))
                                         if isinstance(x.args[k], X.E)]):
                    rep.bad(f"cutoff.cn-unused:{path}", "the coordination-number cutoff of the cutoff object does not reach the "
                            "coordination number", X.LOC.get(given[0].id))
        for lab, pick, kinds in PROP[1:]:
            r = energy(rep, f"get_properties {lab}{b}", scen.SC["get_properties cutoff"].fn, batch, pick, kinds)
            d = energy(rep, f"get_properties default {lab}{b}", scen.SC["get_properties"].fn, batch, pick, kinds)
            if r and d:
                eeq_arg(rep, f"get_properties {lab}{b}", r[0], EQ)
                rep.equal(f"get_properties default {lab}{b}", d[0], setleaf(r[0], cn_eeq=X.num(25), disp2=X.num(60),
                          disp3=X.num(40), cn=X.num(30)), d[1], what=f"{lab} without cutoff object")
    cutoff_attrs(rep)


def eeq_arg(rep, name, e, want):
    cs = eeq_cutoffs(e)
    bad = [c for c in cs if c is not want and not iso.same(c, want)]
    if bad:
        for c in bad:
            w = None
            try:
                w = rand.distinguish(c, want, [], trials=10)
            except rand.Undecidable:
                pass
            if w:
                rep.bad(name + " charge cutoff", f"the charge model receives {X.show(c)} instead of {X.show(want)} as its "
                        "coordination-number cutoff", X.LOC.get(c.id) or X.LOC.get(e.id), witness=w)
                return
        rep.undecided(name + " charge cutoff", "not shown equal")
    elif cs:
        rep.ok(name + " charge cutoff")


def cutoff_attrs(rep):
    names = ("disp2", "disp3", "cn", "cn_eeq")
    dfl = dict(disp2=60, disp3=40, cn=30, cn_eeq=25)
    for given in [()] + [(n,) for n in names] + [names]:
        for kind in ("tensor", "float"):
            nm = f"Cutoff({', '.join(given)}) {kind}"

            def scenario(m):
                m.import_module(PK)
                c = Ctx(m)
                kw = {n: (c.scalar(n) if kind == "tensor" else Sc(X.leaf(n), "float")) for n in given}
                o = call(m, "cutoff:Cutoff", dtype=Dtype("f64"), device=Device("dev"), **kw)
                return tuple(m.getattr(o, n) for n in names)
            runs = lower(rep, scenario, nm)
            if runs is None:
                continue
            for k, n in enumerate(names):
                e = result(rep, runs, [], f"{nm}.{n}", lambda v: v[k])
                if e is not None:
                    rep.sites += 1
                    rep.equal(f"{nm}.{n}", e, X.leaf(n) if n in given else X.num(dfl[n]), [], what=f"cutoff attribute {n}")


# --------------------------------------------------------------------- C15
def default_nodes(rep, batch, method):
    """graph of Disp.<method>(numbers) at symbolic atoms: the default of an option"""
    k = 2 if method == "get_rvdw" else 1
    r = energy(rep, method, lambda m, c: call(
        m, m.getattr(call(m, "dispersion.base:Disp", "d4", epoch=1, dtype=Dtype(c.dtype), device=Device(c.device)), method),
        c.numbers()), batch, kinds=("N",) * k)
    return r


def to_option(e, g, idx, opt):
    """replace the default quantity g(idx) by the leaf of the option, wherever it occurs"""
    at = [v for v in idx]

    def match(pat, x, sub):
        if pat.op == "var":
            if pat in at:
                old = sub.get(pat)
                if old is None:
                    sub[pat] = x
                    return True
                return old is x
            return pat is x
        if pat is x and not (X.freevars(pat) & set(at)):
            return True
        if pat.op != x.op or len(pat.args) != len(x.args):
            return False
        return all((match(p, y, sub) if isinstance(p, X.E) and isinstance(y, X.E) else p == y)
                   for p, y in zip(pat.args, x.args))

    def f(x):
        if x.op != g.op:
            return None
        sub = {}
        if match(g, x, sub) and len(sub) == len(at):
            return X.leaf(opt, *[sub[v] for v in at])
        return None
    return rewrite(e, f)


def named(m, name):
    return Opaque("function", {"name": name}) if False else get(m, name)


def check_C15(rep: Report):
    rep.rule("for each optional input, the energy graph with the option given equals the default graph with exactly the "
             "default quantity replaced by the given one; with given charges the total charge does not occur; the "
             "three-body energy contains no charges; options equal to their default leave the graph unchanged")
    rep.assume(*TRUST)
    for batch in (False, True):
        b = " batch" if batch else ""

        def run(m, c, path, keys, kw, model="d4", ctor=None):
            kw = {k: (v(m, c) if callable(v) else v) for k, v in kw.items()}
            nu = kw.pop("numbers", None) or c.numbers()
            if path == "dftd4":
                if model != "d4":
                    kw["model"] = model(m, c, nu) if callable(model) else model
                return call(m, "disp:dftd4", nu, c.positions(), c.charge(), c.param(keys), **kw)
            mod = model(m, c, nu) if callable(model) else model
            ck = {k: (v(m, c) if callable(v) else v) for k, v in (ctor or {}).items()}
            d = call(m, path, mod, epoch=1, dtype=Dtype(c.dtype), device=Device(c.device), **ck)
            return call(m, m.getattr(d, "calculate"), nu, c.positions(), c.charge(), c.param(keys), **kw)

        for path, keys, extra in (("dftd4", BJ, {}), ("dftd4", ZERO, {"damping_function": lambda m, c: damp(m, "ZeroDamping")}),
                                  ("dispersion.d4:DispD4", BJ, {}), ("dispersion.d4:DispD4Exact", BJ, {}),
                                  ("dispersion.d3:DispD3Zero", ZERO, {}), ("dispersion.d3:DispD3BJ", BJ + ("rs9",), {})):
            tag = path.rsplit(":")[-1] + (" zero damping" if extra else "") + b
            go = lambda kw, model="d4", ctor=None, k=keys: energy(
                rep, f"{tag} {sorted(kw)}", lambda m, c: run(m, c, path, k, {**extra, **kw}, model, ctor), batch)
            d = go({})
            if not d:
                continue
            e0, idx, c0 = d
            charged = "D3" not in path
            # r4r2, rvdw
            for opt, method, mk_ in (("r4r2", "get_r4r2", lambda m, c: c.atomwise("r4r2")),
                                     ("rvdw", "get_rvdw", lambda m, c: c.pairwise("rvdw~s"))):
                g = default_nodes(rep, batch, method)
                r = go({opt: mk_})
                if g and r:
                    rep.equal(f"{tag}: {opt} replaces its default", r[0], to_option(e0, g[0], g[1], opt + ("~s" if opt == "rvdw" else "")), idx,
                              what=f"energy with given {opt}")
            # rcov is accepted for compatibility only
            r = go({"rcov": lambda m, c: c.atomwise("rcov")})
            if r:
                rep.equal(f"{tag}: rcov has no effect", r[0], e0, idx, what="energy with given covalent radii")
            # charges
            if charged:
                r = go({"q": lambda m, c: c.atomwise("q")})
                if r:
                    want = rewrite(e0, lambda x: X.leaf("q", *x.args[6:]) if x.op == "call" and x.args[0] == "eeq" else None)
                    rep.equal(f"{tag}: q replaces the computed charges", r[0], want, idx, what="energy with given charges")
                    if "charge" in X.leaves(r[0]):
                        confirm_dep(rep, f"{tag}: total charge irrelevant with q", r[0], idx, "charge",
                                    "energy depends on the total charge although charges are given")
                    else:
                        rep.ok(f"{tag}: total charge irrelevant with q")
                    e3 = three_body_only(r[0])
                    if X.leaves(e3) & {"q", "charge"}:
                        confirm_dep(rep, f"{tag}: three-body without charges", e3, idx, "q",
                                    "three-body energy depends on the partial charges")
                    else:
                        rep.ok(f"{tag}: three-body without charges")
            e3 = three_body_only(e0)
            if any(x.op == "call" and x.args[0] == "eeq" for x in X.walk(e3)) and "charge" in X.leaves(e3):
                confirm_dep(rep, f"{tag}: three-body without total charge", e3, idx, "charge",
                            "three-body energy depends on the charges by default")
            else:
                rep.ok(f"{tag}: three-body without total charge")
            if not charged:
                if X.leaves(e0) & {"charge"}:
                    confirm_dep(rep, f"{tag}: independent of the charge", e0, idx, "charge",
                                "energy of a charge-independent method depends on the charge")
                else:
                    rep.ok(f"{tag}: independent of the charge")
            # cutoff
            r = go({"cutoff": cutoff_obj})
            if r:
                rep.equal(f"{tag}: cutoff replaces its default",
                          setleaf(r[0], disp2=X.num(60), disp3=X.num(40), cn=X.num(30), cn_eeq=X.num(25)), e0, idx,
                          what="energy with given cutoffs")
            # model by instance
            inst = lambda m, c, nu: call(m, "model.d4:D4Model", nu, epoch=1, dtype=Dtype(c.dtype), device=Device(c.device))
            r = go({}, inst)
            if r:
                rep.equal(f"{tag}: default model given as instance", r[0], e0, idx, what="energy with the default model instance")
            r1 = go({}, "d4s")
            r2 = go({}, lambda m, c, nu: call(m, "model.d4s:D4SModel", nu, epoch=1, dtype=Dtype(c.dtype), device=Device(c.device)))
            if r1 and r2:
                rep.equal(f"{tag}: D4S model by name and instance", r1[0], r2[0], idx, what="energy with the D4S model")
            r = go({}, "D4")
            if r:
                rep.equal(f"{tag}: model name in capitals", r[0], e0, idx, what="energy with model name 'D4'")
            # an arbitrary model is asked for everything
            r = go({}, lambda m, c, nu: opaque_model(m, c, numbers=nu))
            if r:
                t = [x for x in X.walk(r[0]) if x.op == "tab" and x.args[0] not in r4r2_like(rep, batch)
                     and "numbers" in X.leaves(x)]
                if t:
                    rep.undecided(f"{tag}: given model replaces the default model", f"tables {sorted({x.args[0] for x in t})}")
                else:
                    rep.ok(f"{tag}: given model replaces the default model")
                cns = {(x.args[0], x.args[1]) for x in X.walk(r[0]) if x.op == "call" and x.args[0].startswith("cn_")}
                if cns != {("cn_d4", "erf_count")}:
                    rep.bad(f"{tag}: coordination number", f"coordination number {cns} instead of cn_d4 with erf_count is used "
                            "by default", X.LOC.get(r[0].id))
                else:
                    rep.ok(f"{tag}: coordination number")
            # coordination number function / counting function
            if path == "dftd4":
                r = go({"counting_function": lambda m, c: m.lib.module("tad_mctc.ncoord") and
                        m.getattr(m.lib.module("tad_mctc.ncoord"), "exp_count")})
                if r:
                    want = rewrite(e0, lambda x: X.call(x.args[0], "exp_count", *x.args[2:]) if x.op == "call" and
                                   x.args[0] == "cn_d4" else None)
                    rep.equal(f"{tag}: counting function replaces its default", r[0], want, idx,
                              what="energy with given counting function")
                r = go({"cn_function": lambda m, c: m.getattr(m.lib.module("tad_mctc.ncoord"), "cn_d3")})
                if r:
                    want = rewrite(e0, lambda x: X.call("cn_d3", *x.args[1:]) if x.op == "call" and
                                   x.args[0] == "cn_d4" else None)
                    rep.equal(f"{tag}: coordination number function replaces its default", r[0], want, idx,
                              what="energy with given coordination number function")
                if not extra:
                    for dn, kk in (("RationalDamping", BJ), ("ZeroDamping", ZERO), ("MZeroDamping", MZERO),
                                   ("OptimisedPowerDamping", OP)):
                        r = energy(rep, f"{tag} {dn}", lambda m, c: run(
                            m, c, path, kk, {"damping_function": lambda m, c: damp(m, dn), "q": lambda m, c: c.atomwise("q")},
                            lambda m, c, nu: opaque_model(m, c, numbers=nu)), batch)
                        h = energy(rep, f"{tag} {dn} default", lambda m, c: run(
                            m, c, path, kk, {"q": lambda m, c: c.atomwise("q")},
                            lambda m, c, nu: opaque_model(m, c, numbers=nu)), batch) if "a1" in kk else None
                        if r and h:
                            rep.equal(f"{tag}: three-body unaffected by {dn}", three_body_only(r[0]), three_body_only(h[0]), idx,
                                      what="three-body energy with given two-body damping function")
                            if dn == "RationalDamping":
                                rep.equal(f"{tag}: default damping function", r[0], h[0], idx, what="energy with default damping")
            else:
                r = energy(rep, f"{tag} cn_fn", lambda m, c: run(
                    m, c, path, keys, {}, "d4",
                    {"cn_fn": lambda m, c: m.getattr(m.lib.module("tad_mctc.ncoord"), "cn_d3"),
                     "cn_fn_kwargs": lambda m, c: D({"counting_function": m.getattr(m.lib.module("tad_mctc.ncoord"), "erf_count")}, 1,
                                                    "argument 'cn_fn_kwargs'")}), batch)
                if r:
                    want = rewrite(e0, lambda x: X.call("cn_d3", "erf_count", *x.args[2:]) if x.op == "call" and
                                   x.args[0] == "cn_d4" else None)
                    rep.equal(f"{tag}: coordination number function and arguments", r[0], want, idx,
                              what="energy with given coordination number function")
                r = energy(rep, f"{tag} model_kwargs", lambda m, c: run(
                    m, c, path, keys, {}, "d4",
                    {"model_kwargs": lambda m, c: D({"ga": Sc(X.leaf("ga"), "float"), "gc": Sc(X.leaf("gc"), "float"),
                                                     "wf": c.scalar("wf"), "ref_charges": "gfn2"}, 1, "argument 'model_kwargs'")}), batch)
                h = energy(rep, f"{tag} model instance", lambda m, c: run(
                    m, c, path, keys, {}, lambda m, c, nu: call(
                        m, "model.d4:D4Model", nu, epoch=1, ga=Sc(X.leaf("ga"), "float"), gc=Sc(X.leaf("gc"), "float"),
                        wf=c.scalar("wf"), ref_charges="gfn2", dtype=Dtype(c.dtype), device=Device(c.device))), batch)
                if r and h:
                    rep.equal(f"{tag}: model arguments", r[0], h[0], idx, what="energy with given model arguments")
            pairs_of_options(rep, tag, batch, path, idx, charged,
                             lambda nm, kw, ctor: energy(rep, f"{tag} {nm}", lambda m, c: run(
                                 m, c, path, keys, {**extra, **kw}, lambda m, c, nu: opaque_model(m, c, numbers=nu), ctor), batch))
        # model factors
        for kind, path in (("d4", "model.d4:D4Model"), ("d4s", "model.d4s:D4SModel")):
            model_options(rep, kind, path, batch)
        r0 = energy(rep, "get_properties", scen.SC["get_properties"].fn, batch, PROP[1][1], PROP[1][2])
        r1 = energy(rep, "get_properties no charge", scen.SC["get_properties no charge"].fn, batch, PROP[1][1], PROP[1][2])
        if r0 and r1:
            zero = rewrite(r0[0], lambda x: X.call(*x.args[:4], X.ZERO, *x.args[5:]) if x.op == "call" and
                           x.args[0] == "eeq" else None)
            rep.equal("get_properties: charge defaults to zero" + b, r1[0], zero, r0[1], what="charges without total charge")
    scalar_charge(rep)


def pairs_of_options(rep, tag, batch, path, idx, charged, go):
    """with a given model, any two options (and all of them) act independently of each other"""
    import itertools
    nc = lambda n: (lambda m, c: m.getattr(m.lib.module("tad_mctc.ncoord"), n))
    same = lambda e: e

    def cnname(e, fn=None, count=None):
        return rewrite(e, lambda x: X.call(fn or x.args[0], count or x.args[1], *x.args[2:]) if x.op == "call" and
                       x.args[0] in ("cn_d3", "cn_d4") else None)

    def dflt(opt, method):
        g = default_nodes(rep, batch, method)
        return (lambda e: to_option(e, g[0], g[1], opt)) if g else None
    opts = {
        "r4r2": ({"r4r2": lambda m, c: c.atomwise("r4r2")}, {}, dflt("r4r2", "get_r4r2")),
        "rvdw": ({"rvdw": lambda m, c: c.pairwise("rvdw~s")}, {}, dflt("rvdw~s", "get_rvdw")),
        "rcov": ({"rcov": lambda m, c: c.atomwise("rcov")}, {}, same),
        "cutoff": ({"cutoff": cutoff_obj}, {}, same),
    }
    if charged:
        opts["q"] = ({"q": lambda m, c: c.atomwise("q")}, {}, lambda e: rewrite(
            e, lambda x: X.leaf("q", *x.args[6:]) if x.op == "call" and x.args[0] == "eeq" else None))
    if path == "dftd4":
        opts["cn_function"] = ({"cn_function": nc("cn_d3")}, {}, lambda e: cnname(e, fn="cn_d3"))
        opts["counting_function"] = ({"counting_function": nc("exp_count")}, {}, lambda e: cnname(e, count="exp_count"))
    else:
        opts["cn_fn"] = ({}, {"cn_fn": nc("cn_d3"), "cn_fn_kwargs": lambda m, c: D(
            {"counting_function": m.getattr(m.lib.module("tad_mctc.ncoord"), "exp_count")}, 1, "argument 'cn_fn_kwargs'")},
            lambda e: cnname(e, "cn_d3", "exp_count"))
    base = go("given model", {}, {})
    if not base:
        return
    combos = [(a,) for a in opts] + list(itertools.combinations(opts, 2)) + [tuple(opts)]
    for combo in combos:
        if any(opts[o][2] is None for o in combo):
            continue
        kw, ctor, want = {}, {}, base[0]
        for o in combo:
            kw.update(opts[o][0])
            ctor.update(opts[o][1])
            want = opts[o][2](want)
        r = go("given model, " + ", ".join(combo), kw, ctor)
        if not r:
            continue
        got = r[0]
        if "cutoff" in combo:
            got = setleaf(got, disp2=X.num(60), disp3=X.num(40), cn=X.num(30), cn_eeq=X.num(25))
        rep.sites += 1
        rep.equal(f"{tag}: given model and {', '.join(combo)}", got, want, idx,
                  what=f"energy with a given model and {', '.join(combo)}")


_r4 = {}


def r4r2_like(rep, batch):
    if batch not in _r4:
        s = {"VDW_PAIRWISE"}
        for meth in ("get_r4r2", "get_rvdw"):
            g = default_nodes(rep, batch, meth)
            if g:
                s |= {x.args[0] for x in X.walk(g[0]) if x.op == "tab"}
        _r4[batch] = s
    return _r4[batch]


def confirm_dep(rep, name, e, idx, leafname, msg):
    """the value really changes with the leaf"""
    alt = rewrite(e, lambda x: X.leaf(leafname + "#2", *x.args[1:]) if x.op == "leaf" and x.args[0] == leafname else None)
    try:
        w = rand.distinguish(e, alt, idx, trials=20)
    except rand.Undecidable as u:
        rep.undecided(name, u)
        return
    if w is None:
        rep.undecided(name, f"{leafname} occurs, but no valuation shows a dependence")
    else:
        rep.bad(name, msg, next((X.LOC.get(x.id) for x in X.walk(e) if x.op == "leaf" and x.args[0] == leafname), None), witness=w)


def model_options(rep, kind, path, batch):
    b = " batch" if batch else ""
    outs = (("c6", lambda v: v[0], ("N", "N")), ("polarizability", lambda v: v[1], ("N",)))

    def f(opts):
        def g(m, c):
            kw = {}
            if "ga" in opts:
                kw["ga"] = Sc(X.leaf("ga"), "float")
            if "gc" in opts:
                kw["gc"] = Sc(X.leaf("gc"), "float")
            if "wf" in opts:
                kw["wf"] = c.scalar("wf") if kind == "d4" else c.pairwise("wf")
            if "ref" in opts:
                kw["ref_charges"] = opts["ref"]
            mod = call(m, path, c.numbers(), epoch=2, dtype=Dtype(c.dtype), device=Device(c.device), **kw)
            gw = call(m, m.getattr(mod, "weight_references"), c.atomwise("cn"), c.atomwise("q"))
            return (call(m, m.getattr(mod, "get_atomic_c6"), gw), call(m, m.getattr(mod, "get_polarizabilities"), gw))
        return g
    base = {"ga": 1, "gc": 1, "wf": 1}
    dfl = {"ga": X.num(3), "gc": X.num(2), "wf": X.num(6)}
    for lab, pick, kinds in outs:
        full = energy(rep, f"{kind} model {lab}", f(base), batch, pick, kinds)
        if not full:
            continue
        for omit in ([("ga",), ("gc",), ("wf",)] if kind == "d4" else [("ga",), ("gc",)]):
            r = energy(rep, f"{kind} model {lab} without {omit}", f({k: 1 for k in base if k not in omit}), batch, pick, kinds)
            if r:
                rep.equal(f"{kind} model {lab}: default of {omit[0]}{b}", r[0],
                          setleaf(full[0], **{k: dfl[k] for k in omit}), r[1], what=f"{lab} with default {omit[0]}")
        r = energy(rep, f"{kind} model {lab} eeq", f({**base, "ref": "eeq"}), batch, pick, kinds)
        if r:
            rep.equal(f"{kind} model {lab}: default reference charges{b}", r[0], full[0], r[1],
                      what=f"{lab} with default reference charges")


def scalar_charge(rep):
    """a number as total charge acts like the tensor"""
    for kind in ("float", "int"):
        r = energy(rep, f"dftd4 {kind} charge", lambda m, c: call(
            m, "disp:dftd4", c.numbers(), c.positions(), Sc(X.leaf("charge"), kind), c.param(BJ)))
        d = energy(rep, "dftd4", scen.SC["dftd4"].fn)
        if r and d:
            rep.equal(f"dftd4: total charge as {kind}", r[0], d[0], d[1], what="energy with a number as total charge")
        for lab, pick, kinds in PROP:
            r = energy(rep, f"get_properties {kind} charge: {lab}", lambda m, c: call(
                m, "disp:get_properties", c.numbers(), c.positions(), Sc(X.leaf("charge"), kind)), False, pick, kinds)
            d = energy(rep, "get_properties", scen.SC["get_properties"].fn, False, pick, kinds)
            if r and d:
                rep.equal(f"get_properties: total charge as {kind}: {lab}", r[0], d[0], d[1], what=f"{lab} with a number as total charge")


# --------------------------------------------------------------------- C23
def check_C23(rep: Report):
    rep.rule("the value graphs of dftd4, of the ready-made classes and of manually assembled Disp objects (either order of "
             "registration) are equal for equal settings; the graphs returned by get_properties are the coordination "
             "number, charge, C6 and polarizability sub-graphs of the default energy")
    rep.assume(*TRUST)
    for batch in (False, True):
        b = " batch" if batch else ""
        for model in ("d4", "d4s"):
            for q in (False, True):
                for cut in (False, True):
                    entry_points(rep, batch, model, q, cut)
        # get_properties
        props(rep, batch, b)
        exact(rep, batch, b)
        d3(rep, batch, b)
    scalar_charge(rep)
    plain_numbers(rep)


def plain_numbers(rep):
    """the entry points agree as well when charge and parameters are plain numbers"""
    from .effects import FloatCtx
    for batch in (False, True):
        b = " batch" if batch else ""
        d = energy(rep, "dftd4", scen.SC["dftd4"].fn, batch)
        for n, f in (("dftd4", lambda m, c: call(m, "disp:dftd4", c.numbers(), c.positions(), c.charge(), c.param(BJ))),
                     ("DispD4", lambda m, c: _manual(m, c, "d4", [], BJ, cls="dispersion.d4:DispD4"))):
            r = energy(rep, f"{n} plain numbers", lambda m, c, f=f: f(m, FloatCtx(m, bool(c.lead), c.dtype, c.device)), batch)
            if d and r:
                rep.equal(f"{n} with plain numbers = dftd4 with tensors{b}", r[0], d[0], d[1], what=f"energy of {n}")


def _kw(m, c, q, cut):
    kw = {}
    if q:
        kw["q"] = c.atomwise("q")
    if cut:
        kw["cutoff"] = cutoff_obj(m, c)
    return kw


def _manual(m, c, model, terms, keys=BJ, q=False, cut=False, cls="dispersion.base:Disp", positional=False):
    d = call(m, cls, model, epoch=1, dtype=Dtype(c.dtype), device=Device(c.device))
    for path, kw in terms:
        t = call(m, path, epoch=1, **{k: (v(m) if callable(v) else v) for k, v in kw.items()})
        call(m, m.getattr(d, "register"), t, epoch=1)
    return call(m, m.getattr(d, "calculate"), c.numbers(), c.positions(), c.charge(), c.param(keys), **_kw(m, c, q, cut))


TB = ("dispersion.twobody:TwoBodyTerm", {"damping_fn": lambda m: damp(m, "RationalDamping"), "charge_dependent": True})
AA = ("dispersion.d4:D4ATMApprox", {"damping_fn": lambda m: damp(m, "ZeroDamping"), "charge_dependent": False})
AD = ("dispersion.d4:D4ATMApprox", {})
AE = ("dispersion.d4:D4ATMExact", {})
A3 = ("dispersion.d3:D3ATM", {})


def entry_points(rep, batch, model, q, cut):
    tag = f"{model}{' q' if q else ''}{' cutoff' if cut else ''}{' batch' if batch else ''}"
    ref = energy(rep, f"dftd4 {tag}", lambda m, c: call(m, "disp:dftd4", c.numbers(), c.positions(), c.charge(), c.param(BJ),
                                                       model=model, **_kw(m, c, q, cut)), batch)
    if not ref:
        return
    e0, idx, _ = ref
    var = {
        "DispD4": lambda m, c: _manual(m, c, model, [], BJ, q, cut, "dispersion.d4:DispD4"),
        "Disp + two-body + three-body": lambda m, c: _manual(m, c, model, [TB, AA], BJ, q, cut),
        "Disp + three-body + two-body": lambda m, c: _manual(m, c, model, [AA, TB], BJ, q, cut),
        "Disp + default terms": lambda m, c: _manual(m, c, model, [TB, AD], BJ, q, cut),
    }
    if model == "d4" and not q and not cut:
        var["dftd4 default model"] = lambda m, c: call(m, "disp:dftd4", c.numbers(), c.positions(), c.charge(), c.param(BJ))
        var["dftd4 from the package"] = lambda m, c: call(m, ":dftd4", c.numbers(), c.positions(), c.charge(), c.param(BJ))
    for n, f in var.items():
        r = energy(rep, f"{n} {tag}", f, batch)
        if r:
            rep.equal(f"{n} = dftd4 ({tag})", r[0], e0, idx, what=f"energy of {n}")
    # registering and deregistering
    def dereg(m, c):
        d = call(m, "dispersion.d4:DispD4", model, epoch=1, dtype=Dtype(c.dtype), device=Device(c.device))
        t = call(m, AE[0], epoch=1)
        call(m, m.getattr(d, "register"), t, epoch=1)
        call(m, m.getattr(d, "deregister"), t, epoch=1)
        return call(m, m.getattr(d, "calculate"), c.numbers(), c.positions(), c.charge(), c.param(BJ), **_kw(m, c, q, cut))
    r = energy(rep, f"deregister {tag}", dereg, batch)
    if r:
        rep.equal(f"registered and deregistered term ({tag})", r[0], e0, idx, what="energy after removing an added term")
    # additivity: two single-term objects
    r1 = energy(rep, f"two-body object {tag}", lambda m, c: _manual(m, c, model, [TB], BJ, q, cut), batch)
    r2 = energy(rep, f"three-body object {tag}", lambda m, c: _manual(m, c, model, [AA], BJ, False, cut), batch)
    if r1 and r2:
        rep.equal(f"sum of single-term objects = dftd4 ({tag})", X.add(r1[0], r2[0]), e0, idx, what="sum of the terms' energies")


def exact(rep, batch, b):
    ref = energy(rep, "DispD4Exact", lambda m, c: _manual(m, c, "d4", [], BJ, cls="dispersion.d4:DispD4Exact"), batch)
    if not ref:
        return
    for n, ts in (("two-body + exact three-body", [TB, AE]), ("exact three-body + two-body", [AE, TB])):
        r = energy(rep, n, lambda m, c: _manual(m, c, "d4", ts), batch)
        if r:
            rep.equal(f"Disp + {n} = DispD4Exact{b}", r[0], ref[0], ref[1], what="energy")


def d3(rep, batch, b):
    T2 = lambda d: ("dispersion.twobody:TwoBodyTerm", {"damping_fn": lambda m: damp(m, d), "charge_dependent": False})
    for cls, dn, keys in (("DispD3BJ", "RationalDamping", BJ + ("rs9",)), ("DispD3Zero", "ZeroDamping", ZERO)):
        ref = energy(rep, cls, lambda m, c: _manual(m, c, "d4", [], keys, cls="dispersion.d3:" + cls), batch)
        r = energy(rep, cls + " manual", lambda m, c: _manual(m, c, "d4", [A3, T2(dn)], keys), batch)
        if ref and r:
            rep.equal(f"Disp + terms = {cls}{b}", r[0], ref[0], ref[1], what="energy")


def props(rep, batch, b):
    P = {}
    for lab, pick, kinds in PROP:
        P[lab] = energy(rep, f"get_properties {lab}", scen.SC["get_properties"].fn, batch, pick, kinds)
    e = energy(rep, "dftd4", scen.SC["dftd4"].fn, batch)
    if not e or not all(P.values()):
        return
    # charge and coordination number sub-graphs of the energy
    for lab, nm in (("coordination number", "cn_"), ("charge", "eeq")):
        g, idx, _ = P[lab]
        if g.op != "call":
            rep.undecided(f"get_properties {lab}{b}", "not a plain call")
            continue
        got = {iso.key(X.call(*[x for x in y.args[:len(y.args) - len(idx)]], *idx))
               for y in X.walk(e[0]) if y.op == "call" and y.args[0].startswith(nm)}
        if not got:
            rep.undecided(f"get_properties {lab}{b}", "no such quantity in the energy")
        elif got == {iso.key(g)}:
            rep.ok(f"get_properties {lab} is the one used by the energy{b}")
        else:
            y = next(y for y in X.walk(e[0]) if y.op == "call" and y.args[0].startswith(nm))
            rep.equal(f"get_properties {lab} is the one used by the energy{b}", g,
                      X.call(*y.args[:len(y.args) - len(idx)], *idx), idx, what=lab)
    # two-body energy recomputed from the returned C6 coefficients
    def from_c6(m, c):
        p = call(m, "disp:get_properties", c.numbers(), c.positions(), c.charge())
        d = call(m, "dispersion.base:Disp", "d4", epoch=1, dtype=Dtype(c.dtype), device=Device(c.device))
        r4 = call(m, m.getattr(d, "get_r4r2"), c.numbers())
        return call(m, "dispersion.twobody:dispersion2", c.numbers(), c.positions(), c.param(BJ), m.lib.unpack(p)[2]
                    if hasattr(m.lib, "unpack") else p[2], r4)
    r = energy(rep, "two-body energy from get_properties", from_c6, batch)
    if r:
        rep.equal(f"C6 of get_properties gives the two-body energy{b}", r[0], two_body_only(e[0]), r[1],
                  what="two-body energy from the returned C6 coefficients")

    def from_model(m, c):
        nu = c.numbers()
        p = call(m, "disp:get_properties", nu, c.positions(), c.charge())
        mod = call(m, "model.d4:D4Model", nu, dtype=Dtype(c.dtype), device=Device(c.device))
        gw = call(m, m.getattr(mod, "weight_references"), p[0], p[1])
        return (call(m, m.getattr(mod, "get_polarizabilities"), gw), call(m, m.getattr(mod, "get_atomic_c6"), gw))
    for k, (lab, kinds) in enumerate((("polarizability", ("N",)), ("c6", ("N", "N")))):
        r = energy(rep, f"{lab} from the model", from_model, batch, lambda v: v[k], kinds)
        if r:
            rep.equal(f"get_properties {lab} is the default model's{b}", P[lab][0], r[0], r[1], what=lab)
