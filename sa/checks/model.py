"""C03, C25: reference interpolation of C6 coefficients and polarizabilities."""
from __future__ import annotations

from fractions import Fraction

from .. import expr as X
from .. import spec, tables
from ..ctx import *
from ..report import Report, Anchor
from .formulas import lower, result, TRUST, THOPI, cp_table

NREF = 7
D4 = "model.d4:D4Model"
D4S = "model.d4s:D4SModel"


class RefSpec:
    """the D4/D4S formulas over numbers, cn, q and the published tables"""

    def __init__(self, tabs, lead, charges, ga, gc, wf, cn, q, kind, tag="", pairwf=None):
        self.t = tabs
        self.lead = tuple(lead)
        self.charges = charges
        self.ga, self.gc, self.wf = ga, gc, wf
        self.cn, self.q = cn, q          # functions of an atom index
        self.kind = kind
        self.tag = tag

    def num(self, i):
        return X.leaf("numbers" + self.tag, *self.lead, i)

    def zeta(self, gam, qref, qmod):
        scale = X.exp(X.mul(gam, X.sub(X.ONE, X.div(qref, X.sub(qmod, X.mk("eps", "f64"))))))
        return X.where(X.lt(X.ZERO, qmod), X.exp(X.mul(self.ga, X.sub(X.ONE, scale))), X.exp(self.ga))

    def dzeta(self, gam, qref, qmod):
        scale = X.exp(X.mul(gam, X.sub(X.ONE, X.div(qref, X.sub(qmod, X.mk("eps", "f64"))))))
        z = X.exp(X.mul(self.ga, X.sub(X.ONE, scale)))
        return X.where(X.lt(X.ZERO, qmod), X.mul(X.num(-1), self.ga, gam, scale, z, X.div(qref, X.power(qmod, X.num(2)))),
                       X.ZERO)

    def refq(self):
        return self.t["clsq" if self.charges == "eeq" else "refq"]

    def refh(self):
        return self.t["clsh" if self.charges == "eeq" else "refh"]

    # charge scaling of atom i in reference r
    def zparts(self, i, r):
        z = self.num(i)
        zeff = X.tab("ZEFF", z)
        gam = X.mul(X.tab("GAM", z), self.gc)
        return gam, X.add(X.tab(self.refq(), z, r), zeff), X.add(self.q(i), zeff)

    def mask(self, i, r):
        return X.lt(X.ZERO, X.tab(self.t["refc"], self.num(i), r))

    def zeta_at(self, i, r, deriv=False):
        p = self.zparts(i, r)
        return X.where(self.mask(i, r), self.dzeta(*p) if deriv else self.zeta(*p), X.ZERO)

    def expw(self, i, r, m=None, deriv=False):
        z = self.num(i)
        d = X.sub(self.cn(i), X.tab(self.t["refcovcn"], z, r))
        w = self.wf(i, m) if self.kind == "d4s" else self.wf
        g = lambda k: X.exp(X.mul(X.num(-k), w, d, d))
        if deriv:
            h = lambda k: X.mul(X.num(2 * k), w, d, g(k))
        else:
            h = g
        n = X.tab(self.t["refc"], z, r)
        return X.where(X.eq(n, X.ONE), h(1), X.where(X.eq(n, X.num(3)), X.add(h(1), h(2), h(3)),
                       X.where(X.lt(X.ZERO, n), X.exp(X.mul(X.num(-1), d, d)), X.ZERO) if not deriv else X.ZERO))

    def norm(self, i, m=None, deriv=False):
        s = X.var(NREF, "r")
        return X.reduce_("sum", s, self.expw(i, s, m, deriv))

    def gauss(self, i, r, m=None):
        z = self.num(i)
        x = X.div(self.expw(i, r, m), self.norm(i, m))
        s = X.var(NREF, "r")
        cn = lambda k: X.tab(self.t["refcovcn"], z, k)
        top = X.eq(cn(r), X.reduce_("max", s, cn(s)))
        g = X.where(self.exc(x), X.where(top, X.ONE, X.ZERO), x)
        return X.where(self.mask(i, r), g, X.ZERO)

    def exc(self, x):
        return X.orb(X.mk("isnan", x), X.lt(X.mk("fmax", "f64"), x))

    def dgauss(self, i, r, m=None):
        e, de = self.expw(i, r, m), self.expw(i, r, m, True)
        n, dn = self.norm(i, m), self.norm(i, m, True)
        x = X.div(X.sub(de, X.div(X.mul(e, dn), n)), n)
        return X.where(self.mask(i, r), X.where(self.exc(x), X.ZERO, x), X.ZERO)

    def weight(self, i, r, m=None):
        return X.mul(self.zeta_at(i, r), self.gauss(i, r, m))

    def weight_dq(self, i, r, m=None):
        return X.mul(self.zeta_at(i, r, True), self.gauss(i, r, m))

    def weight_dcn(self, i, r, m=None):
        return X.mul(self.zeta_at(i, r), self.dgauss(i, r, m))

    # reference polarizability of atom i, reference r, frequency w
    def alpha(self, i, r, w):
        z = self.num(i)
        sys = X.tab(self.t["refsys"], z, r)
        zeff = X.tab("ZEFF", sys)
        gam = X.mul(X.tab("GAM", sys), self.gc)
        zt = X.where(X.lt(X.ZERO, sys), self.zeta(gam, zeff, X.add(X.tab(self.refh(), z, r), zeff)), X.ZERO)
        aiw = X.mul(X.tab(self.t["secscale"], sys, X.idxc(0)), X.tab(self.t["secalpha"], sys, w), zt)
        h = X.sub(X.tab(self.t["refalpha"], z, r, w), X.mul(X.tab(self.t["refscount"], z, r), aiw))
        a = X.mul(X.tab(self.t["refascale"], z, r), h)
        return X.where(X.lt(X.ZERO, a), a, X.ZERO)

    def rc6(self, i, j, a, b):
        w = X.var(23, "w")
        return X.mul(X.num(THOPI), X.reduce_("sum", w, X.mul(X.tab(cp_table(), w), self.alpha(i, a, w), self.alpha(j, b, w))))


def build_model(m, c, kind, charges, params, nu):
    """params: 'default' or 'given' (symbolic ga, gc, wf)"""
    kw = {"dtype": Dtype(c.dtype), "device": Device(c.device)}
    if charges is not None:
        kw["ref_charges"] = charges
    if params == "given":
        kw["ga"] = Sc(X.leaf("ga"), "float")
        kw["gc"] = Sc(X.leaf("gc"), "float")
        kw["wf"] = c.pairwise("wf") if kind == "d4s" else c.scalar("wf")
    return call(m, D4S if kind == "d4s" else D4, nu, epoch=1, **kw)


def refspec(m, lead, kind, charges, params, cn="given", q="given", tabs=None):
    tabs = tabs or tables.names(m)
    ga = X.leaf("ga") if params == "given" else X.num(3)
    gc = X.leaf("gc") if params == "given" else X.num(2)
    lead = tuple(lead)
    if kind == "d4s":
        if params == "given":
            wf = lambda i, mm: X.leaf("wf", *lead, i, mm)
        else:
            wf = lambda i, mm: X.tab(tabs["wfpair"], X.leaf("numbers", *lead, i), X.leaf("numbers", *lead, mm))
    else:
        wf = X.leaf("wf") if params == "given" else X.num(6)
    f = lambda n, how: (lambda i: X.leaf(n, *lead, i)) if how == "given" else (lambda i: X.ZERO)
    return RefSpec(tabs, lead, charges or "eeq", ga, gc, wf, f("cn", cn), f("q", q), kind)


def load_tables(m):
    m.import_module(PK)
    for n in ("reference.d4.charge_eeq", "reference.d4.charge_gfn2", "data.wfpair"):
        try:
            m.import_module(PK + "." + n)
        except AbsRaise:
            pass


def label(kind, charges, params, batch, *more):
    return " ".join([kind.upper(), charges or "default-charges", params, "batch" if batch else "single", *more])


def weights_obligation(rep, kind, charges, params, batch, cn="given", q="given", deriv=None):
    name = "weights " + label(kind, charges, params, batch, f"cn {cn}", f"q {q}")
    if deriv:
        name += " with " + deriv
    keep = {}

    def scenario(m):
        load_tables(m)
        c = Ctx(m, batch)
        m.epoch = 1
        nu = c.numbers()
        mod = build_model(m, c, kind, charges, params, nu)
        keep["tabs"] = tables.names(m)
        kw = {}
        if cn == "given":
            kw["cn"] = c.atomwise("cn")
        if q == "given":
            kw["q"] = c.atomwise("q")
        if deriv:
            for d in deriv.split("+"):
                kw["with_" + d] = True
        return call(m, m.getattr(mod, "weight_references"), **kw)
    runs = lower(rep, scenario, name)
    if runs is None:
        return
    c = Ctx(runs[0].machine, batch)
    idx = c.idx(2 if kind == "d4s" else 1) + [X.namedvar("r", NREF)]
    lead = idx[:len(c.lead)]
    s = refspec(runs[0].machine, lead, kind, charges, params, cn, q, keep["tabs"])
    if kind == "d4s":
        mm, nn, r = idx[-3:]
        args = (nn, r, mm)
    else:
        args = tuple(idx[-2:])
    outs = [("", s.weight)]
    if deriv:
        ds = deriv.split("+")
        # documented order: weights, derivative wrt cn, derivative wrt q
        if "dgwdcn" in ds:
            outs.append((" d/dcn", s.weight_dcn))
        if "dgwdq" in ds:
            outs.append((" d/dq", s.weight_dq))
    for k, (nm, f) in enumerate(outs):
        def pick(v, k=k):
            if not deriv:
                return v
            if not isinstance(v, (tuple, L)):
                raise Unsupported("not a tuple")
            items = v.items if isinstance(v, L) else v
            if len(items) != len(outs):
                raise AbsRaise("LengthError", "")
            return items[k]
        try:
            got = result(rep, runs, idx, name + nm, pick)
        except AbsRaise:
            rep.bad(f"weights:{kind}:{deriv}:count", f"{name}: number of returned tensors is not {len(outs)}")
            return
        if got is None:
            continue
        rep.equal(name + nm, got, f(*args), idx, what="reference weight" + nm, trials=150,
                  key=f"weights:{kind}:{charges}:{params}:{cn}:{q}:{deriv}{nm}")


def method_obligation(rep, kind, charges, params, batch, what):
    """alpha / rc6 / get_atomic_c6 / get_weighted_pols / get_polarizabilities"""
    name = f"{what} " + label(kind, charges, params, batch)
    keep = {}

    def scenario(m):
        load_tables(m)
        c = Ctx(m, batch)
        m.epoch = 1
        nu = c.numbers()
        mod = build_model(m, c, kind, charges, params, nu)
        keep["tabs"] = tables.names(m)
        if what == "rc6":
            return m.getattr(mod, "rc6")
        sh = c.nshape + ((c.N,) if kind == "d4s" else ()) + (NREF,)
        gw = c.t("gw", sh)
        return call(m, m.getattr(mod, what), gw)
    runs = lower(rep, scenario, name)
    if runs is None:
        return
    c = Ctx(runs[0].machine, batch)
    r, r2, w = X.namedvar("r", NREF), X.namedvar("t", NREF), X.namedvar("w", 23)
    n = {"rc6": 2, "get_atomic_c6": 2, "get_weighted_pols": 1, "get_polarizabilities": 1}[what]
    idx = c.idx(n) + {"rc6": [r, r2], "get_weighted_pols": [w]}.get(what, [])
    lead = idx[:len(c.lead)]
    at = idx[len(lead):]
    got = result(rep, runs, idx, name)
    if got is None:
        return
    s = refspec(runs[0].machine, lead, kind, charges, params, tabs=keep["tabs"])
    gw = lambda *i: X.leaf("gw", *lead, *i)
    if what == "rc6":
        want = s.rc6(*at)
    elif what == "get_atomic_c6":
        i, j = at
        a, b = X.var(NREF, "a"), X.var(NREF, "b")
        ww = X.mul(gw(j, i, a), gw(i, j, b)) if kind == "d4s" else X.mul(gw(i, a), gw(j, b))
        want = X.reduce_("sum", a, X.reduce_("sum", b, X.mul(s.rc6(i, j, a, b), ww)))
    else:
        i = at[0]
        f = at[1] if what == "get_weighted_pols" else X.idxc(0)
        a = X.var(NREF, "a")
        if kind == "d4s":
            mm = X.var("N", "m")
            k = X.var("N", "m")
            real = lambda x: X.where(X.eq(X.leaf("numbers", *lead, x), X.ZERO), X.ZERO, X.ONE)
            s1 = X.reduce_("sum", mm, X.mul(real(mm), X.reduce_("sum", a, X.mul(gw(mm, i, a), s.alpha(i, a, f)))))
            want = X.div(s1, X.reduce_("sum", k, real(k)))
        else:
            want = X.reduce_("sum", a, X.mul(gw(i, a), s.alpha(i, a, f)))
    rep.equal(name, got, want, idx, what=what, key=f"{what}:{kind}:{charges}:{params}")


def given_rc6(rep, batch):
    """reference C6 supplied by the caller replace the computed ones"""
    for kind in ("d4", "d4s"):
        name = f"get_atomic_c6 with rc6 given {kind} {'batch' if batch else 'single'}"

        def scenario(m):
            load_tables(m)
            c = Ctx(m, batch)
            m.epoch = 1
            nu = c.numbers()
            rc6 = c.t("rc6", c.nshape + (c.N, NREF, NREF))
            mod = call(m, D4S if kind == "d4s" else D4, nu, epoch=1, rc6=rc6, dtype=Dtype(c.dtype), device=Device(c.device))
            gw = c.t("gw", c.nshape + ((c.N,) if kind == "d4s" else ()) + (NREF,))
            return call(m, m.getattr(mod, "get_atomic_c6"), gw)
        runs = lower(rep, scenario, name)
        if runs is None:
            continue
        c = Ctx(runs[0].machine, batch)
        idx = c.idx(2)
        lead = idx[:len(c.lead)]
        i, j = idx[-2:]
        got = result(rep, runs, idx, name)
        if got is None:
            continue
        gw = lambda *k: X.leaf("gw", *lead, *k)
        a, b = X.var(NREF, "a"), X.var(NREF, "b")
        ww = X.mul(gw(j, i, a), gw(i, j, b)) if kind == "d4s" else X.mul(gw(i, a), gw(j, b))
        want = X.reduce_("sum", a, X.reduce_("sum", b, X.mul(X.leaf("rc6", *lead, i, j, a, b), ww)))
        rep.equal(name, got, want, idx, what="C6 from given reference C6", key=f"rc6-given:{kind}")


def check_C03(rep: Report):
    rep.rule("canonical form of the lowered weights, reference C6, atomic C6 and polarizabilities of D4Model and "
             "D4SModel == the published interpolation formulas over the published tables")
    rep.assume(*TRUST, "GAM, ZEFF of tad_mctc hold the published values")
    for kind in ("d4", "d4s"):
        for batch in (False, True):
            for charges in (None, "eeq", "gfn2"):
                for params in ("default", "given"):
                    if charges is None and params == "given":
                        continue
                    weights_obligation(rep, kind, charges, params, batch)
                    for w in ("rc6", "get_atomic_c6", "get_weighted_pols", "get_polarizabilities"):
                        method_obligation(rep, kind, charges, params, batch, w)
            weights_obligation(rep, kind, None, "default", batch, cn="omitted")
            weights_obligation(rep, kind, None, "default", batch, q="omitted")
            weights_obligation(rep, kind, "gfn2", "given", batch, cn="omitted", q="omitted")
    for batch in (False, True):
        given_rc6(rep, batch)
        quadrature(rep, batch)


def quadrature(rep, batch):
    """the public Casimir-Polder quadratures, also of two different sets of polarizabilities"""
    for fn, tail, two in (("trapzd", (NREF, 23), (False, True)), ("trapzd_noref", (23,), (False, True)),
                          ("trapzd_atm", None, (False,))):
        for t in two:
            name = f"quadrature {fn}{' of two sets' if t else ''} {'batch' if batch else 'single'}"

            def scenario(m):
                load_tables(m)
                c = Ctx(m, batch)
                m.epoch = 1
                sh = c.nshape + (tail if tail else (c.N, c.N, 23))
                a = [c.t("pol", sh)] + ([c.t("pol2", sh)] if t else [])
                return call(m, "utils:" + fn, *a)
            runs = lower(rep, scenario, name)
            if runs is None:
                continue
            c = Ctx(runs[0].machine, batch)
            n = 3 if fn == "trapzd_atm" else 2
            ref = [X.namedvar("r", NREF), X.namedvar("t", NREF)] if fn == "trapzd" else []
            idx = c.idx(n) + ref
            lead, at = idx[:len(c.lead)], idx[len(c.lead):len(c.lead) + n]
            got = result(rep, runs, idx, name)
            if got is None:
                continue
            w = X.var(23, "w")
            p2 = "pol2" if t else "pol"
            if fn == "trapzd_atm":
                f = X.leaf("pol", *lead, *at, w)
            elif fn == "trapzd":
                f = X.mul(X.leaf("pol", *lead, at[0], ref[0], w), X.leaf(p2, *lead, at[1], ref[1], w))
            else:
                f = X.mul(X.leaf("pol", *lead, at[0], w), X.leaf(p2, *lead, at[1], w))
            want = X.mul(X.num(THOPI), X.reduce_("sum", w, X.mul(X.tab(cp_table(), w), f)))
            rep.equal(name, got, want, idx, what="Casimir-Polder integral", key=f"quadrature:{fn}")


# ----------------------------------------------------------------------- C25
def regular(e):
    """the graph away from the overflow fallback and without the machine epsilon guard"""
    mp = {}
    for x in X.walk(e):
        if x.op == "isnan" or x.op == "isinf":
            mp[x] = X.FALSE
        elif x.op == "lt" and x.args[0].op == "fmax":
            mp[x] = X.FALSE
        elif x.op == "eps":
            mp[x] = X.ZERO
    return X.subst(e, mp) if mp else e


def derivative_obligation(rep, kind, charges, params, batch, deriv, q="given", cn="given"):
    from ..deriv import D as diff, NoDerivative
    name = "derivatives " + label(kind, charges, params, batch, deriv, f"cn {cn}", f"q {q}")

    def mk(deriv_):
        def scenario(m):
            load_tables(m)
            c = Ctx(m, batch)
            m.epoch = 1
            mod = build_model(m, c, kind, charges, params, c.numbers())
            kw = {}
            if cn == "given":
                kw["cn"] = c.atomwise("cn")
            if q == "given":
                kw["q"] = c.atomwise("q")
            for d in deriv_:
                kw["with_" + d] = True
            return call(m, m.getattr(mod, "weight_references"), **kw)
        return scenario
    ds = deriv.split("+")
    plain = lower(rep, mk([]), name)
    runs = lower(rep, mk(ds), name)
    if runs is None or plain is None:
        return
    if kind == "d4s" and "dgwdcn" in ds and all(r.exc is not None and r.exc.etype == "NotImplementedError" for r in runs):
        rep.ok(name + " (not offered: NotImplementedError)")
        return
    c = Ctx(runs[0].machine, batch)
    idx = c.idx(2 if kind == "d4s" else 1) + [X.namedvar("r", NREF)]
    lead = idx[:len(c.lead)]
    atom = idx[-2]
    order = ["gw"] + [d for d in ("dgwdcn", "dgwdq") if d in ds]
    outs = {}
    key = f"derivative:{kind}:{charges}:{params}:{deriv}"
    for r in runs:
        v = r.value
        if isinstance(v, Unknown):
            rep.undecided(name, v.why)
            return
        if r.exc is not None and not r.exc.explicit:
            rep.undecided(name, f"library error: {r.exc}")
            return
        if r.exc is not None or not isinstance(v, (tuple, L)) or len(v if isinstance(v, tuple) else v.items) != len(order):
            rep.bad(key + ":count", f"asking for {deriv} does not return {len(order)} tensors in the documented order",
                    r.exc.loc if r.exc is not None else None)
            return
    base = result(rep, plain, idx, name)
    if base is None:
        return
    for k, o in enumerate(order):
        got = result(rep, runs, idx, name + " " + o, lambda v, k=k: (v.items if isinstance(v, L) else v)[k])
        if got is None:
            return
        outs[o] = got
    rep.equal(name + " weights unchanged", outs["gw"], base, idx, what="weights returned together with derivatives",
              key=key + ":weights")
    for o in order[1:]:
        if o == "dgwdq" and q != "given" or o == "dgwdcn" and cn != "given":
            continue
        x = X.leaf("q" if o == "dgwdq" else "cn", *lead, atom)
        try:
            want = diff(regular(base), x)
        except NoDerivative as nd:
            rep.undecided(name + " " + o, f"no formal derivative of {nd}")
            continue
        if o == "dgwdcn":
            want = X.neg(want)
        rep.equal(name + " " + o, regular(outs[o]), want, idx, what=f"{o} as the derivative of the returned weights",
                  key=key + ":" + o)


def check_C25(rep):
    rep.rule("formal differentiation of the lowered weights with respect to q and cn; canonical form of each returned "
             "derivative == canonical form of that derivative (cn: negative sign convention), weights unchanged")
    rep.assume(*TRUST, "away from the overflow fallback and up to the machine-epsilon guard of the charge scaling")
    for batch in (False, True):
        for charges in ("eeq", "gfn2"):
            for params in ("default", "given"):
                for d in ("dgwdq", "dgwdcn", "dgwdcn+dgwdq"):
                    derivative_obligation(rep, "d4", charges, params, batch, d)
                for d in ("dgwdq", "dgwdcn"):
                    derivative_obligation(rep, "d4s", charges, params, batch, d)
        derivative_obligation(rep, "d4", "eeq", "default", batch, "dgwdcn", q="omitted")
        derivative_obligation(rep, "d4", "eeq", "default", batch, "dgwdq", cn="omitted")
        derivative_obligation(rep, "d4s", "eeq", "default", batch, "dgwdq", cn="omitted")
