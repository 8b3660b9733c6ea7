"""C20-C22: parameter lookup, shipped parameters, shipped reference tables."""
from __future__ import annotations

import hashlib
import json
import math
import os

from .. import expr as X
from .. import interp, rand, tables
from ..ctx import *
from ..interp import Machine
from ..rand import Val, Undecidable
from ..report import Report, locstr
from .formulas import TRUST, lower
from .model import load_tables

DATA = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "data")
PARAMS = os.path.join(DATA, "params.json")
GET = "damping.parameters:get_params"


# ------------------------------------------------------------- table contents
def table_values(m, t):
    """nested list of the constants of a table-valued tensor"""
    if "table" in t.info:
        return X.TABLES[t.info["table"]]
    v = Val(1, {}, None) if False else Val(1, {"N": 2, "B": 2}, rand.pool_of(X.ZERO))

    def go(pre, k):
        if k == len(t.shape):
            return float(rand.ev(t.arr.at(tuple(X.idxc(i) for i in pre)), v, {}))
        return [go(pre + (i,), k + 1) for i in range(t.shape[k])]
    return go((), 0)


def row_digest(row):
    def go(r):
        if isinstance(r, (list, tuple)):
            return "[" + ",".join(go(x) for x in r) + "]"
        return f"{float(r):.12g}"
    return hashlib.sha1(go(row).encode()).hexdigest()[:12]


def table_rows(m, t):
    return [row_digest(r) for r in table_values(m, t)]


ELEMENTS = ("X H He Li Be B C N O F Ne Na Mg Al Si P S Cl Ar K Ca Sc Ti V Cr Mn Fe Co Ni Cu Zn Ga Ge As Se Br Kr Rb Sr Y Zr Nb "
            "Mo Tc Ru Rh Pd Ag Cd In Sn Sb Te I Xe Cs Ba La Ce Pr Nd Pm Sm Eu Gd Tb Dy Ho Er Tm Yb Lu Hf Ta W Re Os Ir Pt Au "
            "Hg Tl Pb Bi Po At Rn Fr Ra Ac Th Pa U Np Pu Am Cm Bk Cf Es Fm Md No Lr Rf Db Sg Bh Hs Mt Ds Rg Cn Nh Fl Mc Lv Ts "
            "Og").split()


def el(z):
    return ELEMENTS[z] if z < len(ELEMENTS) else f"Z={z}"


def num(v):
    return float(v)


def check_C22(rep: Report):
    rep.rule("constant propagation of every reference table: each element row equals the published row (recorded digest); rows "
             "are checked against each other (a reference slot is used exactly where its reference count is positive, used "
             "slots have positive polarizability and scale, unused slots are zero, secondary systems exist, pair exponents are "
             "symmetric, element 0 is neutral); the value graph of each model contains the tables of its own charge set only")
    rep.assume("the digests in sa/data/tables.json were recorded from the published tables")
    m = Machine()
    load_tables(m)
    pins = tables.pinned()
    val = {}
    for n in list(tables.HOME) + list(tables.FUNC):
        try:
            t = tables.value(m, n)
        except AnchorMissing:
            # renamed: any table with the same contents
            t = None
            for mod in list(m.modules.values()):
                for v in mod.dict.values():
                    if isinstance(v, T) and v.info.get("table") == pins[n]["digest"]:
                        t = v
        if not isinstance(t, T):
            rep.undecided(n, "table not found")
            continue
        try:
            v = table_values(m, t)
        except (Undecidable, KeyError, RecursionError, TypeError) as u:
            rep.undecided(n, f"no constant contents: {u}")
            continue
        val[n] = v
        want = pins[n]["rows"]
        if list(t.shape[1:]) != pins[n]["shape"][1:] or len(v) < len(want):
            rep.bad(f"shape:{n}", f"table {n} has shape {tuple(t.shape)}, published {tuple(pins[n]['shape'])}", where(n))
            continue
        for z, w in enumerate(want):
            rep.sites += 1
            if row_digest(v[z]) == w:
                rep.ok(f"{n}[{z}]")
            else:
                rep.bad(f"row:{n}:{z}", f"row {z} ({el(z) if not n.startswith('sec') else 'secondary system'}) of table {n} is not "
                        f"the published one: {str(v[z])[:200]}", where(n))
    consistency(rep, val)
    wiring(rep, pins)


def where(n):
    return "src/tad_dftd4/" + (tables.HOME.get(n) or tables.FUNC[n].split(":")[0]).replace(".", "/") + ".py"


def consistency(rep, val):
    need = ("refc", "refcovcn", "refalpha", "refascale", "refscount", "refsys", "secscale", "secalpha", "clsq", "clsh", "refq",
            "refh", "wfpair", "r4r2")
    if any(n not in val for n in need):
        rep.undecided("consistency", "a table is missing")
        return
    g = val.__getitem__
    elements = range(len(g("refc")))

    def rule(name, ok, z, r=None):
        rep.sites += 1
        if not ok:
            rep.bad(f"{name}:{z}:{r}", f"{name} (element {z} {el(z)}{'' if r is None else f', reference {r}'})", where(name.split()[0]))

    for z in elements:
        for r in range(7):
            used = num(g("refc")[z][r]) > 0
            rule("refcovcn of a used reference is not negative", not used or num(g("refcovcn")[z][r]) >= 0, z, r)
            rule("refalpha of a used reference is positive", not used or min(map(num, g("refalpha")[z][r])) > 0, z, r)
            rule("refascale of a used reference is positive", not used or num(g("refascale")[z][r]) > 0, z, r)
            rule("refsys names a secondary system", 0 <= num(g("refsys")[z][r]) < len(g("secalpha")) and
                 num(g("refsys")[z][r]) == int(num(g("refsys")[z][r])), z, r)
            rule("refscount of a used reference is not negative", num(g("refscount")[z][r]) >= 0, z, r)
            rule("refc is 0, 1 or 3", num(g("refc")[z][r]) in (0, 1, 3), z, r)
            for n in ("clsq", "clsh", "refq", "refh", "refcovcn", "refascale", "refscount", "refsys"):
                if z < len(g(n)):
                    rule(f"{n} of an unused reference is zero", used or num(g(n)[z][r]) == 0, z, r)
            rule("refalpha of an unused reference is zero", used or max(abs(num(x)) for x in g("refalpha")[z][r]) == 0, z, r)
        if z:
            rule("refc has a reference for every element", any(num(x) > 0 for x in g("refc")[z]), z)
            rule("r4r2 is positive", num(g("r4r2")[z]) > 0 and math.isfinite(num(g("r4r2")[z])), z)
        else:
            rule("r4r2 of element 0 is zero", num(g("r4r2")[0]) == 0, 0)
            rule("refc of element 0 is zero", all(num(x) == 0 for x in g("refc")[0]), 0)
        rep.ok(f"references of element {z}")
    for s in range(len(g("secalpha"))):
        rule("secalpha is not negative", min(map(num, g("secalpha")[s])) >= 0, s)
        rule("secscale is not negative", num(g("secscale")[s][0]) >= 0, s)
    w = g("wfpair")
    for a in range(len(w)):
        for b in range(len(w)):
            rule("wfpair is symmetric", num(w[a][b]) == num(w[b][a]), a, b)
            rule("wfpair is positive", a == 0 or b == 0 or num(w[a][b]) > 0, a, b)
    rep.ok("pair exponents")


def wiring(rep, pins):
    """each model's graph contains its own tables only"""
    dig = {p["digest"]: n for n, p in pins.items() if p["digest"]}
    for kind in ("d4", "d4s"):
        for ref in ("eeq", "gfn2"):
            def scenario(m):
                load_tables(m)
                c = Ctx(m, False)
                m.epoch = 1
                o = call(m, f"model.{kind}:{kind.upper()}Model", c.numbers(), ref_charges=ref, dtype=Dtype("f64"),
                         device=Device("dev"))
                gw = call(m, m.getattr(o, "weight_references"), c.atomwise("cn"), c.atomwise("q"))
                return call(m, m.getattr(o, "get_atomic_c6"), gw)
            name = f"{kind} model with {ref} charges"
            runs = lower(rep, scenario, name)
            if runs is None:
                continue
            try:
                e = value_at(runs, [X.namedvar("i", "N"), X.namedvar("j", "N")])
            except (Unsupported, KeyError, RecursionError) as u:
                rep.undecided(name, f"not lowered: {u}")
                continue
            rep.count(e)
            used = {dig.get(x.args[0], x.args[0]) for x in X.walk(e) if x.op == "tab"}
            other = {"refq", "refh"} if ref == "eeq" else {"clsq", "clsh"}
            own = {"clsq", "clsh"} if ref == "eeq" else {"refq", "refh"}
            must = own | {"refcovcn", "refc", "refsys", "refascale", "refalpha", "refscount", "secscale", "secalpha"}
            if kind == "d4s":
                must |= {"wfpair"}
            rep.data.setdefault("tables", {})[name] = sorted(used)
            wrong = used & other
            if wrong:
                rep.bad(f"charge-set:{kind}:{ref}", f"{name}: the result depends on the table(s) {', '.join(sorted(wrong))} of the "
                        "other charge set", next((X.LOC.get(x.id) for x in X.walk(e) if x.op == "tab" and
                                                  dig.get(x.args[0]) in wrong), None))
            elif must <= used:
                rep.ok(name)
            elif used - set(pins):
                rep.undecided(name, f"derived tables {sorted(used - set(pins))[:4]} (values are decided by the rows and by C03)")
            else:
                rep.bad(f"unused:{kind}:{ref}", f"{name}: table(s) {', '.join(sorted(must - used))} never reach the result")


# ------------------------------------------------------------------ parameters
def as_dict(m, v):
    """plain contents of a returned parameter mapping, None if not concrete"""
    if isinstance(v, D):
        return {k: plain(m, x) for k, x in v.items.items()}
    if isinstance(v, OD):
        out = {}
        d = m.lib.data_at(v.copyof or v.path)
        if not isinstance(d, dict):
            return None
        for k, x in d.items():
            if k not in v.removed:
                out[k] = x
        for k, x in v.added.items():
            out[k] = plain(m, x)
        return out
    return None


def plain(m, x):
    if isinstance(x, OV):
        return m.lib.data_at(x.path)
    if isinstance(x, Sc):
        n = X.numval(x.e)
        return None if n is None else float(n)
    return x


def pins():
    with open(PARAMS) as f:
        return json.load(f)


def toml_files():
    import tomllib
    out = {}
    root = os.path.join(interp.SRC, interp.PKG)
    for dp, dn, fn in os.walk(root):
        for f in sorted(fn):
            if f.endswith(".toml"):
                with open(os.path.join(dp, f), "rb") as h:
                    out[f[:-5]] = (os.path.join(dp, f), tomllib.load(h))
    return out


def try_call(m, f):
    try:
        return f(), None
    except AbsRaise as e:
        return None, e


def fresh_machine(rep, fn):
    """run a fully concrete scenario on one machine"""
    def scenario(m):
        m.import_module(PK)
        m.epoch = 1
        return fn(m)
    runs = lower(rep, scenario, "parameter lookup")
    return runs


def strip(block):
    return {k: v for k, v in block.items() if k != "doi"}


NOT_THERE = ("nosuchfunctional", "", "pbe ", "b3lyp-d4", "parameter", "default.parameter", "reference", "d4", "pbe0x")


def check_C20(rep: Report):
    rep.rule("the lookup is interpreted (a) with symbolic functional and variant names: on every path that returns, the keys "
             "followed in the file are exactly parameter/casefold(functional)/method/variant and only the DOI is dropped, every "
             "other path raises KeyError; (b) by constant propagation for every functional and variant of the shipped files "
             "in several letter cases and for names that are not in the file; (c) changing a returned dictionary never "
             "changes a later result")
    rep.assume("tomllib parses TOML as tomli does", "str.casefold on names behaves as in CPython")
    files = {k: v for k, v in toml_files().items() if isinstance(v[1], dict) and "parameter" in v[1]}
    if not files:
        rep.undecided("files", "no parameter file found")
    for meth, (path, tab) in files.items():
        symbolic_lookup(rep, meth)
        concrete_lookup(rep, meth, tab)
        histories(rep, meth, tab)


def symbolic_lookup(rep, meth):
    for keep in (False, True):
        for var in ("given", "omitted"):
            for enum in (False, True):
                name = f"{meth}: symbolic functional, variant {var}, keep_doi={keep}{', method enum' if enum else ''}"

                def scenario(m):
                    m.import_module(PK)
                    m.epoch = 1
                    kw = {"method": m.call(get(m, "damping.parameters:DispersionMethod"), [meth], {}) if enum else meth,
                          "functional": Str(X.leaf("functional"))}
                    if var == "given":
                        kw["variant"] = Str(X.leaf("variant"))
                    if keep:
                        kw["keep_doi"] = True
                    return call(m, GET, **kw)
                runs = lower(rep, scenario, name)
                if runs is None:
                    continue
                paths, und = 0, None
                for r in runs:
                    rep.sites += 1
                    if r.exc is not None:
                        if r.exc.etype != "KeyError":
                            und = f"a path raises {r.exc.etype}"
                        continue
                    v = r.value
                    if not isinstance(v, OD) or v.copyof is None:
                        und = f"returns {type(v).__name__}"
                        continue
                    keys = [k.e if isinstance(k, Str) else k for k in v.copyof[1:]]
                    cf = X.mk("fn", "str.casefold", X.leaf("functional"))
                    lowered_ = X.mk("fn", "str.lower", X.leaf("functional"))
                    default = r.machine.lib.toml_cache[v.copyof[0][1]].get("default", {}).get(meth, [None])[0]
                    wantv = X.leaf("variant") if var == "given" else default
                    isdef = any(is_default(c) and t for c, t in r.conds)
                    shape_ok = len(keys) == 4 and keys[0] == "parameter" and keys[1] in (cf, lowered_) and keys[2] == meth and \
                        keys[3] == wantv
                    def_ok = isdef and (keys == ["default", "parameter", meth, wantv] or keys == ["parameter", meth, wantv])
                    if not (shape_ok or def_ok):
                        und = f"keys followed: {keys}"
                    elif v.added or v.removed - {"doi"} or (keep and v.removed):
                        und = f"removed {sorted(map(str, v.removed))}, added {sorted(map(str, v.added))}"
                    elif v.epoch < 2:
                        und = "returns the shared mapping"
                    else:
                        paths += 1
                if und or not paths:
                    rep.undecided(name, und or "no returning path")
                else:
                    rep.ok(name)


def is_default(c):
    return any(x.op == "leaf" and "str:default" in str(x.args[0]) for x in X.walk(c))


def cases(name):
    return [name, name.upper(), name.capitalize(), name.swapcase()]


def concrete_lookup(rep, meth, tab):
    default = tab.get("default", {}).get(meth, [None])[0]
    par = tab["parameter"]
    variants = sorted({v for f in par.values() for v in f.get(meth, {})} | set(tab.get("default", {}).get("parameter", {}).get(meth, {})))

    def scenario(m):
        out = []
        for f in sorted(par):
            here = par[f].get(meth, {})
            for v in variants + [None, "nosuchvariant", ""]:
                for k, fn in enumerate(cases(f)):
                    for keep in (False, True):
                        if (k or keep) and v in ("nosuchvariant", ""):
                            continue
                        kw = {"method": meth, "functional": fn}
                        if v is not None:
                            kw["variant"] = v
                        if keep:
                            kw["keep_doi"] = True
                        r, x = try_call(m, lambda: call(m, GET, **kw))
                        out.append((f, v, fn, keep, here, r, x, None if r is None else as_dict(m, r), r is not None and epoch_of(r)))
        for fn in NOT_THERE:
            if fn.casefold() in par or fn == "default":
                continue
            for v in (None, default, "nosuchvariant"):
                r, x = try_call(m, lambda: call(m, GET, method=meth, functional=fn, **({"variant": v} if v else {})))
                out.append((fn, v, fn, False, {}, r, x, None if r is None else as_dict(m, r), 2))
        db = tab.get("default", {}).get("parameter", {}).get(meth, {})
        for fn in (None, "default", "DEFAULT"):
            for v in list(db) + [None, "nosuchvariant"]:
                r, x = try_call(m, lambda: call(m, GET, method=meth, functional=fn, **({"variant": v} if v else {})))
                out.append((fn, v, fn, False, db, r, x, None if r is None else as_dict(m, r), r is not None and epoch_of(r)))
        return out
    runs = fresh_machine(rep, scenario)
    if runs is None:
        return
    for r in runs:
        if r.exc is not None:
            rep.undecided(f"{meth}: constant propagation", f"raises {r.exc.etype}: {r.exc}")
            continue
        for f, v, fn, keep, here, res, x, got, ep in r.value:
            rep.sites += 1
            name = f"{meth}: {fn!r}, variant {v!r}{', keep_doi' if keep else ''}"
            vv = v if v is not None else default
            want = here.get(vv)
            if x is not None:
                if x.etype != "KeyError":
                    if want is None and isinstance(fn, str):
                        rep.bad(f"error:{meth}:{x.etype}:{locstr(x.loc)}", f"lookup of {name} raises {x.etype} instead of KeyError", x.loc)
                    else:
                        rep.bad(f"raise:{meth}:{f}:{v}", f"lookup of {name} raises {x.etype}: {x}", x.loc)
                elif want is not None and not (fn is None or fn.casefold() == "default"):
                    rep.bad(f"missing:{meth}:{f}:{v}", f"lookup of {name} raises KeyError although the file has the block", x.loc)
                elif want is not None and v is None:
                    rep.bad(f"missing:{meth}:default", f"lookup of the default parameters of {meth} raises KeyError", x.loc)
                else:
                    rep.ok(name)
                continue
            if got is None:
                rep.undecided(name, "result is not a concrete mapping")
                continue
            if want is None:
                rep.bad(f"other:{meth}:{f}:{v}", f"lookup of {name}, which the file does not have, returns {got}", None)
                continue
            w = dict(want) if keep else strip(want)
            if got != w:
                rep.bad(f"block:{meth}:{f}:{v}", f"lookup of {name} returns {got} instead of {w}", None)
            else:
                rep.ok(name)


def epoch_of(v):
    return getattr(v, "epoch", 2)


def histories(rep, meth, tab):
    """a returned dictionary is the caller's own"""
    par = tab["parameter"]
    default = tab.get("default", {}).get(meth, [None])[0]
    fs = [f for f in sorted(par) if default in par[f].get(meth, {})]
    some = fs[:3] + [f for f in ("b3lyp", "pbe") if f in fs]
    withdoi = [f for f in fs if "doi" in par[f][meth][default]][:3]

    def scenario(m):
        out = []
        for f in some + withdoi + [None]:
            for keep in (False, True):
                for keep2 in (False, True):
                    def one(k):
                        return call(m, GET, method=meth, functional=f, **({"keep_doi": True} if k else {}))
                    a, x = try_call(m, lambda: one(keep))
                    if a is None:
                        continue
                    for key, val in (("s6", 99.0), ("doi", "mine"), ("s8", 77.0)):
                        call(m, m.getattr(a, "update"), D({key: val}, 1), epoch=1) if True else None
                    try:
                        call(m, m.getattr(a, "pop"), "a1", None, epoch=1)
                        call(m, m.getattr(a, "pop"), "rs6", None, epoch=1)
                    except AbsRaise:
                        pass
                    b, x = try_call(m, lambda: one(keep2))
                    out.append((f, keep, keep2, a is b, None if b is None else as_dict(m, b), x))
        return out
    runs = fresh_machine(rep, scenario)
    if runs is None:
        return
    for r in runs:
        if r.exc is not None:
            rep.undecided(f"{meth}: changed results", f"raises {r.exc.etype}: {r.exc}")
            continue
        for f, keep, keep2, same, got, x in r.value:
            name = f"{meth}: {f!r} after changing an earlier result (keep_doi {keep}, {keep2})"
            rep.sites += 1
            blk = par[f][meth][default] if f else tab["default"]["parameter"][meth][default]
            want = dict(blk) if keep2 else strip(blk)
            if same or got != want:
                rep.bad(f"shared:{meth}:{f}", f"{name}: the lookup returns " + ("the same object again" if same else f"{got}") +
                        (f" ({x.etype})" if x else ""), x.loc if x else None)
            else:
                rep.ok(name)


# ------------------------------------------------------------------------ C21
FAMILY = {"bj": "RationalDamping", "bjm": "RationalDamping", "zero": "ZeroDamping", "zerom": "MZeroDamping",
          "op": "OptimisedPowerDamping"}


def family(variant):
    return FAMILY.get(variant.split("-")[0])


def check_C21(rep: Report):
    rep.rule("constant propagation of the lookup for every published block: all published keywords and values come back "
             "unchanged; every block of the shipped files (also new ones) is handed to the damping function of its variant "
             "for orders 6 and 8 and to the three-body term: no keyword is unknown, none is missing; all values are finite "
             "numbers")
    rep.assume("sa/data/params.json was recorded from the published parameter files")
    pub = pins()
    files = toml_files()
    blocks = {}
    for meth in pub:
        for f in pub[meth]:
            for v in pub[meth][f]:
                blocks[meth, f, v] = True
    for meth, (p, tab) in files.items():
        for f, sec in tab.get("parameter", {}).items():
            for v in sec.get(meth, {}):
                blocks[meth, f, v] = True

    def scenario(m):
        out = {}
        for meth, f, v in sorted(blocks):
            r, x = try_call(m, lambda: call(m, GET, method=meth, functional=f, variant=v))
            got = None if r is None else as_dict(m, r)
            out[meth, f, v] = (got, x)
        return out
    runs = fresh_machine(rep, scenario)
    if runs is None:
        return
    for r in runs:
        if r.exc is not None:
            rep.undecided("lookup", f"raises {r.exc.etype}: {r.exc}")
            return
        for (meth, f, v), (got, x) in r.value.items():
            name = f"{meth} {f} {v}"
            rep.sites += 1
            if got is None:
                if x is not None:
                    rep.bad(f"unreachable:{name}", f"block {name} is not found by the lookup ({x.etype})", x.loc)
                else:
                    rep.undecided(name, "result is not a concrete mapping")
                continue
            want = pub.get(meth, {}).get(f, {}).get(v)
            if want is not None and got != want:
                diff = {k: (got.get(k), want.get(k)) for k in sorted(set(got) | set(want)) if got.get(k) != want.get(k)}
                rep.bad(f"value:{name}", f"block {name} differs from the published values: " +
                        ", ".join(f"{k}: {a} instead of {b}" for k, (a, b) in diff.items()), f"parameters of {meth}")
            nonnum = [k for k, a in got.items() if isinstance(a, bool) or not isinstance(a, (int, float)) or not math.isfinite(a)]
            if nonnum:
                rep.bad(f"number:{name}", f"block {name}: {', '.join(nonnum)} is not a finite number", f"parameters of {meth}")
            else:
                rep.ok(name + " published")
    sets = {}
    for (meth, f, v), (got, x) in runs[0].value.items():
        if got is not None and family(v):
            sets.setdefault((family(v), tuple(sorted(got))), []).append(f"{meth} {f} {v}")
    for (fam, keys), names in sorted(sets.items()):
        usable(rep, fam, keys, names)


def attempt(rep, fam, keys):
    """interpret the two- and three-body terms with a block of these keywords; the exception, if any"""
    def scenario(m):
        m.import_module(PK)
        m.epoch = 1
        c = Ctx(m, False)
        from ..scen import damp
        par = D({k: Sc(X.leaf(k), "float") for k in keys}, 1)
        t = call(m, "dispersion.twobody:dispersion2", c.numbers(), c.positions(), par, c.pairwise("c6~s"), c.atomwise("r4r2"),
                 c.pairwise("rvdw~s"), damp(m, fam))
        atm = {"RationalDamping": "dispersion.d4:D4ATMApprox"}.get(fam, "dispersion.d3:D3ATM")
        nu = c.numbers()
        term = call(m, atm, epoch=1, damping_fn=damp(m, "ZeroDamping"))
        t3 = call(m, m.getattr(term, "calculate"), numbers=nu, positions=c.positions(), param=par, cn=c.atomwise("cn"),
                  model=opaque_model(m, c, numbers=nu), q=None, r4r2=c.atomwise("r4r2"), rvdw=c.pairwise("rvdw~s"),
                  cutoff=cutoff_obj(m, c))
        return t, t3
    runs = lower(rep, scenario, f"{fam} with {'+'.join(keys)}")
    if runs is None:
        return None, False
    return next((r.exc for r in runs if r.exc is not None), None), True


KEYWORDS = ("a1", "a2", "s6", "s8", "s9", "s10", "rs6", "rs8", "rs9", "alp", "bet")


def usable(rep, fam, keys, names):
    """a block with these keywords works with the damping function"""
    exc, ok = attempt(rep, fam, keys)
    if not ok:
        return
    need = "?"
    if exc is not None and exc.etype in ("TypeError", "KeyError", "ValueError"):
        unknown = [k for k in keys if k not in KEYWORDS]
        if unknown:
            need = "without " + "+".join(unknown)
        else:
            for k in KEYWORDS:
                if k not in keys and attempt(rep, fam, tuple(keys) + (k,))[0] is None:
                    need = k
                    break
    for n in names:
        rep.sites += 1
        if exc is None:
            rep.ok(n + " usable")
        elif exc.etype in ("TypeError", "KeyError", "ValueError"):
            rep.bad(f"usable:{n}:{need}", f"block {n} cannot be used with {fam}: {exc.etype} {exc}", exc.loc)
        else:
            rep.undecided(n, f"{exc.etype}: {exc}")
