"""C12: no operation is evaluated at a singular point for masked elements."""
from __future__ import annotations

import math

from .. import expr as X
from .. import rand, iso
from ..rand import Val, ev, Undecidable, base, INT_LEAVES, _h
from ..report import locstr
from ..scen import lowered
from ..sign import Sign, Facts, N, Z, P
from .formulas import TRUST

LIMIT = {"f64": (4.9e-324, 1.797e308), "f32": (1.4e-45, 3.402e38)}
EPS = {"f64": 2.220446049250313e-16, "f32": 1.1920929e-07}
PADZERO = ("r4r2", "rvdw", "rcov", "radii", "cn", "c6", "c9", "q")
ATOMS = {"rvdw": 2, "radii": 2, "c6": 2, "c9": 3, "wf": 2, "rc6": 2}


class FVal(Val):
    """ordinary molecules with padding: real atoms are distinct, padding atoms sit on the origin and carry zeros"""

    def __init__(self, seed, dtype, wide, dims=None, varied=False):
        super().__init__(seed, {"N": 3, "B": 2}, (), special=False)
        self.dtype = dtype
        self.wide = wide            # ids of nodes that are computed in double precision only
        self.tiny, self.huge = LIMIT[dtype]
        self.numbers = {}
        self.varied = varied        # any element, short and long distances, large charges
        self.dscale = (1.0, 0.2, 3.0, 0.6)[seed % 4] if varied else 1.0

    def number(self, idx):
        lead, i = idx[:-1], idx[-1]
        r = self.numbers.get(lead)
        if r is None:
            els = (1, 6, 8, 2, 14, 26, 79, 0, 0, 0) if not self.varied else (0, *range(1, 104))
            r = [els[_h(self.seed, "z", lead, k) % len(els)] for k in range(self.size("N"))]
            if not any(r):
                r[0] = 1
            self.numbers[lead] = r
        return r[i] if i < len(r) else 0

    def pad(self, name, idx):
        n = ATOMS.get(base(name), 1)
        lead, at = tuple(idx[:-n]), idx[-n:]
        return any(self.number(lead + (int(i),)) == 0 for i in at)

    def pos(self, name, pre, i, x):
        if self.number(tuple(pre) + (i,)) == 0:
            return 0.0
        u = self.rnd("pos", name, tuple(pre), i, x)
        return (1.5 + 2.5 * i + u if x == 0 else 2.0 * u) * self.dscale

    def leaf(self, name, idx):
        b = base(name)
        if b in INT_LEAVES:
            return self.number(tuple(idx))
        if b in ("positions", "dist"):
            return super().leaf(name, idx)
        if b in PADZERO and idx and self.pad(name, idx):
            return 0.0
        u = self.rnd("leaf", name, tuple(sorted(idx)) if name.endswith("~s") else idx)
        if b == "q":
            return (0.8 * u - 0.4) * (2.2 if self.varied else 1)
        if b == "alp":
            return 12.0 + 4 * u
        if b in ("disp2", "disp3", "cutoff", "cn_eeq"):
            return 20.0 + 20 * u
        if b == "cn" and idx:
            return (10 if self.varied and self.seed % 3 == 0 else 4) * u
        if b in rand.POS_LEAVES:
            return 0.4 + 2.2 * u
        return 2.4 * u - 1.2

    def semantic(self, e, env):
        nm = e.args[0]
        if nm in ("eeq", "cn_d4", "cn_d3", "cn_eeq", "c6", "pol"):
            n = {"c6": 2}.get(nm, 1)
            idx = [ev(x, self, env) for x in e.args[1:] if isinstance(x, X.E) and x.op in ("var", "num", "ival")]
            if nm == "pol" and idx:
                idx = idx[:-1]
            if len(idx) >= n:
                lead = tuple(idx[:-n])
                try:
                    if any(self.number(lead + (int(i),)) == 0 for i in idx[-n:]):
                        return 0.0
                except (IndexError, TypeError):
                    pass
            if nm == "eeq":
                return 0.8 * self.rnd("eeq", *idx) - 0.4
            return 0.2 + 2 * self.rnd("call", nm, *sorted(map(str, idx)))
        if nm in ("gw",):
            return 0.1 + 0.8 * self.rnd("gw", *[str(x) for x in e.args[3:]], *sorted(env.values()))
        return None

    def override(self, e, env):
        op = e.op
        if op == "eps":
            return EPS.get(e.args[0] if e.args else self.dtype, EPS["f64"])
        if op == "fmax":
            return LIMIT.get(e.args[0], LIMIT["f64"])[1]
        if op == "fmin":
            return -LIMIT.get(e.args[0], LIMIT["f64"])[1]
        if op == "ssqrt":
            x = float(ev(e.args[0], self, env))
            return math.sqrt(max(x, EPS[self.dtype]))
        if op == "sdiv":
            y = float(ev(e.args[1], self, env))
            return rand._div(float(ev(e.args[0], self, env)), y if y != 0 else EPS[self.dtype])
        if op in ("mul", "div", "pow", "add", "exp", "fn", "red"):
            r = rand._ev(e, self, env)
            return self.fit(e, r)
        return None

    def fit(self, e, r):
        if isinstance(r, bool) or isinstance(r, int):
            return r
        if e.id in self.wide:
            return r
        if r != r:
            return r
        if abs(r) < self.tiny:
            return 0.0
        if abs(r) > self.huge:
            return math.copysign(math.inf, r)
        return r


CONT: dict = {}


def continuous(e):
    """the node depends differentiably on a continuous input"""
    r = CONT.get(e.id)
    if r is None:
        op = e.op
        if op == "leaf":
            r = base(e.args[0]) not in INT_LEAVES and not str(e.args[0]).startswith(("?", "raise:", "rank:", "none"))
        elif op == "call":
            r = True
        elif op in ("tab", "num", "var", "bool", "eq", "lt", "and", "not", "eqi", "isnan", "isinf", "bfn", "dim", "eps"):
            r = False
        elif op in ("where", "phi"):
            r = continuous(e.args[1]) or continuous(e.args[2])
        elif op == "fn" and e.args[0] in ("cut", "argmax", "argmin", "sign", "floor", "ceil", "round", "trunc"):
            r = False
        else:
            r = any(continuous(a) for a in X.children(e))
        CONT[e.id] = r
    return r


def singular_ops(root):
    for x in X.walk(root):
        if x.op == "div" and continuous(x):
            yield x, x.args[1], "denominator"
        elif x.op == "pow" and continuous(x):
            ex = X.numval(x.args[1])
            if ex is not None and ex >= 1 and (ex.denominator == 1):
                continue
            yield x, x.args[0], "base of a power"
        elif x.op == "fn" and x.args[0] in ("log", "log2", "log10", "acos", "asin", "rsqrt") and continuous(x):
            yield x, x.args[1], f"argument of {x.args[0]}"


def proved(sg, op, b):
    """sign analysis excludes the singular point (facts of the operand only, never of enclosing masks)"""
    s = sg.of(b, Facts())
    if op.op == "div":
        return not s & Z
    if op.op == "pow":
        ex = op.args[1]
        v = X.numval(ex)
        if s == P:
            return True
        if v is not None and v.denominator == 1:
            return not s & Z
        # symbolic positive exponents of at least one (admissible alp, 3*wf)
        return False
    return s == P


def local_jacobian(op, v, env):
    """values of an operation and of its derivatives at one point"""
    e = op.op
    if e == "div":
        a, b = float(ev(op.args[0], v, env)), float(ev(op.args[1], v, env))
        out = [rand._div(1.0, b)] if continuous(op.args[0]) else []
        if continuous(op.args[1]):
            out.append(rand._div(rand._div(a, b), b))
        if not out:
            out = [rand._div(a, b)]
        return out, b
    if e == "pow":
        a, p = float(ev(op.args[0], v, env)), float(ev(op.args[1], v, env))
        out = [rand._pow(a, p)]
        if continuous(op.args[0]) and p != 0:
            out.append(p * rand._pow(a, p - 1))
        if continuous(op.args[1]) and not (p == 0 or a == 0 and p >= 0):
            out.append(rand._pow(a, p) * (math.log(a) if a > 0 else math.nan))
        return out, a
    if e == "exp":
        return [float(ev(op, v, env))], float(ev(op.args[0], v, env))
    a = float(ev(op.args[1], v, env))
    if op.args[0] in ("log", "log2", "log10"):
        return [rand._div(1.0, a) if a >= 0 else math.nan], a
    if op.args[0] in ("acos", "asin"):
        return [rand._pow(1 - a * a, -0.5) if abs(a) < 1 else math.inf], a
    return [rand._pow(a, -1.5)], a


def environments(op, v, trial):
    """index values for the free indices of a node: coincidences and every slot occur"""
    fv = sorted(X.freevars(op), key=lambda x: x.args[0])
    n = v.size("N")
    combos = [{}]
    for x in fv:
        d = v.size(x.args[1])
        if x.args[1] == "N" or d <= 3:
            combos = [{**c, x: k} for c in combos for k in range(d)]
        else:
            combos = [{**c, x: _h(trial, x.args[0], len(c), i) % d} for i, c in enumerate(combos)]
        if len(combos) > 81:
            combos = combos[trial % 3::3]
    return combos


def check_C12(rep):
    rep.rule("every division, fractional or symbolic power, logarithm and root that depends on a continuous input has an "
             "operand that stays away from the singular point for all index combinations, including masked ones; facts "
             "from masks count only where they select the operand itself")
    rep.assume(*TRUST, "distinct real atoms have distinct positions; parameters and radii of real atoms are positive; padding "
               "atoms carry zeros; every molecule has a real atom")
    rep.assume("overflow is judged for ordinary molecules (bond-length distances, |q| below 0.4)")
    seen = set()
    total = 0
    for dtype in ("f64", "f32"):
        for l in lowered(rep, tags=("energy", "property", "model"), dtype=dtype, setup=lambda m: X.WIDE.clear()):
            rep.count(l.e)
            wide = set(X.WIDE) if dtype == "f32" else set()
            fresh = []
            for op, b, what in singular_ops(l.e):
                total += 1
                sk = (shape(op), dtype, op.id in wide)
                if sk in seen:
                    continue
                seen.add(sk)
                obligation(rep, l, op, b, what, dtype, wide, X.LOC.get(op.id))
            for x in X.walk(l.e) if dtype == "f32" else ():
                if x.op in ("exp", "mul", "add") and continuous(x):
                    sk = (shape(x), dtype, x.id in wide)
                    if sk not in seen:
                        seen.add(sk)
                        fresh.append(x)
            overflow(rep, l, dtype, wide, fresh)
            if dtype == "f32" and bool(l.c.lead) and l.label != "weighted polarizability":
                whole(rep, l, dtype, wide)
    rep.sites = total


_vals: dict = {}


def valuation(seed, dtype, wide, tag):
    """valuations are shared by the obligations of one scenario (memoised)"""
    if _vals.get("tag") != tag:
        _vals.clear()
        _vals["tag"] = tag
    v = _vals.get(seed)
    if v is None:
        v = _vals[seed] = FVal(seed, dtype, wide)
    if len(v.memo) > 1_500_000:
        v.memo.clear()
    return v


def shape(x):
    fv = tuple(sorted(X.freevars(x), key=lambda v: v.id))
    return iso.key(X.lam(fv, x)) if fv else iso.key(x)


SG = Sign()


def fname(loc):
    return loc[2].split(".<")[0] if loc else "?"


def obligation(rep, l, op, b, what, dtype, wide, loc):
    name = f"{dtype} {what} {X.show(b, 3)[:80]} in {fname(loc)}"
    try:
        pr = proved(SG, op, b)
    except RecursionError:
        pr = False
    bad = None
    done = 0
    for t in range(2 if pr else 12):
        v = valuation(7000 + t, dtype, wide, (l.full, dtype))
        for env in environments(op, v, t):
            try:
                js, base_ = local_jacobian(op, v, env)
            except (Undecidable, OverflowError, KeyError):
                continue
            done += 1
            js = [v.fit(op, float(j)) for j in js]
            if not all(math.isfinite(j) for j in js):
                bad = (t, env, base_, js, {k: v.numbers[k] for k in v.numbers})
                break
        if bad:
            break
    if bad:
        t, env, base_, js, nums = bad
        rep.bad(f"singular:{op.op}:{fname(loc)}",
                f"{what} {X.show(b, 5)[:200]} is {base_:.3g} at a masked element ({dtype}), so the value or its derivative is "
                f"not finite", loc, node=X.show(op, 7)[:600], scenario=l.full,
                witness={"indices": {x.args[0]: k for x, k in env.items()}, "atomic numbers": str(nums), "derivatives": js})
    elif pr:
        rep.ok(name + " [sign analysis]")
    elif done:
        rep.ok(name + " [all coincidence cases]")
    else:
        rep.undecided(name, "operand cannot be interpreted")


def overflow(rep, l, dtype, wide, nodes):
    """values of differentiable nodes stay in range for masked elements"""
    if not nodes:
        return
    bad = None
    for t in range(2):
        v = valuation(7000 + t, dtype, wide, (l.full, dtype))
        for x in nodes:
            for env in environments(x, v, t)[:27]:
                try:
                    r = float(ev(x, v, env))
                except (Undecidable, OverflowError, KeyError):
                    continue
                if not math.isfinite(r) and all(math.isfinite(safe(a, v, env)) for a in X.children(x) if a.op != "var"):
                    bad = (x, env, r)
                    break
            if bad:
                break
        if bad:
            break
    if bad:
        x, env, r = bad
        loc = X.LOC.get(x.id)
        rep.bad(f"overflow:{x.op}:{fname(loc)}", f"intermediate value {X.show(x, 5)[:200]} overflows {dtype} at a masked element",
                loc, scenario=l.full, witness={y.args[0]: k for y, k in env.items()})
    else:
        rep.ok(f"{dtype} {l.full}: {len(nodes)} intermediate values in range")


def safe(a, v, env):
    try:
        return float(ev(a, v, env))
    except (Undecidable, OverflowError, KeyError):
        return 0.0


def whole(rep, l, dtype, wide):
    done = 0
    for t in range(2):
        v = valuation(7000 + t, dtype, wide, (l.full, dtype))
        for env in environments(l.e, v, t)[:9] if len(l.idx) else [{}]:
            env = {**{x: 0 for x in l.idx}, **env}
            try:
                r = float(ev(l.e, v, env))
            except (Undecidable, OverflowError, KeyError):
                continue
            done += 1
            if not math.isfinite(r):
                rep.bad(f"result:{l.name}:{l.label}", f"{l.full} is not finite ({dtype}) for a molecule with padding",
                        X.LOC.get(l.e.id), witness={"indices": {x.args[0]: k for x, k in env.items()}, "numbers": str(v.numbers)})
                return
    if done:
        rep.ok(f"{dtype} {l.full}: result finite")
    else:
        rep.undecided(f"{dtype} {l.full}", "result cannot be interpreted")
