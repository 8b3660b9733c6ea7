"""C04-C07: invariances of the lowered results (geometry, order, batch, symmetry)."""
from __future__ import annotations

import random

from .. import expr as X
from .. import canon as C
from .. import rand, iso
from ..rand import Val, Undecidable, _h
from ..relate import RVal, orthogonal, KNOWN_FN, trusted
from ..ctx import *
from ..report import Report
from ..scen import lowered, SC, Lowered
from .formulas import TRUST, lower, result

RELTRUST = ("coordination numbers and charges of the dependencies are themselves invariant, equivariant and "
            "batch-independent (contract of tad_mctc and tad_multicharge)",)
TRIALS = 24


def first_loc(nodes):
    for x in nodes:
        l = X.LOC.get(x.id)
        if l:
            return l
    return None


def decide(rep, name, pair, trials, what, sus, detail="", size=0):
    """a rule was not applicable: look for related valuations with unrelated results (small graphs first)"""
    rep.defer(size, lambda: _decide(rep, name, pair, trials, what, sus, detail))


def _decide(rep, name, pair, trials, what, sus, detail):
    try:
        w = rand.compare(pair, trials)
    except Undecidable as u:
        rep.undecided(name, f"{detail}; {u}")
        return
    except (RecursionError, OverflowError, ValueError, ZeroDivisionError, IndexError, KeyError, TypeError) as u:
        rep.undecided(name, f"{detail}; {type(u).__name__} {u}")
        return
    if w is None:
        rep.undecided(name, f"{detail}, but no related valuations separate the results")
        return
    rep.bad(name, what, first_loc(sus), construct=[X.show(x, 6)[:400] for x in list(sus)[:5]], rule=detail, witness=w)


def selected(rep):
    return lowered(rep, tags={"energy", "property", "model"} if rep.tier == "thorough" else None)


# --------------------------------------------------------------------- C04
def raw_positions(e):
    """position leaves whose coordinates reach the value other than by distances"""
    bad = []
    seen = set()

    def go(x):
        if x.id in seen:
            return
        seen.add(x.id)
        if x.op == "leaf":
            if rand.base(x.args[0]) == "positions" and len(x.args) > 1:
                bad.append(x)
            if rand.base(x.args[0]) == "dist":
                return
        if x.op == "call" and x.args[0] in ("cn_d4", "cn_d3", "eeq"):
            for k, y in enumerate(x.args):
                if k == 3:
                    vs, body = y.args
                    if body.op == "leaf" and body.args[1:] == vs:
                        continue
                if isinstance(y, X.E):
                    go(y)
            return
        for y in X.children(x):
            go(y)
    go(e)
    return bad


def check_C04(rep: Report):
    rep.rule("in the value graph of every public result the coordinates occur only as interatomic distances or as the "
             "coordinate argument of a trusted invariant function; any other use must be confirmed to change a result "
             "under a rotation, reflection or translation before it is reported")
    rep.assume(*TRUST[:1], *RELTRUST)
    def one(lo):
        name = lo.full
        e = lo.e
        rep.count(e)
        rep.sites += sum(1 for x in X.walk(e) if x.op == "leaf" and rand.base(x.args[0]) in ("dist", "positions"))
        if "positions" not in lo.runs[0].machine.leafshape:
            rep.ok(name)
            return
        bad = raw_positions(e)
        if not bad:
            rep.ok(name)
            return
        shapes = lo.runs[0].machine.leafshape
        vs = rand.dim_variants(e)
        pool = rand.pool_of(e)

        def pair(k):
            r = random.Random(k)
            n, b = r.choice((2, 3, 4)), r.choice((1, 2))
            base = Val(4000 + k, {"N": n, "B": b}, pool)
            env = {x: _h(k, x.args[0]) % base.size(x.args[1]) for x in lo.idx}
            m = orthogonal(r) if k % 3 else [[1, 0, 0], [0, 1, 0], [0, 0, 1]]
            t = [r.uniform(-20, 20) for _ in range(3)] if k % 2 or k % 3 == 0 else [0, 0, 0]
            (x,) = vs[k % len(vs)]
            return (RVal(base, shapes, {"N": n, "B": b}, n), x, env,
                    RVal(base, shapes, {"N": n, "B": b}, n, geom=(m, t)), x, env)
        decide(rep, name, pair, TRIALS * len(vs), "result depends on the absolute coordinates, not only on distances",
               bad, "coordinates used outside distances", iso.size(e))
    for lo in selected(rep):
        one(lo)


# --------------------------------------------------------------------- C05
def order_dependence(e, shapes, atomvars=()):
    """constructs that can make a result depend on the position of an atom in the arrays"""
    out = []

    def atomdim(v):
        return v.op == "var" and v.args[1] == "N"

    for x in X.walk(e):
        op, a = x.op, x.args
        if op == "leaf":
            sh = shapes.get(a[0])
            if a[0] == "dist":
                idx = [y for y in a[1:] if not (y.op == "leaf" and len(y.args) == 1)][-2:]
                for i in idx:
                    if i.op != "var":
                        out.append(x)
            elif sh is not None and len(sh) == len(a) - 1:
                for d, i in zip(sh, a[1:]):
                    if d == "N" and i.op != "var":
                        out.append(x)
            elif len(a) > 1:
                out.append(x)
        elif op == "call":
            k = {"cn_d4": 4, "cn_d3": 4, "eeq": 6, "gw": 3, "c6": 2, "pol": 2}.get(a[0])
            if k is None:
                out.append(x)
                continue
            lamb = a[2] if a[0] in ("cn_d4", "cn_d3", "eeq") else a[1]
            dims = [v.args[1] for v in lamb.args[0]] if lamb.op == "lam" else []
            for i in a[k:]:
                if i.op == "num" and "N" in dims and isinstance(i.args[0], X.Fraction):
                    # constant index: only harmless on the reference / frequency axis
                    pos = a[k:].index(i)
                    ax = pos if pos < len(dims) else -1
                    if ax < 0 or dims[ax] == "N":
                        if not (a[0] == "pol" and pos == len(a[k:]) - 1):
                            out.append(x)
                elif i.op not in ("var", "num"):
                    out.append(x)
        elif op in ("ival",):
            if any(atomdim(v) for v in X.freevars(x)):
                out.append(x)
        elif op == "bfn" and a[0] == "ige":
            if any(isinstance(y, X.E) and any(atomdim(v) for v in X.freevars(y)) for y in a[1:]):
                out.append(x)
        elif op == "fn" and a[0] in ("argmax", "argmin"):
            out.append(x)
        elif op in ("opq", "pair"):
            out.append(x)
        elif op == "eqi":
            if any(y.op == "num" for y in a) and any(atomdim(y) for y in a):
                out.append(x)
        elif op in ("add", "mul", "div", "pow", "lt", "eq"):
            if any(isinstance(y, X.E) and atomdim(y) for y in a):
                out.append(x)
        elif op == "red" and a[0] not in ("sum", "prod", "max", "min", "any", "all"):
            out.append(x)
    return out


def check_C05(rep: Report):
    rep.rule("the value graph of every public result is free of order-dependent constructs on the atom axes (constant or "
             "computed atom indices, index arithmetic or comparison, arg-reductions, opaque operations); any such "
             "construct must be confirmed to break equivariance under a relabelling before it is reported")
    rep.assume(*TRUST[:1], *RELTRUST)
    def one(lo):
        name = lo.full
        e = lo.e
        rep.count(e)
        shapes = lo.runs[0].machine.leafshape
        rep.sites += sum(1 for x in X.walk(e) if x.op in ("leaf", "call", "red"))
        sus = order_dependence(e, shapes)
        if not sus:
            rep.ok(name)
            return
        vs = rand.dim_variants(e)
        pool = rand.pool_of(e)

        def pair(k):
            r = random.Random(k)
            n, b = r.choice((2, 3, 3, 4)), r.choice((1, 2))
            base = Val(5000 + k, {"N": n, "B": b}, pool)
            perm = list(range(n))
            while perm == list(range(n)):
                r.shuffle(perm)
            env = {x: _h(k, x.args[0]) % base.size(x.args[1]) for x in lo.idx}
            env2 = {x: (perm[i] if x.args[1] == "N" else i) for x, i in env.items()}
            (x,) = vs[k % len(vs)]
            return (RVal(base, shapes, {"N": n, "B": b}, n, perm=perm), x, env,
                    RVal(base, shapes, {"N": n, "B": b}, n), x, env2)
        decide(rep, name, pair, TRIALS * len(vs), "result depends on the order of the atoms in the input arrays", sus,
               "order-dependent construct on an atom axis", iso.size(e))
    for lo in selected(rep):
        one(lo)


# --------------------------------------------------------------------- C06
def lift(e, sshapes, bshapes, b):
    """the single-molecule graph re-indexed as entry b of a batch"""
    memo = {}

    def go(x, bv):
        k = (x.id, bv.id)
        r = memo.get(k)
        if r is not None:
            return r
        if x.op == "leaf":
            idx = [go(y, bv) if isinstance(y, X.E) else y for y in x.args[1:]]
            nm = x.args[0]
            if nm == "dist" or (nm in bshapes and bshapes[nm] != sshapes.get(nm)):
                idx = [bv] + idx
            r = X.leaf_norm([nm] + idx) if nm == "dist" else X.leaf(nm, *idx)
        elif x.op == "call":
            cut = {"cn_d4": 4, "cn_d3": 4, "eeq": 6, "gw": 3, "c6": 2, "pol": 2}.get(x.args[0], len(x.args))
            args = [lifted_lam(y, bv) if isinstance(y, X.E) and y.op == "lam" else
                    (go(y, bv) if isinstance(y, X.E) else y) for y in x.args[:cut]]
            r = X.call(*args, bv, *[go(y, bv) if isinstance(y, X.E) else y for y in x.args[cut:]])
        elif x.op == "red":
            r = X.reduce_(x.args[0], x.args[1], go(x.args[2], bv))
        elif x.op == "lam":
            r = X.lam(x.args[0], go(x.args[1], bv))
        elif not x.args:
            r = x
        else:
            r = X.rebuild(x, [go(y, bv) if isinstance(y, X.E) else y for y in x.args])
        memo[k] = r
        return r

    def lifted_lam(l, bv):
        vs, body = l.args
        tag = vs[0].args[0][:-1] if vs else "@q"
        bvar = X.namedvar(tag + "0", "B")
        # rename the variables of the single lam to those of the batch lam
        tmp = [X.var(v.args[1], "t") for v in vs]
        body = X.subst(body, dict(zip(vs, tmp))) if vs else body
        body = go(body, bvar)
        nvs = tuple(X.namedvar(f"{tag}{k + 1}", v.args[1]) for k, v in enumerate(vs))
        body = X.subst(body, dict(zip(tmp, nvs))) if vs else body
        return X.lam((bvar,) + nvs, body)
    return go(e, b)


def pad_zero(e, var, shapes):
    """e with atom `var` turned into a padding atom"""
    m = {}
    for x in X.walk(e):
        if x.op == "leaf" and rand.base(x.args[0]) == "numbers" and x.args[-1] is var:
            m[x] = X.ZERO
    return X.subst(e, m) if m else e


def reductions_inert(e):
    """every sum over atoms vanishes for padding atoms; returns offending reductions"""
    bad = []
    n = 0
    for x in X.walk(e):
        if x.op == "red" and x.args[1].args[1] == "N":
            n += 1
            kind, v, body = x.args
            z = pad_zero(body, v, None)
            ok = iso.is_zero(z) if kind == "sum" else False
            if not ok:
                bad.append(x)
        elif x.op == "dim" and x.args[0] in ("N", "B"):
            bad.append(x)
        elif x.op == "red" and x.args[1].args[1] == "B":
            bad.append(x)
    return bad, n


def check_C06(rep: Report):
    rep.rule("batch: the value graph for entry b of a batch equals the single-molecule graph re-indexed by b (canonical "
             "forms); padding: the summand of every reduction over atoms is canonically zero for an atom with number 0, "
             "and so is the result of that atom; anything else must be confirmed with a padded batch before it is "
             "reported")
    rep.assume(*TRUST[:1], *RELTRUST, "padding atoms carry zeros in every per-atom input")
    tags = {"energy", "property", "model"}
    singles = {(lo.name, lo.label): lo for lo in lowered(rep, tags=tags, batches=(False,))}
    def one(lo):
        s = singles.get((lo.name, lo.label))
        if s is None:
            return
        name = lo.full
        rep.count(lo.e, s.e)
        ss, bs = s.runs[0].machine.leafshape, lo.runs[0].machine.leafshape
        b = lo.idx[0]
        sus = []
        why = []
        same = iso.same(lift(s.e, ss, bs, b), lo.e)
        if not same:
            sus += [x for x in X.walk(lo.e) if (x.op == "red" and x.args[1].args[1] == "B")
                    or (x.op == "leaf" and bs.get(x.args[0], ("",))[:1] == ("B",) and x.args[1] is not b
                        and x.args[0] != "dist")] or [lo.e]
            why.append("batch entry differs from the single calculation")
        bad, n = reductions_inert(lo.e)
        rep.sites += n
        if bad:
            sus += bad
            why.append("a reduction over atoms or batch entries is not inert for padding")
        kinds = [v for v in lo.idx if v.args[1] == "N"]
        # the charge model's own zero for padding is trusted; all other results are computed here
        if lo.label in ("energy", "pair energy"):
            for v in kinds:
                if not iso.is_zero(pad_zero(lo.e, v, bs)):
                    sus.append(lo.e)
                    why.append("padding atom has no identically zero energy")
        if not why:
            rep.ok(name)
            return
        vs = rand.dim_variants(lo.e, s.e)
        pool = rand.pool_of(lo.e, s.e)

        def pair(k):
            r = random.Random(k)
            n, nb, pad = r.choice((1, 2, 3, 3, 4)), r.choice((1, 2, 2, 3)), r.choice((0, 0, 1, 2, 3))
            base = Val(6000 + k, {"N": n, "B": nb}, pool)
            alt = Val(66000 + k, {"N": n + pad, "B": nb}, pool)
            b0 = r.randrange(nb)
            eb, es = vs[k % len(vs)]
            bval = AltVal(base, alt, bs, {"N": n + pad, "B": nb}, n, b0, twin=k % 4 == 3, fill=r.randint(1, n + pad) if k % 4 in (0, 1) else None)
            sval = RVal(base, ss, {"N": n}, n, lift=b0, bshapes=bs)
            env = {}
            atpad = pad and k % 3 == 2 and lo.label in ("energy", "pair energy")
            hit = False
            for x in lo.idx:
                d = x.args[1]
                if x is b:
                    env[x] = b0
                elif d == "N":
                    if atpad and not hit:
                        env[x] = n + r.randrange(pad)
                        hit = True
                    else:
                        env[x] = r.randrange(n)
                else:
                    env[x] = r.randrange(d)
            if atpad:
                return bval, eb, env, sval, X.ZERO, {}
            senv = dict(zip(s.idx, [env[x] for x in lo.idx[1:]]))
            return bval, eb, env, sval, es, senv
        decide(rep, name, pair, 2 * TRIALS * len(vs), "value of a batch entry depends on other entries or on the padding", sus,
               "; ".join(why), iso.size(lo.e))
    for lo in lowered(rep, tags=tags, batches=(True,)):
        one(lo)


class AltVal(RVal):
    """batch whose entry b0 is the base molecule plus padding, other entries independent"""

    def __init__(self, base, alt, shapes, dims, n0, b0, twin=False, fill=None):
        super().__init__(base, shapes, dims, n0)
        self.alt_, self.b0_, self.twin, self.fill = alt, b0, twin, fill

    def leaf(self, name, idx):
        sh = self.shapes.get(name)
        if self.twin and rand.base(name) == "numbers" and len(idx) == 2:
            # isomers: all entries have the same atoms
            return super().leaf(name, (self.b0_, idx[1]))
        if self.fill is not None and sh and sh[0] == "B" and idx and idx[0] != self.b0_ and \
                any(d == "N" and i >= self.fill for d, i in zip(sh, idx)):
            return 0 if rand.base(name) in rand.INT_LEAVES else 0.0     # padding of the other entries
        if sh and sh[0] == "B" and idx and idx[0] != self.b0_ and not isinstance(idx[0], str):
            return self.alt_.leaf(name, idx)
        if rand.base(name) == "dist" and idx and not isinstance(idx[0], str) and idx[0] != self.b0_:
            return self.alt_.leaf(name, idx)
        return super().leaf(name, idx)


# --------------------------------------------------------------------- C07
def swap(e, i, j):
    return X.subst(e, {i: j, j: i})


def check_C07(rep: Report):
    rep.rule("exchanging the two atom indices leaves the canonical form of the C6 matrix and of the pair-energy matrix "
             "unchanged (symmetric input coefficients and radii); the triple summand, isolated by a unit C9 tensor, is "
             "unchanged by every permutation of its three atoms; each atom of a triple receives the same share")
    rep.assume(*TRUST)
    for lo in lowered(rep, tags={"matrix", "model", "property"}):
        if lo.label not in ("pair energy", "c6"):
            continue
        at = [v for v in lo.idx if v.args[1] == "N"]
        rep.equal(f"{lo.full} symmetric", lo.e, swap(lo.e, *at), lo.idx, what=f"{lo.label} (A,B) compared with (B,A)")
        rep.sites += 1
    # energy share of a pair: dispersion2 with a unit coefficient on one ordered pair
    triples(rep)
    shares(rep)


def _delta_leaf(e, name, idx):
    """replace leaf name[..., x, y, z] by the indicator of the atoms idx"""
    memo = {}

    def go(x):
        r = memo.get(x.id)
        if r is not None:
            return r
        if x.op == "leaf" and x.args[0] == name:
            at = x.args[-len(idx):]
            r = X.where(X.andb(*[X.eqi(p, q) for p, q in zip(at, idx)]), X.ONE, X.ZERO)
        elif x.op == "red":
            r = X.reduce_(x.args[0], x.args[1], go(x.args[2]))
        elif x.op == "lam":
            r = X.lam(x.args[0], go(x.args[1]))
        elif not x.args:
            r = x
        else:
            r = X.rebuild(x, [go(y) if isinstance(y, X.E) else y for y in x.args])
        memo[x.id] = r
        return r
    return go(e)


def contract(e, idx):
    """sum over v of where(v is I & ..., f(v), 0) -> f(I) on the canonical level happens
    in canon; here distinctness of the three atoms is assumed explicitly"""
    return e


def triples(rep):
    import itertools
    from ..canon import canon, iszero, tadd, tneg
    for batch in (False, True):
        for lo in lowered(rep, names={"get_atm_dispersion"}, batches=(batch,)):
            i = lo.idx[-1]
            P, Q, R = (X.namedvar(n, "N") for n in ("P", "Q", "R"))
            # contribution of the ordered triple (P,Q,R) to the energy of P
            base = X.subst(_delta_leaf(lo.e, "c9", (P, Q, R)), {i: P})
            for perm in itertools.permutations((P, Q, R)):
                if perm == (P, Q, R):
                    continue
                other = X.subst(_delta_leaf(lo.e, "c9", perm), {i: perm[0]})
                nm = "".join(v.args[0] for v in perm)
                rep.sites += 1
                rep.equal(f"{lo.full} triple PQR = {nm}", base, other, lo.idx[:-1] + [P, Q, R],
                          what=f"contribution of a triple compared with its reordering {nm}", trials=120)


def shares(rep):
    """approximate and exact C9 of the terms are symmetric too: whole three-body energy with opaque model"""
    from .formulas import TERMS3
    import itertools
    for cls, (path, rad, c9) in TERMS3.items():
        for batch in (False, True):
            name = f"{cls}{' batch' if batch else ''}"

            def scenario(m):
                m.import_module(PK)
                c = Ctx(m, batch)
                m.epoch = 1
                nu, po = c.numbers(), c.positions()
                model = opaque_model(m, c, numbers=nu)
                keys = ("s9", "alp") + (("a1", "a2") if rad == "bj" else ("rs9",))
                term = call(m, path, epoch=1)
                return call(m, m.getattr(term, "calculate"), numbers=nu, positions=po, param=c.param(keys),
                            cn=c.atomwise("cn"), model=model, q=c.atomwise("q"), r4r2=c.atomwise("r4r2"),
                            rvdw=c.pairwise("rvdw~s"), cutoff=cutoff_obj(m, c))
            runs = lower(rep, scenario, name)
            if runs is None:
                continue
            c = Ctx(runs[0].machine, batch)
            idx = c.idx(1)
            e = result(rep, runs, idx, name)
            if e is None:
                continue
            share_check(rep, name, e, idx)


def share_check(rep, name, e, idx):
    """three real atoms, the rest padding: each atom gets the same energy, whatever its label"""
    from ..relate import RVal
    P, Q, R = (X.namedvar(n, "N") for n in ("P", "Q", "R"))
    body, vs, coef = summand(e)
    if body is None:
        rep.undecided(name, "no double sum over atoms found")
        return
    i = idx[-1]
    f = lambda a, b, c: X.subst(body, {i: a, vs[0]: b, vs[1]: c})
    base = f(P, Q, R)
    import itertools
    for perm in itertools.permutations((P, Q, R)):
        if perm == (P, Q, R):
            continue
        nm = "".join(v.args[0] for v in perm)
        rep.sites += 1
        if iso.same(base, f(*perm)):
            rep.ok(f"{name} share {nm}")
            continue
        # symmetric coefficients are part of the model's contract (sorted arguments of the opaque C6)
        sh = {"numbers": ("N",), "positions": ("N", 3), "r4r2": ("N",), "rvdw~s": ("N", "N"), "cn": ("N",), "q": ("N",),
              "disp2": (), "disp3": (), "cn_eeq": (), "s9": (), "alp": (), "a1": (), "a2": (), "rs9": ()}
        if len(idx) == 2:
            sh = {k: (("B",) + v if v else v) for k, v in sh.items()}
            sh["cn"] = ("B", "N")
        pool = rand.pool_of(e)

        def pair(k, perm=perm):
            base_ = Val(7000 + k, {"N": 3, "B": 2}, pool)
            env = {P: 0, Q: 1, R: 2}
            if len(idx) == 2:
                env[idx[0]] = k % 2
            v = RVal(base_, {**sh, "cn_": ()}, {"N": 3, "B": 2}, 3)
            return v, base, env, v, f(*perm), env
        decide(rep, f"{name} share {nm}", pair, 60, f"contribution of a triple changes with the reordering {nm} of its atoms",
               [base], "summand of the triple sum is not symmetric")


def summand(e):
    """e = c * sum_j sum_k body  ->  (body * c, [j, k])"""
    fac = []
    x = e
    while x.op == "mul":
        reds = [y for y in x.args if any(z.op == "red" and z.args[1].args[1] == "N" for z in X.walk(y))]
        if len(reds) != 1:
            return None, None, None
        fac += [y for y in x.args if y is not reds[0]]
        x = reds[0]
    vs = []
    while x.op == "red" and x.args[0] == "sum" and len(vs) < 2:
        vs.append(x.args[1])
        x = x.args[2]
    if len(vs) != 2:
        return None, None, None
    return X.mul(x, *fac), vs, fac
