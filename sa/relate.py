"""Valuations for relational properties: geometry, relabelling, padding, batches.

A relational property says that two valuations related by some transformation
give related results.  The rules of the checks prove it on the graph; only when
a rule does not apply, related valuations decide whether the construct that
broke the rule really makes a difference (random interpretation).
"""
from __future__ import annotations

import math
import random

from . import expr as X
from . import rand
from .rand import Val, Undecidable, ev, _h

KNOWN_FN = set(rand.FN1) | set(rand.FN2)


class RVal(Val):
    """base valuation seen through a transformation.

    shapes : leaf name -> symbolic shape
    N      : number of atoms presented; indices >= n0 are zero padding
    perm   : None or list, presented atom -> stored atom
    geom   : None or (3x3 matrix, shift), applied to the coordinates
    lift   : None or batch number: leaves are those of this entry of a batch
    b0     : leaves of other batch entries are taken from the valuation `alt`"""

    def __init__(self, base, shapes, dims, n0, perm=None, geom=None, lift=None, b0=None, alt=None, bshapes=None):
        self.base, self.shapes, self.n0 = base, shapes, n0
        self.perm, self.geom, self.lift, self.b0, self.alt = perm, geom, lift, b0, alt
        self.bshapes = bshapes
        self.seed = base.seed
        self.dims = dict(base.dims)
        self.dims.update(dims)
        self.memo = {}
        self.tables = base.tables
        self.pool = base.pool
        self.coarse = base.coarse
        self.scale = base.scale
        self.extreme = base.extreme
        self.cscale = base.cscale

    def rnd(self, *key):
        return self.base.rnd(*key)

    def leaf(self, name, idx):
        b = rand.base(name)
        if b == "dist":
            *pre, i, j = idx
            if i == j:
                return 0.0
            nm = "positions"
            if pre and isinstance(pre[0], str):
                nm, pre = pre[0], pre[1:]
            p = [self.leaf(nm, (*pre, i, x)) for x in range(3)]
            q = [self.leaf(nm, (*pre, j, x)) for x in range(3)]
            return math.sqrt(math.fsum((x - y) ** 2 for x, y in zip(p, q)))
        sh = self.shapes.get(name)
        if sh is None:
            if not idx and name in ("ga", "gc"):
                return self.base.leaf(name, idx)
            raise Undecidable(f"leaf {name}")
        if len(sh) != len(idx):
            raise Undecidable(f"leaf {name} rank")
        src = self.base
        new = []
        pad = False
        for d, i in zip(sh, idx):
            if d == "N":
                if self.perm is not None and i < len(self.perm):
                    i = self.perm[i]
                if i >= self.n0:
                    pad = True
            elif d == "B":
                if self.b0 is not None and i != self.b0 and self.alt is not None:
                    src = self.alt
            new.append(i)
        if pad:
            return 0 if b in rand.INT_LEAVES else 0.0
        if self.lift is not None and self.bshapes.get(name, sh) != sh:
            new.insert(0, self.lift)
        new = tuple(new)
        if b == "positions":
            r = [src.leaf(name, new[:-1] + (x,)) for x in range(3)]
            if self.geom is None:
                return r[new[-1]]
            m, t = self.geom
            return math.fsum(m[new[-1]][x] * r[x] for x in range(3)) + t[new[-1]]
        return src.leaf(name, new)

    # ---------------------------------------------------- trusted calls
    def _slice(self, lam, pre, env):
        """values of a lam over its last axis for the leading indices pre"""
        vs, body = lam.args
        k = len(vs) - 1
        if k > len(pre):
            raise Undecidable("call rank")
        en = dict(env)
        if k:
            for w, i in zip(vs[:k], pre[len(pre) - k:]):
                en[w] = 0 if w.args[1] == 1 else i
        return [ev(body, self, {**en, vs[-1]: n}) for n in range(self.size(vs[-1].args[1]))]

    def _coords(self, lam, pre, env):
        vs, body = lam.args
        en = dict(env)
        k = len(vs) - 2
        for w, i in zip(vs[:k], pre[len(pre) - k:] if k else ()):
            en[w] = 0 if w.args[1] == 1 else i
        return [[float(ev(body, self, {**en, vs[-2]: n, vs[-1]: x})) for x in range(3)]
                for n in range(self.size(vs[-2].args[1]))]

    def semantic(self, e, env):
        a = e.args
        name = a[0]
        if e.op == "opq":
            raise Undecidable(f"opaque {name}")
        if name in ("cn_d4", "cn_d3", "eeq"):
            key, nu, po = a[1], a[2], a[3]
            ex = a[4:6] if name == "eeq" else ()
            idx = [ev(x, self, env) for x in a[4 + len(ex):]]
            *pre, i = idx
            pre = tuple(pre)
            en = {w: env[w] for w in X.freevars(nu) | X.freevars(po)}
            ck = ("mol", nu.id, po.id, pre, tuple(sorted((w.id, x) for w, x in en.items())))
            mol = self.memo.get(ck)
            if mol is None:
                zs = [int(z) for z in self._slice(nu, pre, env)]
                xs = self._coords(po, pre, env)
                mol = self.memo[ck] = (zs, xs)
            zs, xs = mol
            if not 0 <= i < len(zs):
                raise Undecidable("call index")
            if zs[i] == 0:
                return 0.0
            r = 0.2
            for j, z in enumerate(zs):
                if j != i and z != 0:
                    d = math.dist(xs[i], xs[j])
                    # keep the dependence visible at every length scale
                    r += (0.2 + self.rnd(name, key, zs[i], z)) / (1 + d / self.scale) ** 2
            if name != "eeq" and self.extreme and self.rnd("ext", zs[i]) < 0.5:
                r *= 400
            elif name != "eeq":
                r *= self.cscale
            if name == "eeq":
                ch, cu = ex
                if ch.op == "lam":
                    vs, body = ch.args
                    q = float(ev(body, self, {**env, **dict(zip(vs, pre[len(pre) - len(vs):] if vs else ()))}))
                else:
                    q = float(ev(ch, self, env))
                c = float(ev(cu, self, env))
                r = 0.6 - r * 0.3 + q * (0.3 + self.rnd("eeqz", zs[i])) / sum(1 for z in zs if z) + 0.1 * math.atan(c / 10)
                r *= self.cscale
            return r
        if name == "gw":
            cn, q = a[1], a[2]
            idx = [ev(x, self, env) for x in a[3:]]
            pre, i, r = tuple(idx[:-2]), idx[-2], idx[-1]
            f = lambda t: 0.0 if t.op != "lam" else float(self._slice(t, pre, env)[i])
            return 0.1 + self.rnd("gw", r) * math.atan(f(cn)) ** 2 + 0.3 * self.rnd("gwq", r) * math.atan(f(q)) ** 2
        if name in ("c6", "pol"):
            l = a[1]
            idx = [ev(x, self, env) for x in a[2:]]
            vs, body = l.args
            pre = tuple(idx[:-2])

            def row(i):
                en = {**env, **dict(zip(vs[:-2], pre)), vs[-2]: i}
                return [float(ev(body, self, {**en, vs[-1]: r})) for r in range(self.size(vs[-1].args[1]))]
            x = row(idx[-2])
            if name == "pol":
                return 0.5 + sum(self.rnd("pol", idx[-1], r) * g for r, g in enumerate(x))
            y = row(idx[-1])
            return 0.5 + sum(self.rnd("c6", r) * g * h for r, (g, h) in enumerate(zip(x, y)))
        raise Undecidable(f"call {name}")


def trusted(e):
    """no node whose meaning under a transformation is unknown"""
    for x in X.walk(e):
        if x.op == "opq" or (x.op == "fn" and x.args[0] not in KNOWN_FN and x.args[0] not in ("argmax", "argmin")) \
                or (x.op == "bfn" and x.args[0] not in ("ige", "isclose")):
            return False
    return True


def orthogonal(r: random.Random):
    """random orthogonal matrix (rotations and reflections)"""
    while True:
        v = [[r.gauss(0, 1) for _ in range(3)] for _ in range(3)]
        out = []
        ok = True
        for a in v:
            for b in out:
                d = sum(x * y for x, y in zip(a, b))
                a = [x - d * y for x, y in zip(a, b)]
            n = math.sqrt(sum(x * x for x in a))
            if n < 1e-3:
                ok = False
                break
            out.append([x / n for x in a])
        if ok:
            return out
