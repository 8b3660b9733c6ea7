"""Equality of large value graphs: congruence, normal forms only where needed."""
from __future__ import annotations

from itertools import permutations

import time

from . import expr as X
from . import canon as C
from .expr import E

FAIL = (C.TooBig, RecursionError, KeyError, ValueError, ZeroDivisionError, AttributeError, TypeError)

_ids: dict = {}


def _intern(key):
    r = _ids.get(key)
    if r is None:
        r = _ids[key] = len(_ids) + 1
    return r


_memo: dict = {}


def key(e, env=None, depth=0):
    """number of e up to renaming of bound indices and order of commutative operands"""
    env = env or {}
    fv = X.freevars(e)
    k = (e.id, depth if _binds(e) else 0, tuple((v.id, env[v]) for v in sorted(fv) if v in env))
    r = _memo.get(k)
    if r is None:
        r = _memo[k] = _key(e, env, depth)
    return r


_b: dict = {}


def _binds(e):
    r = _b.get(e.id)
    if r is None:
        r = e.op in ("red", "lam") or any(_binds(x) for x in X.children(e))
        _b[e.id] = r
    return r


def _key(e, env, depth):
    op, a = e.op, e.args
    if op == "var":
        lv = env.get(e)
        return _intern(("b", lv, a[1]) if lv is not None else ("v", e.id))
    if op == "red" and a[0] == "sum" and a[2].op == "red" and a[2].args[0] == "sum":
        # nested sums commute
        vs, x = [], e
        while x.op == "red" and x.args[0] == "sum" and len(vs) < 4:
            vs.append(x.args[1])
            x = x.args[2]
        best = None
        for p in permutations(range(len(vs))):
            en = dict(env)
            for k, q in enumerate(p):
                en[vs[q]] = depth + k
            r = _intern(("sums", tuple(vs[q].args[1] for q in p), key(x, en, depth + len(vs))))
            best = r if best is None else min(best, r)
        return best
    if op == "red":
        en = {**env, a[1]: depth}
        return _intern(("red", a[0], a[1].args[1], key(a[2], en, depth + 1)))
    if op == "lam":
        vs, body = a
        en = dict(env)
        for k, v in enumerate(vs):
            en[v] = depth + k
        return _intern(("lam", tuple(v.args[1] for v in vs), key(body, en, depth + len(vs))))
    ks = [key(x, env, depth) if isinstance(x, E) else ("k", str(x)) for x in a]
    if op in ("add", "mul", "and"):
        ks = sorted(ks)
    elif op in ("eq", "eqi") and ks[0] > ks[1]:
        ks = ks[::-1]
    elif op == "call" and a[0] == "c6":
        ks[-2:] = sorted(ks[-2:])
    elif op == "leaf" and (a[0] == "dist" or a[0].endswith("~s")) and len(ks) >= 3:
        ks[-2:] = sorted(ks[-2:])
    return _intern((op,) + tuple(ks))


def size(e, limit=4000):
    n = 0
    for _ in X.walk(e):
        n += 1
        if n > limit:
            break
    return n


def same(x, y, seconds=20.0, limit=1500):
    """True only if x and y denote the same function; False: not shown"""
    t0 = time.monotonic()
    if _SPENT[0] > 60:
        seconds = min(seconds, 2.0)
    try:
        with C.budget(seconds):
            return _same(x, y, limit, {})
    except FAIL:
        return False
    finally:
        _SPENT[0] += time.monotonic() - t0


_SPENT = [0.0]          # seconds used for comparisons so far; later ones get less
_TRIED = {}
_NEG = {}


def _canon_same(x, y, limit):
    k = (key(x), key(y))
    r = _TRIED.get(k)
    if r is None:
        r = _TRIED[k] = _canon_same1(x, y, limit)
    return r


def _canon_same1(x, y, limit):
    if size(x, limit) > limit or size(y, limit) > limit:
        return False
    try:
        with C.budget(3.0):
            return C.same(x, y)
    except FAIL:
        return False


def _same(x, y, limit, memo):
    if x is y:
        return True
    k = (x.id, y.id)
    r = memo.get(k)
    if r is None:
        memo[k] = False
        kk = (key(x), key(y))
        r = kk[0] == kk[1] or _NEG.get(kk)
        if r is None:
            r = _NEG[kk] = _same2(x, y, limit, memo)
        memo[k] = r
    return r


def _same2(x, y, limit, memo):
    if x.op == y.op:
        a, b = x.args, y.args
        if x.op == "red":
            if a[0] == b[0] and a[1].args[1] == b[1].args[1]:
                if _same(a[2], X.subst(b[2], {b[1]: a[1]}), limit, memo):
                    return True
        elif x.op == "lam":
            if tuple(v.args[1] for v in a[0]) == tuple(v.args[1] for v in b[0]):
                return _same(a[1], X.subst(b[1], {q: p for p, q in zip(a[0], b[0]) if p is not q}) if a[0] != b[0] else b[1],
                             limit, memo)
            return False
        elif x.op in ("add", "mul", "and"):
            ra, rb = list(a), []
            ka = [key(t) for t in ra]
            for t in b:
                q = key(t)
                if q in ka:
                    p = ka.index(q)
                    ka.pop(p)
                    ra.pop(p)
                else:
                    rb.append(t)
            if len(ra) == len(rb) == 1 and _same(ra[0], rb[0], limit, memo):
                return True
            if len(ra) == len(rb) <= 4 and len(ra) > 1:
                rest = list(rb)
                ok = True
                for t in ra:
                    for u in rest:
                        if t.op == u.op and _same(t, u, limit, memo):
                            rest.remove(u)
                            break
                    else:
                        ok = False
                        break
                if ok:
                    return True
            if x.op != "and" and (len(ra) < len(a)):
                f = X.add if x.op == "add" else X.mul
                u = X.ZERO if x.op == "add" else X.ONE
                if _canon_same(f(*ra) if ra else u, f(*rb) if rb else u, limit):
                    return True
        elif len(a) == len(b) and x.op not in ("var", "num", "bool"):
            if all((_same(p, q, limit, memo) if isinstance(p, E) and isinstance(q, E) else p == q) for p, q in zip(a, b)):
                return True
    if x.op in ("call", "lam", "var") or y.op in ("call", "lam", "var"):
        return False
    return _canon_same(x, y, limit)


def zero_fold(e, memo=None):
    """e with 0*x and where-guards folded (values only, not for the finiteness analysis)"""
    memo = {} if memo is None else memo

    def go(x):
        r = memo.get(x.id)
        if r is not None:
            return r
        if not x.args or x.op in ("var", "num", "bool", "lam"):
            r = x
        elif x.op in ("where", "phi"):
            c = go(x.args[0])
            if c is X.TRUE:
                r = go(x.args[1])
            elif c is X.FALSE:
                r = go(x.args[2])
            else:
                r = X.rebuild(x, [c, go(x.args[1]), go(x.args[2])])
        elif x.op == "mul":
            ks = [go(y) for y in x.args]
            r = X.ZERO if any(X.isnum(k, 0) or k is X.FALSE for k in ks) else X.mul(*ks)
        elif x.op == "red":
            b = go(x.args[2])
            r = X.ZERO if x.args[0] == "sum" and X.isnum(b, 0) else X.reduce_(x.args[0], x.args[1], b)
        elif x.op == "div":
            n = go(x.args[0])
            r = X.ZERO if X.isnum(n, 0) else X.div(n, go(x.args[1]))
        else:
            r = X.rebuild(x, [go(y) if isinstance(y, E) else y for y in x.args])
        memo[x.id] = r
        return r
    return go(e)


def is_zero(e, seconds=3.0, limit=1500):
    z = zero_fold(e)
    if X.isnum(z, 0) or z is X.FALSE:
        return True
    if size(z, limit) > limit:
        return False
    try:
        with C.budget(seconds):
            return C.iszero(C.canon(z))
    except FAIL:
        return False
