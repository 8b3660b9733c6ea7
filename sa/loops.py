"""Loops over a dimension of symbolic extent.

``for i in range(n)`` with symbolic ``n`` is interpreted once, with a fresh index variable for ``i``
and place holders for every value carried from one pass to the next.  The effect of one pass on a
carried tensor is then summarised for all passes when it has one of the forms

    carry + f(i)                      sum over i
    where(.., carry + f(i), carry)    sum over i of the masked increment
    where(b == i, g(i), carry)        element-wise assignment (each element written in its own pass)
    g(i)                              value of the last pass

Anything else raises ``Unsupported`` and the written names become unknown.
"""
from __future__ import annotations

import ast

from . import expr as X
from .values import Arr, L, Sc, SymSeq, T, Unknown, Unsupported

_n = [0]


def inst(val, v, w):
    """value of one pass, for index term w"""
    if v is w:
        return val
    if isinstance(val, Sc):
        return Sc(X.subst(val.e, {v: w}), val.kind)
    if isinstance(val, T):
        a = val.arr
        gs = tuple(X.var(d, "g") for d in a.shape)
        body = X.subst(a.at(gs), {v: w})
        return T(Arr(a.shape, lambda i: X.subst(body, dict(zip(gs, i))), a.loc, a.dt), val.dtype, val.device, val.region)
    if isinstance(val, tuple):
        return tuple(inst(x, v, w) for x in val)
    if isinstance(val, L):
        return L([inst(x, v, w) for x in val.items], val.epoch)
    if isinstance(val, (int, float, str, bool)) or val is None:
        return val
    raise Unsupported("loop value")


def fresh(seq):
    """the sequence with an index variable of its own"""
    w = X.var(seq.dim, "it")
    return SymSeq(w, seq.dim, inst(seq.item, seq.v, w), X.subst(seq.guard, {seq.v: w}))


def dim_of_stop(e):
    """dimension d if 0 <= e <= size of d by construction"""
    if e.op == "dim":
        return e.args[0]
    if e.op == "var":
        return e.args[1]
    if e.op == "add":
        nums = [a for a in e.args if a.op == "num"]
        rest = [a for a in e.args if a.op != "num"]
        if len(rest) == 1 and len(nums) == 1:
            n = X.numval(nums[0])
            if rest[0].op == "dim" and n <= 0:
                return rest[0].args[0]
            if rest[0].op == "var" and n <= 1:
                return rest[0].args[1]
    return None


def symrange(m, a):
    if len(a) == 3 and a[2] != 1:
        raise Unsupported("symbolic range with a step")
    lo, hi = (0, a[0]) if len(a) == 1 else a[:2]
    if not all(isinstance(x, (int, Sc)) for x in (lo, hi)) or not isinstance(hi, Sc):
        raise Unsupported("symbolic range")
    d = dim_of_stop(hi.e)
    if d is None or isinstance(d, int):
        raise Unsupported("symbolic range")
    v = X.var(d, "it")
    g = X.TRUE
    if not (isinstance(lo, int) and lo == 0):
        g = X.le(m.lib.sce(lo), v)
    if hi.e.op != "dim":
        g = X.andb(g, X.lt(v, hi.e))
    return SymSeq(v, d, Sc(v, "int"), g)


def symseq(m, v):
    """SymSeq of an iterable with symbolic extent, else None"""
    if isinstance(v, SymSeq):
        return fresh(v)
    if isinstance(v, T) and v.ndim and not isinstance(v.shape[0], int):
        d = v.shape[0]
        w = X.var(d, "it")
        return SymSeq(w, d, m.tlib.basic_index(v, [Sc(w, "int")]), X.TRUE)
    return None


def zipped(m, seqs):
    """zip of iterables at least one of which has symbolic extent"""
    ss = [symseq(m, s) for s in seqs]
    if any(s is None for s in ss) or len({s.dim for s in ss}) != 1 or any(s.guard is not X.TRUE for s in ss):
        raise Unsupported("zip over a symbolic extent")
    w = ss[0].v
    return SymSeq(w, ss[0].dim, tuple(inst(s.item, s.v, w) for s in ss), X.TRUE)


def total(m, seq, start):
    """sum(seq, start)"""
    it = seq.item
    if isinstance(it, Sc):
        body = X.where(seq.guard, it.e, X.num(0))
        return m.binop("Add", start, Sc(X.reduce_("sum", seq.v, body), it.kind))
    if isinstance(it, T):
        a = it.arr
        gs = tuple(X.var(d, "g") for d in a.shape)
        body = X.reduce_("sum", seq.v, X.where(seq.guard, a.at(gs), X.num(0)))
        t = m.tlib.new(a.shape, lambda i: X.subst(body, dict(zip(gs, i))), it.dtype, it.device)
        return m.binop("Add", start, t)
    raise Unsupported("sum over a symbolic extent")


def stacked(m, seq, dim, new):
    it = seq.item
    if seq.guard is not X.TRUE or not isinstance(it, (T, Sc)):
        raise Unsupported("stack over a symbolic extent")
    if isinstance(it, Sc):
        raise Unsupported("stack of scalars")
    a = it.arr
    sh = list(a.shape)
    if new:
        d = m.tlib.axis(dim, len(sh) + 1)
        sh.insert(d, seq.dim)
    else:
        d = m.tlib.axis(dim, len(sh))
        if sh[d] != 1:
            raise Unsupported("cat over a symbolic extent")
        sh[d] = seq.dim
    gs = tuple(X.var(q, "g") for q in a.shape)
    body = a.at(gs)

    def fn(i):
        rest = i[:d] + i[d + 1:] if new else i[:d] + (X.idxc(0),) + i[d + 1:]
        mp = dict(zip(gs, rest))
        mp[seq.v] = i[d]
        return X.subst(body, mp)
    return m.tlib.new(sh, fn, it.dtype, it.device)


# ---------------------------------------------------------------- statements
def root(n):
    while isinstance(n, (ast.Subscript, ast.Attribute, ast.Call)):
        n = n.func if isinstance(n, ast.Call) else n.value
    return n.id if isinstance(n, ast.Name) else None


MUT = {"append", "extend", "insert", "pop", "update", "setdefault", "remove", "clear", "add", "sort", "popitem",
       "discard", "reverse"}


def written(stmts):
    """(names bound, names whose object is changed) by the statements"""
    bound, changed = set(), set()
    for s in stmts:
        for n in ast.walk(s):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                bound.add(n.id)
            elif isinstance(n, (ast.Subscript, ast.Attribute)) and isinstance(n.ctx, (ast.Store, ast.Del)):
                changed.add(root(n))
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
                a = n.func.attr
                if a in MUT or (a.endswith("_") and not a.endswith("__")):
                    changed.add(root(n.func.value))
            if isinstance(n, ast.Call):
                for k in n.keywords:
                    if k.arg == "out":
                        changed.add(root(k.value))
            if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name):
                changed.add(n.target.id)
    changed.discard(None)
    return bound, changed


def has(stmts, kinds):
    return any(isinstance(n, kinds) for s in stmts for n in ast.walk(s))


def no_continue(stmts):
    """rewrite ``if c: continue`` into nested conditions"""
    out = []
    for k, s in enumerate(stmts):
        if isinstance(s, ast.If) and len(s.body) == 1 and isinstance(s.body[0], ast.Continue) and not s.orelse:
            rest = no_continue(stmts[k + 1:])
            if rest:
                t = ast.copy_location(ast.UnaryOp(op=ast.Not(), operand=s.test), s.test)
                out.append(ast.copy_location(ast.If(test=t, body=rest, orelse=[]), s))
            return out
        out.append(s)
    return out


class Carry:
    __slots__ = ("name", "kind", "old", "init", "leaf", "shape", "obj")


def place(m, val):
    """place holder for a carried value; returns (value, leaf(idx))"""
    _n[0] += 1
    nm = f"?carry{_n[0]}"
    if isinstance(val, T):
        sh = val.shape
        return (lambda i: X.leaf(nm, *i)), nm
    return (lambda i: X.leaf(nm)), nm


def delta(e, c, nm):
    """e - c for carried node c; None when it has no such form"""
    if e is c:
        return X.num(0)
    if not mentions(e, nm):
        return None
    if e.op == "add":
        hit = [a for a in e.args if a is c]
        rest = [a for a in e.args if a is not c]
        if len(hit) == 1 and not any(mentions(a, nm) for a in rest):
            return X.add(*rest) if rest else X.num(0)
        w = [a for a in rest if mentions(a, nm)]
        if not hit and len(w) == 1:
            d = delta(w[0], c, nm)
            return None if d is None else X.add(d, *[a for a in rest if a is not w[0]])
        return None
    if e.op in ("where", "phi") and not mentions(e.args[0], nm):
        p, q = delta(e.args[1], c, nm), delta(e.args[2], c, nm)
        return None if p is None or q is None else (X.where if e.op == "where" else X.phi)(e.args[0], p, q)
    return None


def mentions(e, nms):
    if isinstance(nms, str):
        nms = (nms,)
    return any(x.op == "leaf" and x.args[0] in nms for x in X.walk(e))


def align(e, c, nm, facts=()):
    """carried value read at an index known to be the element's own one"""
    if e.op in ("where", "phi"):
        cond, p, q = e.args
        for f, val in facts:
            if f is cond:
                return align(p if val else q, c, nm, facts)
        p = align(p, c, nm, facts + ((cond, True),))
        q = align(q, c, nm, facts + ((cond, False),))
        return (X.where if e.op == "where" else X.phi)(cond, p, q)
    if not mentions(e, nm):
        return e
    if e.op == "leaf" and e.args[0] == nm and e is not c:
        eqs = [set(q.args) for f, val in facts if val for q in conj(f) if q.op in ("eqi", "eq")]
        eqs += [set(f.args[0].args) for f, val in facts if not val and f.op == "not" and f.args[0].op in ("eqi", "eq")]
        for _ in eqs:
            for x in eqs:
                for y in eqs:
                    if x & y:
                        x |= y
        if all(a is b or any(a in q and b in q for q in eqs) for a, b in zip(e.args[1:], c.args[1:])):
            return c
        return e
    if e.op == "add":
        return X.add(*[align(a, c, nm, facts) for a in e.args])
    return e


def conj(c):
    if c.op == "and":
        for a in c.args:
            yield from conj(a)
    else:
        yield c


def overwrite(e, c, nm, v, guard, gs, init):
    """where(b == v & .., g, carry): each element is written in its own pass"""
    if e.op != "where":
        return None
    cond, g, r = e.args
    if g is c:
        cond, g, r = X.notb(cond), r, g
    if r is c and g.op == "where" and g.args[2] is c:
        cond, g = X.andb(cond, g.args[0]), g.args[1]
    if r is not c or mentions(cond, nm):
        return None
    for q in conj(cond):
        if q.op in ("eqi", "eq") and v in q.args:
            b = q.args[0] if q.args[1] is v else q.args[1]
            if b is v or b not in gs:
                continue
            mp = {v: b}
            g2 = X.subst(g, mp)
            g2 = X.subst(g2, {c: init}, capture=True) if mentions(g2, nm) else g2
            if mentions(g2, nm):
                return None
            return X.where(X.subst(X.andb(cond, guard), mp), g2, init)
    return None


def last(e, v, dim, guard):
    if v not in X.freevars(e):
        return e
    if guard is not X.TRUE:
        return None
    return X.subst(e, {v: X.add(X.dimsize(dim), X.num(-1))})


def run_for(m, s, fr, seq):
    if s.orelse or has(s.body, (ast.Return, ast.Break, ast.While, ast.Try, ast.With, ast.Yield, ast.Global, ast.Nonlocal)):
        raise Unsupported("control flow in a loop of symbolic extent")
    body = no_continue(s.body)
    if has(body, ast.Continue) and not has(body, ast.For):
        raise Unsupported("continue in a loop of symbolic extent")
    v, dim, guard = seq.v, seq.dim, seq.guard
    bound, changed = written(body)
    carried, lists, names = [], [], {}
    if "self" in bound:
        raise Unsupported("loop")

    def lookup(n):
        f = fr
        while f is not None:
            if n in f.locals:
                return f.locals[n]
            f = f.parent
        return m.load_name(n, fr)
    for n in sorted(bound | changed):
        try:
            old = lookup(n)
        except Exception:
            continue
        if n in changed:
            if isinstance(old, T):
                if old.view is not None:
                    raise Unsupported("carried view")
                if any(c.obj is old for c in carried):
                    continue
                f, nm = place(m, old)
                c = Carry()
                c.name, c.kind, c.old, c.init, c.leaf, c.obj = n, "in", old, old._arr, nm, old
                carried.append((c, f))
                continue
            if isinstance(old, L):
                if old.items:
                    raise Unsupported("carried list")
                lists.append((n, old))
                continue
            if n not in bound:
                raise Unsupported(f"object {n} changed in a loop of symbolic extent")
        if isinstance(old, T) or (isinstance(old, (int, float, Sc)) and not isinstance(old, bool)):
            f, nm = place(m, old)
            c = Carry()
            c.name, c.kind, c.old, c.leaf, c.obj = n, "re", old, nm, None
            c.init = old.arr if isinstance(old, T) else m.lib.sce(old)
            carried.append((c, f))
        elif not isinstance(old, (L,)):
            names[n] = old
    # place holders
    for c, f in carried:
        if c.kind == "in":
            c.obj._arr = Arr(c.init.shape, f, m.loc)
        elif isinstance(c.old, T):
            m.store_name(c.name, T(Arr(c.init.shape, f, m.loc), c.old.dtype, c.old.device, m.tlib.region()), fr)
        else:
            kind = c.old.kind if isinstance(c.old, Sc) else "float" if isinstance(c.old, float) else "int"
            m.store_name(c.name, Sc(X.leaf(c.leaf), kind), fr)
    allnm = tuple(c.leaf for c, _ in carried)
    m.loopvars.append((v, allnm))
    nu = len(m.unsupported)
    mut0 = len(m.loopmut)
    m.loopmut.append([])
    try:
        m.assign(s.target, seq.item, fr)
        for st in body:
            m.exec(st, fr)
        if len(m.unsupported) != nu:
            raise Unsupported("loop body: " + str(m.unsupported[-1][0]))
        ok = {id(c.obj) for c, _ in carried if c.obj is not None} | {id(l) for _, l in lists}
        new_ids = set()
        for o in m.loopmut[-1]:
            base = o
            while isinstance(base, T) and base.view is not None:
                base = base.view[0]
            if id(base) in ok or isinstance(base, T) and base.region.id > seq.region0:
                continue
            if not isinstance(base, T) and any(base is x for n2, x in fr.locals.items() if n2 in bound):
                continue
            raise Unsupported("object changed in a loop of symbolic extent")
    except BaseException:
        for c, _ in carried:
            if c.kind == "in":
                c.obj._arr = c.init
        raise
    finally:
        m.loopvars.pop()
        m.loopmut.pop()
    results = []
    try:
        for c, f in carried:
            others = tuple(x for x in allnm if x != c.leaf)
            if c.kind == "in":
                post, p = c.obj, c.obj._arr
            else:
                post = lookup(c.name)
                p = post.arr if isinstance(post, T) else None
            if isinstance(post, T):
                gs = tuple(X.var(d, "g") for d in p.shape)
                e = p.at(gs)
            elif isinstance(post, (int, float, Sc)) and not isinstance(post, bool):
                gs, e = (), m.lib.sce(post)
            else:
                results.append((c, post, Unknown("loop")))
                continue
            if isinstance(c.old, T):
                if p is None or len(p.shape) != len(c.init.shape) or tuple(p.shape) != tuple(c.init.shape):
                    # a broadcast increment: the carried value is read at fewer axes
                    raise Unsupported("carried value changes its shape")
                cn, init = X.leaf(c.leaf, *gs), c.init.at(gs)
            else:
                cn, init = X.leaf(c.leaf), c.init
            if mentions(e, others):
                raise Unsupported("coupled loop values")
            r = None
            if mentions(e, c.leaf):
                e = align(e, cn, c.leaf)
            if not mentions(e, c.leaf):
                r = last(e, v, dim, guard)
            if r is None:
                r = overwrite(e, cn, c.leaf, v, guard, gs, init)
            if r is None:
                d = delta(e, cn, c.leaf)
                if d is not None:
                    r = X.add(init, X.reduce_("sum", v, X.where(guard, d, X.num(0))))
            if r is None and e.op == "mul" and cn in e.args and not any(mentions(a, c.leaf) for a in e.args if a is not cn):
                rest = X.mul(*[a for a in e.args if a is not cn])
                r = X.mul(init, X.reduce_("prod", v, X.where(guard, rest, X.num(1))))
            if r is None or v in X.freevars(r):
                raise Unsupported("loop-carried value " + X.show(e, 5)[:300])
            results.append((c, post, (gs, r)))
    except BaseException:
        for c, _ in carried:
            if c.kind == "in":
                c.obj._arr = c.init
        raise
    for c, post, r in results:
        if isinstance(r, Unknown):
            m.store_name(c.name, r, fr)
            continue
        gs, e = r
        if isinstance(post, T):
            a = Arr(post.shape, (lambda gs, e: lambda i: X.subst(e, dict(zip(gs, i))))(gs, e), m.loc,
                    post.arr.dt)
            if c.kind == "in":
                c.obj._arr = a
            else:
                m.store_name(c.name, T(a, post.dtype, post.device, m.tlib.region()), fr)
        else:
            m.store_name(c.name, Sc(e, post.kind if isinstance(post, Sc) else "float" if isinstance(post, float) else "int"), fr)
    for n, l in lists:
        if len(l.items) == 1:
            q = SymSeq(v, dim, l.items[0], guard)
            for n2, x in list(fr.locals.items()):
                if x is l:
                    fr.locals[n2] = q
            l.items[:] = [Unknown("list filled in a loop")]
        elif l.items:
            raise Unsupported("list filled in a loop")
    # names first bound in the loop, and the target
    done = {c.name for c, _ in carried} | {n for n, _ in lists}
    tn = {n.id for n in ast.walk(s.target) if isinstance(n, ast.Name)}
    for n in (bound | tn) - done:
        if n in fr.locals:
            x = fr.locals[n]
            try:
                if guard is not X.TRUE:
                    raise Unsupported("")
                y = inst(x, v, X.add(X.dimsize(dim), X.num(-1)))
            except Unsupported:
                y = x if isinstance(x, (int, float, str)) or x is None else Unknown("value of the last pass")
            fr.locals[n] = y


def run_if(m, s, fr, cond):
    """if-conversion of a branch which depends on the pass"""
    if has(s.body + s.orelse, (ast.Return, ast.Break, ast.Continue, ast.While, ast.Try, ast.With, ast.Raise)):
        raise Unsupported("loop-dependent branch")
    bound, changed = written(s.body + s.orelse)

    def lookup(n):
        f = fr
        while f is not None:
            if n in f.locals:
                return f.locals[n]
            f = f.parent
        return None
    inpl = {}
    for n in changed:
        x = lookup(n)
        if isinstance(x, T):
            if x.view is not None:
                raise Unsupported("loop-dependent branch")
            inpl[id(x)] = x
        elif n not in bound:
            raise Unsupported("loop-dependent branch")
    pre = {n: fr.locals[n] for n in bound if n in fr.locals}
    prea = {k: x._arr for k, x in inpl.items()}

    def restore():
        for n in bound:
            if n in pre:
                fr.locals[n] = pre[n]
            else:
                fr.locals.pop(n, None)
        for k, x in inpl.items():
            x._arr = prea[k]
    nu = len(m.unsupported)
    outs = []
    try:
        for blk in (s.body, s.orelse):
            restore()
            for st in blk:
                m.exec(st, fr)
            outs.append(({n: fr.locals.get(n) for n in bound}, {k: x._arr for k, x in inpl.items()}))
    except BaseException:
        restore()
        raise
    restore()
    if len(m.unsupported) != nu:
        raise Unsupported("loop-dependent branch: " + str(m.unsupported[-1][0]))

    def merge(a, b):
        if a is b:
            return a
        if isinstance(a, (T,)) and isinstance(b, T) and a.shape == b.shape and a.dtype == b.dtype and a.device == b.device:
            p, q = a.arr, b.arr
            return T(Arr(p.shape, lambda i: X.where(cond, p.at(i), q.at(i)), m.loc, p.dt), a.dtype, a.device, m.tlib.region())
        num = (int, float, Sc)
        if isinstance(a, num) and isinstance(b, num):
            return Sc(X.where(cond, m.lib.sce(a), m.lib.sce(b)), "float" if "float" in (type(a).__name__, type(b).__name__, getattr(a, "kind", ""), getattr(b, "kind", "")) else "int")
        if isinstance(a, T) and isinstance(b, num) or isinstance(b, T) and isinstance(a, num):
            t, x = (a, b) if isinstance(a, T) else (b, a)
            p, e = t.arr, m.lib.sce(x)
            first = isinstance(a, T)
            return T(Arr(p.shape, lambda i: X.where(cond, p.at(i) if first else e, e if first else p.at(i)), m.loc, p.dt), t.dtype, t.device, m.tlib.region())
        return Unknown("loop-dependent branch")
    for n in bound:
        fr.locals[n] = merge(outs[0][0][n], outs[1][0][n])
    for k, x in inpl.items():
        p, q = outs[0][1][k], outs[1][1][k]
        if p is not q:
            x._arr = (lambda p, q: Arr(p.shape, lambda i: X.where(cond, p.at(i), q.at(i)), m.loc, p.dt))(p, q)


def havoc(m, s, fr):
    """forget everything a statement outside the lowered subset may have changed"""
    bound, changed = written([s])
    for n in bound:
        m.store_name(n, Unknown("unsupported statement"), fr)
    for node in ast.walk(s):
        if isinstance(node, ast.Attribute) and isinstance(node.ctx, ast.Store) and isinstance(node.value, ast.Name):
            try:
                o = m.load_name(node.value.id, fr)
                m.setattr(o, node.attr, Unknown("unsupported statement"))
            except Exception:
                pass
    for n in changed - bound:
        try:
            x = m.load_name(n, fr)
        except Exception:
            continue
        if isinstance(x, T):
            try:
                m.touch(x, "unsupported statement")
                x.set_arr(m.tlib.opaque("unsupported statement", [x], x.shape, x.dtype, x.device).arr)
            except Exception:
                m.store_name(n, Unknown("unsupported statement"), fr)
        elif isinstance(x, (L,)) or type(x).__name__ in ("D", "S", "It"):
            if n in fr.locals:
                fr.locals[n] = Unknown("unsupported statement")
            if isinstance(x, L):
                x.items[:] = [Unknown("unsupported statement")]
