"""Element-level value graph (hash-consed scalar DAG).

A tensor of the analysed program is represented as a function from index terms
to nodes of this graph (see values.T).  Nodes are immutable and interned, so
structural equality is identity (local value numbering).  Nothing in here
evaluates tensors; numbers only occur as literals of the analysed source.
"""
from __future__ import annotations

from fractions import Fraction

_tab: dict = {}
_cnt = [0]
LOC: dict = {}          # node id -> source location of first creation
CURLOC = [None]         # set by the interpreter
CURDT = [None]          # element type of the tensor being lowered
WIDE: set = set()       # ids of nodes that (also) occur as double-precision values


class E:
    __slots__ = ("op", "args", "id", "_fv", "__weakref__")

    def __init__(self, op, args):
        self.op = op
        self.args = args
        _cnt[0] += 1
        self.id = _cnt[0]
        self._fv = None

    def __repr__(self):
        return show(self, 6)

    def __lt__(self, other):
        return self.id < other.id


def _k(a):
    return a if not isinstance(a, E) else ("#", a.id)


def mk(op, *args) -> E:
    key = (op,) + tuple(_k(a) if not isinstance(a, Fraction) else ("Q", a.numerator, a.denominator) for a in args)
    e = _tab.get(key)
    if e is None:
        e = E(op, args)
        _tab[key] = e
        if CURLOC[0] is not None:
            LOC[e.id] = CURLOC[0]
    if CURDT[0] == "f64":
        WIDE.add(e.id)
    return e


# ---------------------------------------------------------------- constants
def to_frac(x):
    if isinstance(x, Fraction):
        return x
    if isinstance(x, bool):
        return Fraction(int(x))
    if isinstance(x, int):
        return Fraction(x)
    if x != x or x in (float("inf"), float("-inf")):
        return x
    f = Fraction(repr(x))
    if f.denominator == 1:
        return f
    # values such as 4.0/3.0: recover the short rational
    g = f.limit_denominator(10**6)
    if g.denominator <= 10**4 and float(g) == x:
        return g
    return f


def num(x) -> E:
    f = to_frac(x)
    if not isinstance(f, Fraction):
        return mk("nonfinite", repr(f))
    return mk("num", f)


ZERO = num(0)
ONE = num(1)
TRUE = mk("bool", True)
FALSE = mk("bool", False)


def boolc(b):
    return TRUE if b else FALSE


def isnum(e, v=None):
    if e.op == "num":
        return v is None or e.args[0] == v
    return False


def numval(e):
    if e.op == "num":
        return e.args[0]
    if e.op == "bool":
        return Fraction(int(e.args[0]))
    return None


# ------------------------------------------------------------------ indices
_var = [0]


def var(dim, hint="v") -> E:
    """Fresh index variable ranging over dimension ``dim``."""
    _var[0] += 1
    return mk("var", f"{hint}{_var[0]}", dim)


def namedvar(name, dim) -> E:
    return mk("var", name, dim)


def idxc(n) -> E:
    return mk("num", Fraction(n))


# ------------------------------------------------------------- constructors
def leaf(name, *idx) -> E:
    if name.endswith("~s"):        # symmetric in its last two indices
        return leaf_norm([name, *idx])
    return mk("leaf", name, *idx)


def call(*args) -> E:
    """trusted call; the pair coefficients of a model are symmetric (decided by C07)"""
    if args[0] == "c6":
        *pre, i, j = args
        if i.id > j.id:
            i, j = j, i
        args = (*pre, i, j)
    return mk("call", *args)


TABLES: dict = {}       # table name -> nested literal values, or callable(idx) -> value | None
_uniform: dict = {}


def _const_sub(x):
    """the single value of a nested literal, or None"""
    if not isinstance(x, (list, tuple)):
        return x
    k = id(x)
    r = _uniform.get(k)
    if r is None:
        vals = {_const_sub(y) for y in x}
        r = (next(iter(vals)) if len(vals) == 1 else None, x)
        _uniform[k] = r
    return r[0]


def tab(name, *idx) -> E:
    t = TABLES.get(name)
    if t is not None and idx:
        if callable(t):
            v = t(idx)
            if v is not None:
                return num(v)
        elif idx[0].op == "num":
            for k, i in enumerate(idx):
                if i.op != "num":
                    break
                n = int(i.args[0])
                if not isinstance(t, (list, tuple)) or n >= len(t):
                    t = None
                    break
                t = t[n]
            if t is not None:
                v = _const_sub(t)
                if v is not None:
                    return num(v)
    return mk("tab", name, *idx)


def add(*xs) -> E:
    flat, c = [], Fraction(0)
    for x in xs:
        if x.op == "add":
            flat.extend(x.args)
        else:
            flat.append(x)
    rest = []
    for x in flat:
        v = numval(x)
        if v is not None:
            c += v
        else:
            rest.append(x)
    if c != 0:
        rest.append(num(c))
    if not rest:
        return ZERO
    if len(rest) == 1:
        return rest[0]
    return mk("add", *sorted(rest, key=lambda e: e.id))


def mul(*xs) -> E:
    flat, c = [], Fraction(1)
    for x in xs:
        if x.op == "mul":
            flat.extend(x.args)
        else:
            flat.append(x)
    rest = []
    for x in flat:
        v = numval(x)
        if v is not None:
            c *= v
        else:
            rest.append(x)
    # NOTE: 0*x is only folded when x has no potentially singular operation;
    # the finiteness analysis looks at the unfolded graph.
    if c == 0 and not any(_may_singular(r) for r in rest):
        return ZERO
    if c != 1:
        rest.append(num(c))
    if not rest:
        return ONE
    if len(rest) == 1:
        return rest[0]
    return mk("mul", *sorted(rest, key=lambda e: e.id))


_sing_memo: dict = {}


def _may_singular(e):
    if not isinstance(e, E):
        return False
    r = _sing_memo.get(e.id)
    if r is None:
        if e.op in ("div", "log", "nonfinite"):
            r = True
        elif e.op == "pow":
            ex = numval(e.args[1])
            r = ex is None or ex < 0 or _may_singular(e.args[0])
        else:
            r = any(_may_singular(a) for a in e.args)
        _sing_memo[e.id] = r
    return r


def neg(x):
    return mul(num(-1), x)


def sub(a, b):
    return add(a, neg(b))


def div(a, b):
    va, vb = numval(a), numval(b)
    if vb is not None and vb != 0:
        return mul(a, num(1 / vb))
    if isnum(a, 0) and vb is None and not _may_singular(b) and b.op != "num":
        pass
    return mk("div", a, b)


def sdiv(a, b):
    """Division whose zero denominators are replaced (safe division)."""
    vb = numval(b)
    if vb is not None and vb != 0:
        return mul(a, num(1 / vb))
    return mk("sdiv", a, b)


def power(a, b):
    va, vb = numval(a), numval(b)
    if vb is not None:
        if vb == 1:
            return a
        if vb == 0:
            return ONE
        if va is not None and vb.denominator == 1 and (va != 0 or vb > 0) and abs(vb) <= 64:
            return num(va ** int(vb))
        if va == 1:
            return ONE
    return mk("pow", a, b)


def sqrt(a):
    v = numval(a)
    if v is not None and v >= 0:
        from math import isqrt
        n, d = v.numerator, v.denominator
        if isqrt(n) ** 2 == n and isqrt(d) ** 2 == d:
            return num(Fraction(isqrt(n), isqrt(d)))
    return mk("pow", a, num(Fraction(1, 2)))


def ssqrt(a):
    v = numval(a)
    if v is not None and v > 0:
        return sqrt(a)
    return mk("ssqrt", a)


def exp(a):
    if isnum(a, 0):
        return ONE
    return mk("exp", a)


def fn(name, *args):
    if name == "abs":
        v = numval(args[0])
        if v is not None:
            return num(abs(v))
    return mk("fn", name, *args)


# booleans ------------------------------------------------------------------
def notb(a):
    if a.op == "bool":
        return boolc(not a.args[0])
    if a.op == "not":
        return a.args[0]
    return mk("not", a)


def andb(*xs):
    s = []
    for x in xs:
        x = tobool(x)
        if x.op == "and":
            s.extend(x.args)
        else:
            s.append(x)
    out = {}
    for x in s:
        if x is FALSE:
            return FALSE
        if x is TRUE:
            continue
        out[x.id] = x
    if not out:
        return TRUE
    l = sorted(out.values(), key=lambda e: e.id)
    return l[0] if len(l) == 1 else mk("and", *l)


def orb(*xs):
    return notb(andb(*[notb(tobool(x)) for x in xs]))


def tobool(x):
    if x.op in ("bool", "not", "and", "eq", "lt", "eqi", "isnan", "isinf", "bfn", "any", "all"):
        return x
    if x.op == "num":
        return boolc(x.args[0] != 0)
    if x.op in ("where", "phi"):
        return mk(x.op, x.args[0], tobool(x.args[1]), tobool(x.args[2]))
    if x.op == "leaf" and str(x.args[0]).startswith("?"):
        return x
    if isboolish(x):
        return x
    return notb(eq(x, ZERO))


def isboolish(x):
    if x.op in ("bool", "not", "and", "eq", "lt", "eqi", "isnan", "isinf", "bfn", "any", "all"):
        return True
    if x.op == "mul":
        return all(isboolish(a) for a in x.args)
    return False


def eq(a, b):
    if a is b:
        return TRUE
    va, vb = numval(a), numval(b)
    if va is not None and vb is not None:
        return boolc(va == vb)
    if a.op == "var" and b.op == "var":
        return eqi(a, b)
    if a.id > b.id:
        a, b = b, a
    return mk("eq", a, b)


def lt(a, b):
    va, vb = numval(a), numval(b)
    if va is not None and vb is not None:
        return boolc(va < vb)
    if a is b:
        return FALSE
    return mk("lt", a, b)


def le(a, b):
    va, vb = numval(a), numval(b)
    if va is not None and vb is not None:
        return boolc(va <= vb)
    return notb(lt(b, a))


def eqi(i, j):
    if i is j:
        return TRUE
    if i.op == "num" and j.op == "num":
        return FALSE
    if i.id > j.id:
        i, j = j, i
    return mk("eqi", i, j)


def where(c, a, b):
    c = tobool(c)
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    # one form for the larger / smaller of two values, however it is written
    t = c.args[0] if c.op == "not" else c
    if t.op == "lt" and (t.args == (a, b) or t.args == (b, a)):
        p, q = t.args
        big = (a is q) != (c.op == "not")
        if p.id > q.id and p.op != "num" or q.op == "num":
            p, q = q, p
        return mk("where", mk("lt", p, q), q, p) if big else mk("where", mk("lt", p, q), p, q)
    return mk("where", c, a, b)


def phi(c, a, b):
    c = tobool(c)
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    return mk("phi", c, a, b)


# reductions ----------------------------------------------------------------
def reduce_(kind, v, body):
    """kind in sum/prod/max/min/any/all over bound index variable v."""
    return mk("red", kind, v, body)


def dimsize(dim):
    return num(dim) if isinstance(dim, int) else mk("dim", dim)


# ---------------------------------------------------------------- traversal
def children(e):
    for a in e.args:
        if isinstance(a, E):
            yield a


def freevars(e) -> frozenset:
    if e._fv is None:
        if e.op == "var":
            e._fv = frozenset([e])
        else:
            s = frozenset()
            for a in children(e):
                s |= freevars(a)
            if e.op == "red":
                s -= {e.args[1]}
            elif e.op == "lam":
                s -= set(e.args[0])
            e._fv = s
    return e._fv


_builders = {}


def rebuild(e, args):
    op = e.op
    if op == "add":
        return add(*args)
    if op == "mul":
        return mul(*args)
    if op == "div":
        return div(*args)
    if op == "sdiv":
        return sdiv(*args)
    if op == "pow":
        return power(*args)
    if op == "ssqrt":
        return ssqrt(*args)
    if op == "exp":
        return exp(*args)
    if op == "fn":
        return fn(*args)
    if op == "not":
        return notb(*args)
    if op == "and":
        return andb(*args)
    if op == "eq":
        return eq(*args)
    if op == "lt":
        return lt(*args)
    if op == "eqi":
        return eqi(*args)
    if op == "where":
        return where(*args)
    if op == "phi":
        return phi(*args)
    if op == "leaf":
        return leaf_norm(args)
    if op == "lam":
        return lam(*args)
    if op == "tab":
        return tab(*args)
    if op == "call":
        return call(*args)
    return mk(op, *args)


def leaf_norm(args):
    # symmetric leaf (distances): order the two atom indices
    if args[0] == "dist" or args[0].endswith("~s"):
        *pre, i, j = args[1:]
        if i.id > j.id:
            i, j = j, i
        return mk("leaf", args[0], *pre, i, j)
    return mk("leaf", *args)


def subst(e, m, memo=None, capture=False):
    """Capture-avoiding simultaneous substitution {node: node}.

    Keys may be index variables or arbitrary nodes (leaves).  With ``capture`` nodes below a
    binder are replaced where they stand, bound index included."""
    if memo is None:
        memo = {}
    keyids = {k.id for k in m}
    onlyvars = all(k.op == "var" for k in m)
    keys = frozenset(m)
    rng = frozenset()
    if not capture:
        for v in m.values():
            rng |= freevars(v)

    def go(x):
        r = memo.get(x.id)
        if r is not None:
            return r
        if x.id in keyids:
            r = m[x] if x in m else None
            if r is None:
                for k, v in m.items():
                    if k.id == x.id:
                        r = v
        elif not x.args or (onlyvars and not (freevars(x) & keys)):
            r = x
        elif x.op == "red":
            kind, v, body = x.args
            if v in keys or v in rng:
                nv = var(v.args[1], "s")
                body = subst(body, {v: nv})
                v = nv
            r = reduce_(kind, v, go(body))
        elif x.op == "lam":
            vs, body = x.args
            if any(v in keys or v in rng for v in vs):
                nvs = tuple(var(v.args[1], "l") for v in vs)
                body = subst(body, dict(zip(vs, nvs)))
                vs = nvs
            r = mk("lam", vs, go(body))
        else:
            r = rebuild(x, [go(a) if isinstance(a, E) else a for a in x.args])
        memo[x.id] = r
        return r

    import sys
    if sys.getrecursionlimit() < 20000:
        sys.setrecursionlimit(20000)
    return go(e)


def lam(vs, body):
    return mk("lam", tuple(vs), body)


def walk(*roots):
    seen = set()
    st = list(roots)
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        yield x
        st.extend(children(x))
        if x.op == "lam":
            pass


def leaves(*roots):
    return {x.args[0] for x in walk(*roots) if x.op == "leaf"}


def show(e, depth=8):
    if not isinstance(e, E):
        return str(e)
    op, a = e.op, e.args
    if op == "num":
        f = a[0]
        return str(f) if f.denominator < 1000 else "%.8g" % float(f)
    if op == "bool":
        return str(a[0])
    if op == "var":
        return a[0]
    if op == "dim":
        return f"|{a[0]}|"
    if op in ("leaf", "tab"):
        if len(a) == 1:
            return str(a[0])
        return f"{a[0]}[{','.join(show(x, depth - 1) for x in a[1:])}]"
    if depth <= 0:
        return "…"
    s = lambda x: show(x, depth - 1)
    if op == "add":
        return "(" + " + ".join(map(s, a)) + ")"
    if op == "mul":
        return "(" + "*".join(map(s, a)) + ")"
    if op == "div":
        return f"({s(a[0])} / {s(a[1])})"
    if op == "pow":
        return f"{s(a[0])}**{s(a[1])}"
    if op == "eq":
        return f"({s(a[0])} == {s(a[1])})"
    if op == "eqi":
        return f"({s(a[0])} is {s(a[1])})"
    if op == "lt":
        return f"({s(a[0])} < {s(a[1])})"
    if op == "not":
        return f"not {s(a[0])}"
    if op == "and":
        return "(" + " & ".join(map(s, a)) + ")"
    if op in ("where", "phi"):
        return f"{op}({s(a[0])}, {s(a[1])}, {s(a[2])})"
    if op == "red":
        return f"{a[0]}_{a[1].args[0]}({s(a[2])})"
    if op in ("fn", "bfn"):
        return f"{a[0]}({', '.join(s(x) for x in a[1:])})"
    if op == "lam":
        return "λ" + ",".join(v.args[0] for v in a[0]) + "." + s(a[1])
    return f"{op}({', '.join(s(x) if isinstance(x, E) else str(x) for x in a)})"
