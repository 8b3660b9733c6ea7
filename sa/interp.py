"""Lowering of the repository's Python source to value graphs.

An abstract interpreter over the syntax tree: functions are inlined, Python
constants are propagated, tensors stay symbolic (see values.T).  Branches that
depend on symbolic data fork the path (Machine.decide); every path is lowered.
The repository is never imported or executed.
"""
from __future__ import annotations

import ast
import builtins as _bi
import os
import sys

from . import expr as X
from .expr import E
from .values import *
from . import loops

sys.setrecursionlimit(40000)

REPO = os.environ.get("SA_REPO", "/repo")
SRC = os.path.join(REPO, "src")
PKG = "tad_dftd4"

_parse_cache: dict = {}


def parse_file(path):
    r = _parse_cache.get(path)
    if r is None:
        with open(path, encoding="utf-8") as f:
            r = ast.parse(f.read(), path)
        _parse_cache[path] = r
    return r


def rel(path):
    return os.path.relpath(path, REPO)


class PathLimit(Exception):
    pass


class _Return(Exception):
    def __init__(self, v):
        self.v = v


class _Break(Exception):
    pass


class _Continue(Exception):
    pass


class Frame:
    __slots__ = ("locals", "module", "parent", "func", "globals_", "nonlocals", "cls", "yields", "self_")

    def __init__(self, module, parent=None, func=None, cls=None):
        self.locals = {}
        self.module = module
        self.parent = parent
        self.func = func
        self.globals_ = set()
        self.nonlocals = set()
        self.cls = cls
        self.yields = None
        self.self_ = None


MISSING = object()


def snapshot(o, attr=None):
    """contents of an object before it is changed"""
    if isinstance(o, T):
        return o.arr
    if isinstance(o, D):
        return (dict(o.items), [list(e) for e in o.symkeys])
    if isinstance(o, L):
        return list(o.items)
    if attr is not None and isinstance(o, Obj):
        return o.attrs.get(attr, MISSING)
    if attr is not None and isinstance(o, Cls):
        return o.dict.get(attr, MISSING)
    return MISSING


class Machine:
    def __init__(self, default_dtype="f32", default_device="cpu", decisions=()):
        self.modules = {}
        self.default_dtype = default_dtype
        self.default_device = default_device
        self.prefix = list(decisions)
        self.trace = []            # (E cond, bool, loc)
        self.epoch = 0
        self.events = []
        self.unsupported = []
        self.attr_reads = set()
        self.attr_writes = []
        self.functions = set()     # qualified names lowered
        self.calls = 0
        self.depth = 0
        self.loc = None
        self.nograd = 0
        self.loopvars = []         # index variables of loops of symbolic extent being interpreted
        self.loopmut = []          # objects changed in them
        self.ops = 0
        self.opaque_methods = {}   # qualified name -> handler(machine, args, kw)
        self.stack = []
        self.rng = 0
        self.leafshape = {}        # argument leaf -> symbolic shape
        from . import extlib
        self.lib = extlib.Lib(self)
        self.tlib = self.lib.t

    # ------------------------------------------------------------ paths
    def decide(self, cond: E, loc=None) -> bool:
        from . import canon as C
        cond = X.tobool(cond)
        if cond is X.TRUE:
            return True
        if cond is X.FALSE:
            return False
        if self.loopvars and self.loopdep(cond):
            raise Unsupported("condition depends on the pass of a loop of symbolic extent")
        try:
            t = C.canon_b(cond)
            if C.isleaf(t):
                v = C.pvalue(C.leafpoly(t))
                if v is not None:
                    return v != 0
        except Exception:
            pass
        neg = cond.op == "not"
        base = cond.args[0] if neg else cond
        for c, v, _ in self.trace:
            if c is base:
                return v != neg
        k = len(self.trace)
        if k < len(self.prefix):
            v = self.prefix[k]
        else:
            v = True
        if k > 24:
            raise PathLimit()
        self.trace.append((base, v, loc or self.loc))
        return v != neg

    def event(self, kind, **kw):
        kw["kind"] = kind
        kw["loc"] = self.loc
        kw["stack"] = tuple(self.stack[-6:])
        kw["epoch"] = self.epoch
        self.events.append(kw)

    def unsup(self, why):
        if os.environ.get("SA_DEBUG"): print("UNSUP", why, self.loc)
        self.unsupported.append((why, self.loc))

    # ---------------------------------------------------------- modules
    def find_module(self, name):
        p = os.path.join(SRC, *name.split("."))
        if os.path.isfile(os.path.join(p, "__init__.py")):
            return os.path.join(p, "__init__.py"), True
        if os.path.isfile(p + ".py"):
            return p + ".py", False
        return None, False

    def import_module(self, name):
        if name.split(".")[0] != PKG:
            return self.lib.module(name)
        m = self.modules.get(name)
        if m is not None:
            return m
        if "." in name:
            parent = self.import_module(name.rsplit(".", 1)[0])
        path, is_pkg = self.find_module(name)
        m = self.modules.get(name)
        if m is not None:
            return m
        if path is None:
            raise AbsRaise("ModuleNotFoundError", name, self.loc)
        m = Module(name, path)
        m.is_pkg = is_pkg
        m.dict["__name__"] = name
        m.dict["__file__"] = Opaque("path", parts=(path,))
        self.modules[name] = m
        m.tree = parse_file(path)
        ep, loc, st, ng = self.epoch, self.loc, self.stack, self.nograd
        self.epoch, self.stack, self.nograd = 0, [], 0
        fr = Frame(m)
        fr.locals = m.dict
        try:
            self.exec_block(m.tree.body, fr)
        finally:
            self.epoch, self.loc, self.stack, self.nograd = ep, loc, st, ng
        if "." in name:
            parent.dict[name.rsplit(".", 1)[1]] = m
        return m

    def resolve_relative(self, module, level, name):
        if level == 0:
            return name
        base = module.name if module.is_pkg else module.name.rsplit(".", 1)[0]
        for _ in range(level - 1):
            base = base.rsplit(".", 1)[0]
        return base + ("." + name if name else "")

    # -------------------------------------------------------- statements
    def exec_block(self, stmts, fr):
        for s in stmts:
            self.exec(s, fr)

    def setloc(self, node, fr):
        ln = getattr(node, "lineno", None)
        if ln is not None:
            self.loc = (fr.module.path, ln, self.stack[-1] if self.stack else fr.module.name)
            X.CURLOC[0] = self.loc

    def exec(self, s, fr):
        self.setloc(s, fr)
        m = getattr(self, "x_" + type(s).__name__, None)
        if m is None:
            self.unsup(f"statement {type(s).__name__}")
            return
        try:
            m(s, fr)
        except Unsupported as u:
            self.unsup(str(u))
            loops.havoc(self, s, fr)
            if isinstance(s, (ast.Return, ast.For, ast.While, ast.With, ast.Try, ast.If)) and \
                    any(isinstance(n, ast.Return) for n in ast.walk(s)):
                raise _Return(Unknown(str(u)))

    def x_Expr(self, s, fr):
        if isinstance(s.value, ast.Constant):
            return
        if isinstance(s.value, (ast.Yield, ast.YieldFrom)):
            self.ev(s.value, fr)
            return
        v = self.ev(s.value, fr)
        if isinstance(v, Opaque) and v.kind in ("nograd", "enablegrad") and v.data.get("glob"):
            # not used as a context: the setting outlives the call
            self.event("global-write", name="set_grad_enabled", module="torch")
            self.nograd = int(v.kind == "nograd")

    def x_Pass(self, s, fr):
        pass

    def x_Assign(self, s, fr):
        v = self.ev(s.value, fr)
        for t in s.targets:
            self.assign(t, v, fr)

    def x_AnnAssign(self, s, fr):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, fr), fr)
        elif fr.cls is not None and isinstance(s.target, ast.Name):
            fr.locals.setdefault("__annotations__", []).append(s.target.id)

    def x_AugAssign(self, s, fr):
        t = s.target
        if isinstance(t, ast.Name):
            old = self.load_name(t.id, fr)
            new = self.inplace_binop(s.op, old, self.ev(s.value, fr))
            self.store_name(t.id, new, fr)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, fr)
            new = self.inplace_binop(s.op, self.getattr(o, t.attr), self.ev(s.value, fr))
            self.setattr(o, t.attr, new)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, fr)
            k = self.ev_index(t.slice, fr)
            old = self.getitem(o, k)
            new = self.inplace_binop(s.op, old, self.ev(s.value, fr))
            self.setitem(o, k, new)
        else:
            raise Unsupported("augmented target")

    def x_Return(self, s, fr):
        raise _Return(self.ev(s.value, fr) if s.value is not None else None)

    def x_If(self, s, fr):
        try:
            t = self.ev(s.test, fr)
        except Unsupported as u:
            self.unsup(str(u))
            t = Unknown(str(u))
        c = self.truth_sym(t)
        if self.loopvars and not isinstance(c, bool) and self.loopdep(c):
            loops.run_if(self, s, fr, c)
        elif c if isinstance(c, bool) else self.decide(c):
            self.exec_block(s.body, fr)
        else:
            self.exec_block(s.orelse, fr)

    def loopdep(self, c):
        fv = X.freevars(c)
        return any(v in fv for v, _ in self.loopvars) or any(nms and loops.mentions(c, nms) for _, nms in self.loopvars)

    def x_For(self, s, fr):
        it = self.ev(s.iter, fr)
        q = loops.symseq(self, it)
        if q is not None:
            loops.run_for(self, s, fr, q)
            return
        items = self.iterate(it)
        broke = False
        for v in items:
            self.assign(s.target, v, fr)
            try:
                self.exec_block(s.body, fr)
            except _Break:
                broke = True
                break
            except _Continue:
                continue
        if not broke:
            self.exec_block(s.orelse, fr)

    def x_While(self, s, fr):
        n = 0
        while self.truth(self.ev(s.test, fr)):
            n += 1
            if n > 200:
                raise Unsupported("while loop bound")
            try:
                self.exec_block(s.body, fr)
            except _Break:
                return
            except _Continue:
                continue
        self.exec_block(s.orelse, fr)

    def x_Break(self, s, fr):
        raise _Break()

    def x_Continue(self, s, fr):
        raise _Continue()

    def x_Raise(self, s, fr):
        if s.exc is None:
            cur = getattr(self, "_cur_exc", None)
            if cur is not None:
                raise cur
            raise AbsRaise("RuntimeError", "", self.loc)
        v = self.ev(s.exc, fr)
        self.setloc(s, fr)
        x = self.to_raise(v)
        x.explicit = True
        raise x

    def to_raise(self, v):
        if isinstance(v, Opaque) and v.kind == "exc":
            return AbsRaise(v.data["etype"], v.data.get("msg", ""), self.loc, v)
        if isinstance(v, Ext) and v.name.startswith("builtins."):
            return AbsRaise(v.name.split(".", 1)[1], "", self.loc)
        if isinstance(v, Obj):
            return AbsRaise(self.exc_name(v.cls), "", self.loc, v)
        if isinstance(v, Cls):
            return AbsRaise(self.exc_name(v), "", self.loc)
        if isinstance(v, Ext):
            return AbsRaise(v.name.rsplit(".", 1)[-1], "", self.loc)
        return AbsRaise("?", "", self.loc)

    def exc_name(self, cls):
        for c in cls.mro:
            for e in c.ext_bases:
                if e.startswith("builtins."):
                    return e.split(".", 1)[1]
        return cls.name

    def exc_match(self, etype, handler):
        if handler is None:
            return True
        if isinstance(handler, (tuple, L)):
            return any(self.exc_match(etype, h) for h in self.seq(handler))
        name = handler.name.split(".")[-1] if isinstance(handler, Ext) else \
            self.exc_name(handler) if isinstance(handler, Cls) else None
        a, b = getattr(_bi, etype, None), getattr(_bi, name or "", None)
        if a is None or b is None:
            return etype == name or name in ("Exception", "BaseException")
        return issubclass(a, b)

    def x_Try(self, s, fr):
        try:
            try:
                self.exec_block(s.body, fr)
            except AbsRaise as e:
                for h in s.handlers:
                    if self.exc_match(e.etype, self.ev(h.type, fr) if h.type else None):
                        if h.name:
                            fr.locals[h.name] = e.obj or Opaque("exc", etype=e.etype, msg=e.msg, args=())
                        old = getattr(self, "_cur_exc", None)
                        self._cur_exc = e
                        try:
                            self.exec_block(h.body, fr)
                        finally:
                            self._cur_exc = old
                        break
                else:
                    raise
            else:
                self.exec_block(s.orelse, fr)
        finally:
            if s.finalbody:
                self.exec_block(s.finalbody, fr)

    def x_With(self, s, fr):
        exits = []
        for it in s.items:
            cm = self.ev(it.context_expr, fr)
            v = cm
            if isinstance(cm, Opaque) and cm.kind in ("nograd", "enablegrad"):
                if cm.kind == "nograd":
                    self.nograd += 1
                    exits.append("nograd")
                else:
                    exits.append(("set", self.nograd))
                    self.nograd = 0
            elif isinstance(cm, Obj) and self.find(cm.cls, "__enter__") is not None:
                v = self.call(self.getattr(cm, "__enter__"), [], {})
                exits.append(cm)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, fr)
        try:
            self.exec_block(s.body, fr)
        finally:
            for x in reversed(exits):
                if x == "nograd":
                    self.nograd -= 1
                elif isinstance(x, tuple):
                    self.nograd = x[1]
                elif isinstance(x, Obj):
                    self.call(self.getattr(x, "__exit__"), [None, None, None], {})

    def x_Assert(self, s, fr):
        v = self.ev(s.test, fr)
        try:
            c = self.truth_const(v)
        except Unsupported:
            c = None
        if c is False:
            raise AbsRaise("AssertionError", "", self.loc)

    def x_Delete(self, s, fr):
        for t in s.targets:
            if isinstance(t, ast.Name):
                fr.locals.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                self.delitem(self.ev(t.value, fr), self.ev_index(t.slice, fr))
            elif isinstance(t, ast.Attribute):
                o = self.ev(t.value, fr)
                if isinstance(o, Obj):
                    self.touch(o, f"attribute '{t.attr}'", attr=t.attr)
                    o.attrs.pop(t.attr, None)

    def x_Global(self, s, fr):
        fr.globals_.update(s.names)

    def x_Nonlocal(self, s, fr):
        fr.nonlocals.update(s.names)

    def x_Import(self, s, fr):
        for a in s.names:
            m = self.import_module(a.name)
            if a.asname:
                self.store_name(a.asname, m, fr)
            else:
                top = a.name.split(".")[0]
                self.store_name(top, self.import_module(top), fr)

    def x_ImportFrom(self, s, fr):
        name = self.resolve_relative(fr.module, s.level, s.module)
        m = self.import_module(name)
        for a in s.names:
            if a.name == "*":
                if isinstance(m, Module):
                    al = m.dict.get("__all__")
                    names = [x for x in self.seq(al)] if al is not None else \
                        [k for k in m.dict if not k.startswith("_")]
                    for n in names:
                        fr.locals[n] = m.dict[n]
                continue
            self.store_name(a.asname or a.name, self.import_from(m, a.name), fr)

    def import_from(self, m, name):
        if isinstance(m, Module):
            if name in m.dict:
                return m.dict[name]
            p, _ = self.find_module(m.name + "." + name)
            if p is not None:
                return self.import_module(m.name + "." + name)
            raise AbsRaise("ImportError", f"cannot import {name} from {m.name}", self.loc)
        return self.getattr(m, name)

    def x_FunctionDef(self, s, fr):
        f = self.make_func(s, fr)
        v = f
        for d in reversed(s.decorator_list):
            v = self.decorate(self.ev(d, fr), v, fr)
        self.store_name(s.name, v, fr)

    x_AsyncFunctionDef = x_FunctionDef

    def decorate(self, d, v, fr):
        if isinstance(d, Ext):
            n = d.name
            if n in ("functools.lru_cache", "functools.cache"):
                return Cached(v)
            if n == "functools.cached_property":
                return Prop(v, cached=True)
            if n in ("torch.no_grad", "torch.inference_mode"):
                return self.call(self.call(d, [], {}), [v], {})
            if n.rsplit(".", 1)[-1] in ("abstractmethod", "overload", "final", "override", "wraps", "runtime_checkable",
                                        "unique", "script", "compile", "total_ordering"):
                return v
        if isinstance(d, Native) and d.name in ("property", "staticmethod", "classmethod"):
            return {"property": Prop, "staticmethod": Static, "classmethod": ClassM}[d.name](v)
        if isinstance(d, Unknown):
            return v
        return self.call(d, [v], {})

    def make_func(self, s, fr, name=None):
        a = s.args
        defaults = [self.ev(d, fr) for d in a.defaults]
        kwdefaults = {k.arg: self.ev(d, fr) for k, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        nm = name or s.name
        q = nm
        if fr.cls is not None:
            q = f"{fr.cls.qual}.{nm}"
        elif fr.func is not None:
            q = f"{fr.func.qual}.{nm}"
        closure = fr if fr.func is not None or (fr.cls is None and fr.locals is not fr.module.dict) else None
        if fr.cls is not None:
            closure = fr.parent if fr.parent is not None and fr.parent.func is not None else None
        f = Func(s, fr.module, closure, nm, f"{fr.module.name}:{q}" if ":" not in q else q, defaults, kwdefaults,
                 cls=fr.cls)
        f.epoch = self.epoch
        for d in defaults + list(kwdefaults.values()):
            self.mark_origin(d, f"default argument of {f.qual}")
        return f

    def mark_origin(self, v, name):
        if isinstance(v, (L, D, S, Obj)) and v.origin is None:
            v.origin = name
        elif isinstance(v, T) and v.region.origin == "fresh":
            v.region.origin = name

    def x_ClassDef(self, s, fr):
        bases, ext = [], set()
        kw = {k.arg: self.ev(k.value, fr) for k in s.keywords if k.arg not in ("metaclass", "total")}
        for b in s.bases:
            v = self.ev(b, fr)
            if isinstance(v, Cls):
                bases.append(v)
            elif isinstance(v, Ext):
                ext.add(v.name)
            elif isinstance(v, Native):
                ext.add("builtins." + v.name)
        cls = Cls(s.name, bases or [self.lib.OBJECT], {}, fr.module, s)
        cls.qual = f"{fr.module.name}:{s.name}" if fr.func is None else f"{fr.func.qual}.{s.name}"
        cls.ext_bases = ext
        cls.epoch = self.epoch
        cls.mro = c3(cls)
        cf = Frame(fr.module, fr, None, cls)
        self.exec_block(s.body, cf)
        cls.dict = cf.locals
        allext = set().union(*[c.ext_bases for c in cls.mro])
        if any(e.endswith(".Enum") or e.endswith("IntEnum") or e.endswith("StrEnum") for e in allext):
            cls.enum = {}
            for k, v in list(cls.dict.items()):
                if k.startswith("_") or isinstance(v, (Func, Prop, Static, ClassM)):
                    continue
                o = Obj(cls, -2, f"enum {s.name}.{k}")
                o.attrs.update(value=v, name=k, _value_=v)
                cls.enum[k] = o
                cls.dict[k] = o
        v = cls
        hook = None
        for c in cls.mro[1:]:
            if "__init_subclass__" in c.dict:
                hook = c.dict["__init_subclass__"]
                break
        if hook is not None:
            if isinstance(hook, ClassM):
                hook = hook.func
            self.call(hook, [cls], kw)
        for d in reversed(s.decorator_list):
            dv = self.ev(d, fr)
            if isinstance(dv, (Ext, Unknown)) or (isinstance(dv, Opaque)):
                nm = getattr(dv, "name", "")
                if nm.endswith("dataclass") or (isinstance(dv, Opaque) and dv.kind == "dataclass"):
                    cls.kind = "dataclass"
                continue
            v = self.call(dv, [v], {})
        self.store_name(s.name, v, fr)

    # -------------------------------------------------------------- names
    def load_name(self, n, fr):
        f = fr
        if n in f.locals and n not in fr.globals_:
            return f.locals[n]
        f = fr.parent
        while f is not None:
            if f.cls is None and n in f.locals:
                return f.locals[n]
            f = f.parent
        if n in fr.module.dict:
            return fr.module.dict[n]
        b = self.lib.builtin(n)
        if b is not MISSING:
            return b
        raise AbsRaise("NameError", f"name '{n}' is not defined", self.loc)

    def store_name(self, n, v, fr):
        if n in fr.globals_:
            old = fr.module.dict.get(n, MISSING)
            fr.module.dict[n] = v
            if self.epoch > 0 and old is not v:
                self.event("global-write", name=n, module=fr.module.name, before=old, after=v)
                self.persist(v)
            return
        if n in fr.nonlocals:
            f = fr.parent
            while f is not None:
                if n in f.locals:
                    f.locals[n] = v
                    return
                f = f.parent
        fr.locals[n] = v
        if isinstance(v, T) and v.name is None and fr.locals is fr.module.dict:
            v.name = n
            v.region.origin = f"table {fr.module.name}.{n}"
        elif isinstance(v, (L, D, S, Obj)) and fr.locals is fr.module.dict and v.origin is None:
            v.origin = f"module-level {fr.module.name}.{n}"

    def persist(self, v, depth=0):
        """value becomes reachable from an object that outlives the call"""
        if depth > 4:
            return
        if isinstance(v, (L, S)):
            v.epoch = -1
            for x in v.items:
                self.persist(x, depth + 1)
        elif isinstance(v, D):
            v.epoch = -1
            for x in v.items.values():
                self.persist(x, depth + 1)
        elif isinstance(v, OD):
            v.epoch = -1
            for x in v.kids.values():
                self.persist(x, depth + 1)
        elif isinstance(v, T):
            v.region.epoch = -1
        elif isinstance(v, tuple):
            for x in v:
                self.persist(x, depth + 1)
        elif isinstance(v, Obj):
            v.epoch = -1

    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            self.store_name(t.id, v, fr)
        elif isinstance(t, (ast.Tuple, ast.List)):
            vals = self.iterate(v)
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if star:
                i = star[0]
                after = len(t.elts) - i - 1
                for e, x in zip(t.elts[:i], vals[:i]):
                    self.assign(e, x, fr)
                self.assign(t.elts[i].value, L(vals[i:len(vals) - after], self.epoch), fr)
                for e, x in zip(t.elts[i + 1:], vals[len(vals) - after:]):
                    self.assign(e, x, fr)
            else:
                if len(vals) != len(t.elts):
                    raise AbsRaise("ValueError", "unpack", self.loc)
                for e, x in zip(t.elts, vals):
                    self.assign(e, x, fr)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, fr), t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.ev(t.value, fr), self.ev_index(t.slice, fr), v)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, fr)
        else:
            raise Unsupported("assignment target")

    # -------------------------------------------------------- expressions
    def ev(self, n, fr):
        m = getattr(self, "e_" + type(n).__name__, None)
        if m is None:
            raise Unsupported(f"expression {type(n).__name__}")
        self.setloc(n, fr)
        return m(n, fr)

    def e_Constant(self, n, fr):
        return n.value

    def e_Name(self, n, fr):
        return self.load_name(n.id, fr)

    def e_Attribute(self, n, fr):
        o = self.ev(n.value, fr)
        a = n.attr
        if a.startswith("__") and not a.endswith("__"):
            c = fr.func.cls if fr.func is not None else None
            if c is not None:
                a = f"_{c.name.lstrip('_')}{a}"
        self.setloc(n, fr)
        return self.getattr(o, a)

    def e_Tuple(self, n, fr):
        return tuple(self.ev_seq(n.elts, fr))

    def e_List(self, n, fr):
        c = literal_list(n)
        if c is not None:
            return L(c, self.epoch)
        return L(self.ev_seq(n.elts, fr), self.epoch)

    def e_Set(self, n, fr):
        return S(self.uniq(self.ev_seq(n.elts, fr)), self.epoch)

    def uniq(self, xs):
        out = []
        for x in xs:
            if not any(self.same_const(x, y) for y in out):
                out.append(x)
        return out

    def same_const(self, a, b):
        if a is b:
            return True
        try:
            return self.truth_const(self.eq(a, b)) is True
        except Unsupported:
            return False

    def ev_seq(self, elts, fr):
        out = []
        for e in elts:
            if isinstance(e, ast.Starred):
                out.extend(self.iterate(self.ev(e.value, fr)))
            else:
                out.append(self.ev(e, fr))
        return out

    def e_Dict(self, n, fr):
        d = D({}, self.epoch)
        for k, v in zip(n.keys, n.values):
            if k is None:
                src = self.ev(v, fr)
                if isinstance(src, OD) and len(n.keys) == 1:
                    return self.lib.od_copy(src)
                for kk, vv in self.dict_items(src):
                    self.dset(d, kk, vv)
            else:
                self.dset(d, self.ev(k, fr), self.ev(v, fr))
        return d

    def dict_items(self, d):
        if isinstance(d, D):
            return list(d.items.items()) + [(k, v) for k, v in d.symkeys]
        if isinstance(d, OD):
            return self.lib.od_items(d)
        if isinstance(d, Unknown):
            raise Unsupported("items of unknown mapping")
        raise AbsRaise("TypeError", "not a mapping", self.loc)

    def e_JoinedStr(self, n, fr):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                try:
                    x = self.ev(v.value, fr)
                    if isinstance(x, Obj) and x.cls.enum is not None:
                        x = f"{x.cls.name}.{x.attrs['name']}"
                    if isinstance(x, (str, int, float, bool)) and v.format_spec is None:
                        parts.append(repr(x) if v.conversion == 114 else str(x))
                    elif isinstance(x, Str):
                        parts.append(x)
                    elif v.format_spec is None and isinstance(x, (T, tuple, L, D, Dtype, Device, Sc, Opaque)):
                        parts.append(Str(self.lib.content(x)))
                    else:
                        parts.append(Str(X.leaf("<fmt>")))
                except Unsupported:
                    parts.append(Str(X.leaf("<fmt>")))
        if all(isinstance(p, str) for p in parts):
            return "".join(parts)
        return Str(X.mk("fn", "fmt", *[p.e if isinstance(p, Str) else X.leaf("str:" + p) for p in parts]))

    def e_FormattedValue(self, n, fr):
        return self.ev(n.value, fr)

    def e_IfExp(self, n, fr):
        return self.ev(n.body if self.truth(self.ev(n.test, fr)) else n.orelse, fr)

    def e_BoolOp(self, n, fr):
        isand = isinstance(n.op, ast.And)
        v = None
        for x in n.values:
            v = self.ev(x, fr)
            if x is n.values[-1]:
                return v
            t = self.truth(v)
            if isand and not t:
                return v
            if not isand and t:
                return v
        return v

    def e_UnaryOp(self, n, fr):
        v = self.ev(n.operand, fr)
        if isinstance(n.op, ast.Not):
            c = self.truth_sym(v)
            if isinstance(c, bool):
                return not c
            return Sc(X.notb(c), "bool")
        return self.unary({ast.USub: "neg", ast.UAdd: "pos", ast.Invert: "inv"}[type(n.op)], v)

    def unary(self, op, v):
        if isinstance(v, bool):
            v = int(v) if op != "inv" else v
        if isinstance(v, (int, float)):
            return -v if op == "neg" else +v if op == "pos" else ~v
        if isinstance(v, Sc):
            if op == "neg":
                return Sc(X.neg(v.e), v.kind)
            if op == "pos":
                return v
        if isinstance(v, T):
            return self.tlib.unary(op, v)
        if isinstance(v, Obj):
            mname = {"neg": "__neg__", "pos": "__pos__", "inv": "__invert__"}[op]
            f = self.find(v.cls, mname)
            if f is not None:
                return self.call(self.getattr(v, mname), [], {})
        if isinstance(v, Unknown):
            return Unknown("unary", [v])
        raise Unsupported("unary")

    def e_BinOp(self, n, fr):
        a = self.ev(n.left, fr)
        b = self.ev(n.right, fr)
        self.setloc(n, fr)
        return self.binop(type(n.op).__name__, a, b)

    _PY = {"Add": lambda a, b: a + b, "Sub": lambda a, b: a - b, "Mult": lambda a, b: a * b,
           "Div": lambda a, b: a / b, "Pow": lambda a, b: a ** b, "Mod": lambda a, b: a % b,
           "FloorDiv": lambda a, b: a // b, "BitOr": lambda a, b: a | b, "BitAnd": lambda a, b: a & b,
           "BitXor": lambda a, b: a ^ b, "LShift": lambda a, b: a << b, "RShift": lambda a, b: a >> b}

    def binop(self, op, a, b):
        num = (int, float, bool)
        if isinstance(a, num) and isinstance(b, num):
            try:
                return self._PY[op](a, b)
            except ZeroDivisionError:
                raise AbsRaise("ZeroDivisionError", "", self.loc)
            except OverflowError:
                raise Unsupported("overflow")
        if isinstance(a, Unknown) or isinstance(b, Unknown):
            if isinstance(a, T) or isinstance(b, T):
                return Unknown(f"{op} with unknown", [a, b])
            return Unknown(op, [a, b])
        if isinstance(a, T) or isinstance(b, T):
            for x in (a, b):
                if not isinstance(x, num + (T, Sc)):
                    raise AbsRaise("TypeError", f"unsupported operand for {op}", self.loc)
            return self.tlib.binop(op, a, b)
        if isinstance(a, Sc) and isinstance(b, num + (Sc,)) or isinstance(b, Sc) and isinstance(a, num):
            return self.lib.sc_binop(op, a, b)
        if op == "Add":
            if isinstance(a, str) and isinstance(b, str):
                return a + b
            if isinstance(a, (Str, str)) and isinstance(b, (Str, str)):
                f = lambda x: x.e if isinstance(x, Str) else X.leaf("str:" + x)
                return Str(X.mk("fn", "fmt", f(a), f(b)))
            if isinstance(a, Shape) and isinstance(b, tuple):
                return Shape(tuple(a) + self.lib.to_shape(b))
            if isinstance(a, tuple) and isinstance(b, Shape):
                return Shape(self.lib.to_shape(a) + tuple(b))
            if isinstance(a, tuple) and isinstance(b, tuple):
                return a + b
            if isinstance(a, L) and isinstance(b, L):
                return L(a.items + b.items, self.epoch)
        if op == "Mult":
            if isinstance(a, (str, tuple)) and isinstance(b, int):
                return a * b
            if isinstance(b, (str, tuple)) and isinstance(a, int):
                return a * b
            if isinstance(a, L) and isinstance(b, int):
                return L(a.items * b, self.epoch)
        if op == "Mod" and isinstance(a, (str, Str)):
            return Str(X.leaf("<fmt>"))
        if op == "BitOr":
            if isinstance(a, (Ext, Cls, Native, tuple, type(None))) or isinstance(b, (Ext, Cls, Native)):
                return Ext("typing.Union")
            if isinstance(a, D) and isinstance(b, D):
                r = D(a.items, self.epoch)
                r.items.update(b.items)
                return r
            if isinstance(a, S) and isinstance(b, S):
                return S(self.uniq(a.items + b.items), self.epoch)
        if op == "Sub" and isinstance(a, S) and isinstance(b, S):
            return S([x for x in a.items if not any(self.same_const(x, y) for y in b.items)], self.epoch)
        if op == "BitAnd" and isinstance(a, S) and isinstance(b, S):
            return S([x for x in a.items if any(self.same_const(x, y) for y in b.items)], self.epoch)
        if isinstance(a, Opaque) and a.kind == "path" and op == "Div":
            return Opaque("path", parts=a.data["parts"] + (b,))
        for x, y, pre in ((a, b, "__"), (b, a, "__r")):
            if isinstance(x, Obj):
                nm = pre + {"Add": "add", "Sub": "sub", "Mult": "mul", "Div": "truediv", "Pow": "pow",
                            "BitOr": "or", "BitAnd": "and"}.get(op, "?") + "__"
                if self.find(x.cls, nm) is not None:
                    return self.call(self.getattr(x, nm), [y], {})
        raise AbsRaise("TypeError", f"unsupported operand types for {op}", self.loc)

    def inplace_binop(self, op, a, b):
        name = type(op).__name__
        if isinstance(a, T):
            return self.tlib.inplace_binop(name, a, b)
        if isinstance(a, L) and name == "Add":
            self.touch(a, "list +=")
            a.items.extend(self.iterate(b))
            return a
        if isinstance(a, D) and name == "BitOr":
            self.touch(a, "dict |=")
            for k, v in self.dict_items(b):
                self.dset(a, k, v)
            return a
        return self.binop(name, a, b)

    def e_Compare(self, n, fr):
        left = self.ev(n.left, fr)
        res = None
        for op, c in zip(n.ops, n.comparators):
            right = self.ev(c, fr)
            self.setloc(n, fr)
            r = self.compare(type(op).__name__, left, right)
            if len(n.ops) == 1:
                return r
            if not self.truth(r):
                return False
            res = r
            left = right
        return res

    def compare(self, op, a, b):
        if op in ("Is", "IsNot"):
            r = self.is_(a, b)
            return r if op == "Is" else not r
        if op in ("In", "NotIn"):
            r = self.contains(b, a)
            if op == "NotIn":
                if isinstance(r, bool):
                    return not r
                return Sc(X.notb(r), "bool")
            return r if isinstance(r, bool) else Sc(r, "bool")
        if op in ("Eq", "NotEq"):
            r = self.eq(a, b)
            if op == "NotEq":
                if isinstance(r, bool):
                    return not r
                if isinstance(r, T):
                    return self.tlib.unary("inv", r)
                if isinstance(r, Sc):
                    return Sc(X.notb(r.e), "bool")
                return Unknown("ne", [a, b])
            return r
        num = (int, float, bool)
        if isinstance(a, num) and isinstance(b, num):
            return {"Lt": a < b, "LtE": a <= b, "Gt": a > b, "GtE": a >= b}[op]
        if isinstance(a, Unknown) or isinstance(b, Unknown):
            return Unknown(op, [a, b])
        if isinstance(a, T) or isinstance(b, T):
            return self.tlib.compare(op, a, b)
        if isinstance(a, (Sc,) + num) and isinstance(b, (Sc,) + num):
            x, y = self.lib.sce(a), self.lib.sce(b)
            e = {"Lt": X.lt(x, y), "LtE": X.le(x, y), "Gt": X.lt(y, x), "GtE": X.le(y, x)}[op]
            return self.mkbool(e)
        if isinstance(a, tuple) and isinstance(b, tuple) or isinstance(a, str) and isinstance(b, str):
            try:
                return {"Lt": a < b, "LtE": a <= b, "Gt": a > b, "GtE": a >= b}[op]
            except TypeError:
                pass
        if isinstance(a, S) and isinstance(b, S):
            sub = all(any(self.same_const(x, y) for y in b.items) for x in a.items)
            sup = all(any(self.same_const(x, y) for y in a.items) for x in b.items)
            return {"LtE": sub, "GtE": sup, "Lt": sub and not sup, "Gt": sup and not sub}[op]
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            return Unknown("compare", [a, b])
        raise Unsupported("comparison")

    def mkbool(self, e):
        if e is X.TRUE:
            return True
        if e is X.FALSE:
            return False
        return Sc(e, "bool")

    def is_(self, a, b):
        if a is b:
            return True
        if isinstance(a, bool) and isinstance(b, bool):
            return a == b
        if isinstance(a, (Dtype, Device)) and isinstance(b, (Dtype, Device)):
            return a == b
        if isinstance(a, (int, str)) and type(a) is type(b):
            return a == b
        if isinstance(a, Sc) and isinstance(b, bool) and a.kind == "bool":
            return self.decide(a.e if b else X.notb(a.e))
        if isinstance(b, Sc) and isinstance(a, bool):
            return self.is_(b, a)
        if isinstance(a, Unknown) or isinstance(b, Unknown):
            return self.decide(X.leaf(f"?is{len(self.trace)}@{self.loc}"))
        return False

    def eq(self, a, b):
        """python == ; returns bool, Sc(bool), T or Unknown"""
        if isinstance(a, T) or isinstance(b, T):
            o = b if isinstance(a, T) else a
            if isinstance(o, (T, int, float, bool, Sc)):
                return self.tlib.compare("Eq", a, b)
            if isinstance(o, Unknown):
                return Unknown("eq", [a, b])
            return False
        if isinstance(a, Unknown) or isinstance(b, Unknown):
            return Unknown("eq", [a, b])
        if isinstance(a, Shape) or isinstance(b, Shape):
            if not (isinstance(a, (tuple, L)) and isinstance(b, (tuple, L))):
                return False
            x, y = self.lib.to_shape(a), self.lib.to_shape(b)
            if isinstance(a, L) or isinstance(b, L):
                return False
            return tuple(x) == tuple(y)
        if isinstance(a, Sc) or isinstance(b, Sc):
            if not all(isinstance(x, (Sc, int, float, bool)) for x in (a, b)):
                return False
            x, y = self.lib.sce(a), self.lib.sce(b)
            if x.op == "dim" and y.op == "dim":
                return x is y           # generic sizes are distinct
            if x.op == "num":
                x, y = y, x
            if x.op == "dim" and y.op == "num" and (y.args[0] < 1 or y.args[0].denominator != 1):
                return False            # axes are not empty
            return self.mkbool(X.eq(x, y))
        if isinstance(a, Str) or isinstance(b, Str):
            if not all(isinstance(x, (Str, str)) for x in (a, b)):
                return False
            f = lambda x: x.e if isinstance(x, Str) else X.leaf("str:" + x)
            x, y = f(a), f(b)
            if x is y:
                return True
            if x.op == y.op == "call":
                from . import iso
                if iso.key(x) == iso.key(y):
                    return True
            if self.lib.str_disjoint(x, y):
                return False
            if x.id > y.id:
                x, y = y, x
            return Sc(X.mk("bfn", "streq", x, y), "bool")
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                return False
            acc = X.TRUE
            for x, y in zip(a, b):
                r = self.eq(x, y)
                if isinstance(r, bool):
                    if not r:
                        return False
                elif isinstance(r, Sc):
                    acc = X.andb(acc, r.e)
                else:
                    return Unknown("eq", [a, b])
            return self.mkbool(acc)
        if isinstance(a, L) and isinstance(b, L):
            return self.eq(tuple(a.items), tuple(b.items))
        if isinstance(a, D) and isinstance(b, D):
            if set(a.items) != set(b.items):
                return False
            return self.eq(tuple(a.items[k] for k in a.items), tuple(b.items[k] for k in a.items))
        if isinstance(a, Obj) or isinstance(b, Obj):
            for x, y in ((a, b), (b, a)):
                if isinstance(x, Obj):
                    if x.cls.enum is not None:
                        if isinstance(y, str) and any("builtins.str" in c.ext_bases for c in x.cls.mro):
                            return x.attrs["value"] == y
                        return x is y
                    if self.find(x.cls, "__eq__") is not None:
                        return self.call(self.getattr(x, "__eq__"), [y], {})
            return a is b
        if isinstance(a, Opaque) and isinstance(b, Opaque):
            if a.kind == b.kind == "symlist":
                from . import iso
                return iso.key(self.lib.content(a)) == iso.key(self.lib.content(b))
            if a.kind == b.kind == "symkey":
                if "text" in (a.data["e"].args[0], b.data["e"].args[0]):
                    from . import iso
                    return iso.key(a.data["e"]) == iso.key(b.data["e"])
                return Sc(X.mk("bfn", "keyeq", a.data["e"], b.data["e"]), "bool") \
                    if a.data["e"] is not b.data["e"] else True
            return a is b
        if isinstance(a, (L, D, S, Obj, Func, Cls, Module, Ext, Opaque, OD)) or \
                isinstance(b, (L, D, S, Obj, Func, Cls, Module, Ext, Opaque, OD)):
            return a is b
        try:
            return bool(a == b)
        except Exception:
            return False

    def contains(self, c, x):
        """returns bool or E"""
        if isinstance(c, OD):
            return self.lib.od_has(c, x)
        if isinstance(c, D):
            i = self.dfind(c, x)
            return i is not None
        if isinstance(c, str):
            if isinstance(x, str):
                return x in c
            if isinstance(x, Str):
                return X.mk("bfn", "strin", x.e, X.leaf("str:" + c))
        if isinstance(c, Str):
            xe = x.e if isinstance(x, Str) else X.leaf("str:" + str(x))
            return X.mk("bfn", "strin", xe, c.e)
        if isinstance(c, Unknown):
            return X.leaf(f"?in{len(self.trace)}@{self.loc}")
        if isinstance(c, T):
            raise Unsupported("in on tensor")
        items = self.iterate(c)
        acc = X.FALSE
        for y in items:
            if x is y:
                return True
            r = self.eq(x, y)
            if isinstance(r, T):
                if r.ndim == 0:
                    acc = X.orb(acc, r.at())
                    continue
                raise Unsupported("tensor in sequence")
            if isinstance(r, bool):
                if r:
                    return True
            elif isinstance(r, Sc):
                acc = X.orb(acc, r.e)
            elif isinstance(r, Unknown):
                acc = X.orb(acc, X.leaf(f"?in{self.loc}"))
        if acc is X.FALSE:
            return False
        if acc is X.TRUE:
            return True
        return acc

    # truth -----------------------------------------------------------------
    def truth_sym(self, v):
        """bool or E"""
        if v is None:
            return False
        if isinstance(v, (bool, int, float, str)):
            return bool(v)
        if isinstance(v, Sc):
            if v.e.op == "dim":
                return True
            e = X.tobool(v.e)
            return True if e is X.TRUE else False if e is X.FALSE else e
        if isinstance(v, T):
            if v.ndim and not all(d == 1 for d in v.shape):
                raise AbsRaise("RuntimeError", "Boolean value of Tensor with more than one value is ambiguous", self.loc)
            e = X.tobool(v.arr.at([X.idxc(0)] * v.ndim))
            return True if e is X.TRUE else False if e is X.FALSE else e
        if isinstance(v, (tuple, L, S)):
            return len(self.seq(v)) > 0
        if isinstance(v, D):
            return bool(v.items) or bool(v.symkeys)
        if isinstance(v, OD):
            return True
        if isinstance(v, Str):
            return X.mk("bfn", "nonempty", v.e)
        if isinstance(v, Unknown):
            return X.leaf(f"?truth{len(self.trace)}@{self.loc}")
        if isinstance(v, Obj):
            for nm in ("__bool__", "__len__"):
                if self.find(v.cls, nm) is not None:
                    return self.truth_sym(self.call(self.getattr(v, nm), [], {}))
            return True
        if isinstance(v, Opaque) and v.kind == "boolleaf":
            return v.data["e"]
        return True

    def truth(self, v):
        c = self.truth_sym(v)
        if isinstance(c, bool):
            return c
        return self.decide(c)

    def truth_const(self, v):
        c = self.truth_sym(v)
        return c if isinstance(c, bool) else None

    # comprehension ----------------------------------------------------------
    def comp(self, gens, fr, emit, sym=None, sym_elt=None):
        f2 = Frame(fr.module, fr, fr.func, None)
        f2.globals_ = fr.globals_

        def go(i):
            if i == len(gens):
                emit(f2)
                return
            g = gens[i]
            src = self.ev(g.iter, f2 if i else fr)
            q = loops.symseq(self, src)
            if q is not None:
                if len(gens) > 1 or q.guard is not X.TRUE or sym is None:
                    raise Unsupported("comprehension over a symbolic extent")
                self.assign(g.target, q.item, f2)
                if g.ifs:
                    raise Unsupported("filtered comprehension over a symbolic extent")
                self.loopvars.append((q.v, ()))
                nu = len(self.unsupported)
                try:
                    sym.append(loops.SymSeq(q.v, q.dim, sym_elt(f2), X.TRUE))
                finally:
                    self.loopvars.pop()
                if len(self.unsupported) != nu:
                    raise Unsupported("comprehension over a symbolic extent")
                return
            it = self.iterate(src)
            for v in it:
                self.assign(g.target, v, f2)
                if all(self.truth(self.ev(c, f2)) for c in g.ifs):
                    go(i + 1)
        go(0)

    def e_ListComp(self, n, fr):
        out, sym = [], []
        self.comp(n.generators, fr, lambda f: out.append(self.ev(n.elt, f)), sym, lambda f: self.ev(n.elt, f))
        if sym:
            return sym[0]
        return L(out, self.epoch)

    def e_GeneratorExp(self, n, fr):
        out, sym = [], []
        self.comp(n.generators, fr, lambda f: out.append(self.ev(n.elt, f)), sym, lambda f: self.ev(n.elt, f))
        if sym:
            return sym[0]
        return It(out)

    def e_SetComp(self, n, fr):
        out = []
        self.comp(n.generators, fr, lambda f: out.append(self.ev(n.elt, f)))
        return S(self.uniq(out), self.epoch)

    def e_DictComp(self, n, fr):
        d = D({}, self.epoch)
        self.comp(n.generators, fr, lambda f: self.dset(d, self.ev(n.key, f), self.ev(n.value, f)))
        return d

    def e_Lambda(self, n, fr):
        fn = ast.FunctionDef(name="<lambda>", args=n.args, body=[ast.copy_location(ast.Return(n.body), n)],
                             decorator_list=[], lineno=n.lineno, col_offset=n.col_offset)
        return self.make_func(fn, fr, "<lambda>")

    def e_NamedExpr(self, n, fr):
        v = self.ev(n.value, fr)
        f = fr
        self.store_name(n.target.id, v, f)
        return v

    def e_Starred(self, n, fr):
        return self.ev(n.value, fr)

    def e_Yield(self, n, fr):
        f = fr
        while f is not None and f.yields is None:
            f = f.parent
        v = self.ev(n.value, fr) if n.value else None
        if f is not None:
            f.yields.append(v)
        return None

    def e_YieldFrom(self, n, fr):
        f = fr
        while f is not None and f.yields is None:
            f = f.parent
        vs = self.iterate(self.ev(n.value, fr))
        if f is not None:
            f.yields.extend(vs)
        return None

    def e_Slice(self, n, fr):
        g = lambda x: self.ev(x, fr) if x is not None else None
        return Slice(g(n.lower), g(n.upper), g(n.step))

    def ev_index(self, n, fr):
        return self.ev(n, fr)

    def e_Subscript(self, n, fr):
        o = self.ev(n.value, fr)
        k = self.ev_index(n.slice, fr)
        self.setloc(n, fr)
        return self.getitem(o, k)

    # items --------------------------------------------------------------------
    def dkey(self, k):
        """python-hashable form of a concrete key, or None"""
        if isinstance(k, (str, int, float, bool, type(None), Dtype, Device)):
            return k
        if isinstance(k, Shape):
            return tuple(("dim", d) if isinstance(d, str) else d for d in k)
        if isinstance(k, tuple):
            ks = []
            for x in k:
                y = self.dkey(x)
                if y is None and x is not None:
                    return None
                ks.append(y)
            return tuple(ks)
        if isinstance(k, Sc) and k.e.op == "dim":
            return ("dim", k.e.args[0])
        if isinstance(k, Obj):
            if k.cls.enum is not None:
                if any("builtins.str" in c.ext_bases for c in k.cls.mro):
                    return k.attrs["value"]
                return ("enum", id(k))
            return ("obj", id(k)) if self.find(k.cls, "__eq__") is None else None
        if isinstance(k, (Cls, Func, Ext, Module, Native, Bound, Cached)):
            return ("ref", id(k))
        if isinstance(k, T):
            return ("tensor", id(k))
        return None

    def dfind(self, d, k):
        """locate key: returns ('c', key) or ('s', index) or None (may fork)"""
        kk = self.dkey(k)
        if kk is not None or k is None:
            if kk in d.items:
                return ("c", kk)
            if not d.symkeys:
                return None
        for i, (sk, _) in enumerate(d.symkeys):
            r = self.eq(sk, k)
            if isinstance(r, bool):
                if r:
                    return ("s", i)
            elif isinstance(r, Sc):
                if self.decide(r.e):
                    return ("s", i)
            elif isinstance(r, Unknown):
                if self.decide(X.leaf(f"?key{self.loc}")):
                    return ("s", i)
        if kk is None and k is not None:
            for ck in list(d.items):
                if isinstance(k, Str) and isinstance(ck, str):
                    r = self.eq(k, ck)
                    if isinstance(r, bool):
                        if r:
                            return ("c", ck)
                    elif self.decide(r.e):
                        return ("c", ck)
        return None

    def dset(self, d, k, v):
        kk = self.dkey(k)
        if kk is not None or k is None:
            d.items[kk] = v
            return
        for e in d.symkeys:
            if self.same_const(e[0], k):
                e[1] = v
                return
        d.symkeys.append([k, v])

    def dget(self, d, k, default=MISSING):
        i = self.dfind(d, k)
        if i is None:
            if default is not MISSING:
                return default
            raise AbsRaise("KeyError", str(k), self.loc)
        if d.epoch < self.epoch or d.epoch == -1:
            self.event("read-preexisting", what="dict", origin=d.origin, obj=d, key=k)
        return d.items[i[1]] if i[0] == "c" else d.symkeys[i[1]][1]

    def touch(self, o, what, attr=None):
        """mutation of a python-level object"""
        if self.loopmut:
            self.loopmut[-1].append(o)
        ep = o.region.epoch if isinstance(o, T) else o.epoch
        if ep != -2 and (ep < self.epoch or ep == -1):
            self.event("mutate", what=what, origin=o.region.origin if isinstance(o, T) else o.origin,
                       obj=o, attr=attr, oepoch=ep, before=snapshot(o, attr))

    def getitem(self, o, k):
        if isinstance(o, T):
            return self.tlib.getitem(o, k)
        if isinstance(o, Shape):
            if isinstance(k, Slice):
                return Shape(tuple(o)[self.pyslice(k)])
            if isinstance(k, int):
                try:
                    return self.lib.dimval(o[k])
                except IndexError:
                    raise AbsRaise("IndexError", "", self.loc)
        if isinstance(o, (tuple, L)) or isinstance(o, It):
            items = self.seq(o)
            if isinstance(k, Slice):
                r = items[self.pyslice(k)]
                return tuple(r) if isinstance(o, tuple) else L(r, self.epoch)
            if isinstance(k, (int, bool)):
                try:
                    return items[k]
                except IndexError:
                    raise AbsRaise("IndexError", "", self.loc)
            raise Unsupported("symbolic sequence index")
        if isinstance(o, str):
            if isinstance(k, Slice):
                return o[self.pyslice(k)]
            if isinstance(k, int):
                return o[k]
        if isinstance(o, D):
            return self.dget(o, k)
        if isinstance(o, OD):
            return self.lib.od_get(o, k)
        if isinstance(o, Cls):
            if o.enum is not None:
                if isinstance(k, str):
                    if k in o.enum:
                        return o.enum[k]
                    raise AbsRaise("KeyError", k, self.loc)
            return o
        if isinstance(o, (Ext, Native)):
            return o if isinstance(o, Ext) else Ext("typing.generic")
        if isinstance(o, Obj):
            if self.find(o.cls, "__getitem__") is not None:
                return self.call(self.getattr(o, "__getitem__"), [k], {})
        if isinstance(o, Unknown):
            return Unknown("item", [o])
        raise Unsupported(f"subscript of {type(o).__name__}")

    def pyslice(self, s):
        for x in (s.a, s.b, s.c):
            if x is not None and not isinstance(x, int):
                raise Unsupported("symbolic slice")
        return slice(s.a, s.b, s.c)

    def setitem(self, o, k, v):
        if isinstance(o, T):
            self.tlib.setitem(o, k, v)
            return
        if isinstance(o, D):
            self.touch(o, "dict item assignment")
            self.dset(o, k, v)
            if o.epoch < self.epoch or o.epoch == -1:
                self.persist(v)
            return
        if isinstance(o, L):
            self.touch(o, "list item assignment")
            if isinstance(k, int):
                o.items[k] = v
                return
            raise Unsupported("list assignment")
        if isinstance(o, OD):
            self.touch(o, "item assignment in data loaded from file")
            o.added[self.dkey(k)] = v
            o.removed.discard(k)
            return
        if isinstance(o, Obj) and self.find(o.cls, "__setitem__") is not None:
            self.call(self.getattr(o, "__setitem__"), [k, v], {})
            return
        if isinstance(o, Unknown):
            return
        raise Unsupported("item assignment")

    def delitem(self, o, k):
        if isinstance(o, D):
            self.touch(o, "dict item deletion")
            i = self.dfind(o, k)
            if i is None:
                raise AbsRaise("KeyError", str(k), self.loc)
            if i[0] == "c":
                del o.items[i[1]]
            else:
                o.symkeys.pop(i[1])
        elif isinstance(o, OD):
            self.touch(o, "item deletion in data loaded from file")
            o.removed.add(k)
        elif isinstance(o, L):
            self.touch(o, "list item deletion")
            del o.items[k if isinstance(k, int) else self.pyslice(k)]
        else:
            raise Unsupported("del item")

    def seq(self, v):
        if isinstance(v, Shape):
            return [self.lib.dimval(d) for d in v]
        if isinstance(v, tuple):
            return list(v)
        if isinstance(v, (L, S)):
            return v.items
        if isinstance(v, It):
            return v.items[v.pos:]
        raise Unsupported("sequence expected")

    def iterate(self, v):
        if isinstance(v, (tuple, L, S)):
            return list(self.seq(v))
        if isinstance(v, It):
            r = v.items[v.pos:]
            v.pos = len(v.items)
            return r
        if isinstance(v, D):
            return list(v.items) + [k for k, _ in v.symkeys]
        if isinstance(v, OD):
            return [k for k, _ in self.lib.od_items(v)]
        if isinstance(v, str):
            return list(v)
        if isinstance(v, range):
            return list(v)
        if isinstance(v, T):
            return self.tlib.unbind(v)
        if isinstance(v, Cls) and v.enum is not None:
            return list(v.enum.values())
        if isinstance(v, Obj):
            if self.find(v.cls, "__iter__") is not None:
                return self.iterate(self.call(self.getattr(v, "__iter__"), [], {}))
        if v is None or isinstance(v, (int, float, bool, Sc)):
            raise AbsRaise("TypeError", "not iterable", self.loc)
        raise Unsupported(f"iteration over {type(v).__name__}")

    # attributes --------------------------------------------------------------
    def find(self, cls, name):
        for c in cls.mro:
            if name in c.dict:
                return c.dict[name]
        return None

    def find_owner(self, cls, name):
        for c in cls.mro:
            if name in c.dict:
                return c
        return None

    def getattr(self, o, a, default=MISSING):
        try:
            return self._getattr(o, a)
        except AbsRaise as e:
            if e.etype == "AttributeError" and default is not MISSING:
                return default
            raise

    def noattr(self, o, a):
        raise AbsRaise("AttributeError", f"{o!r} has no attribute {a}", self.loc)

    def bind_descr(self, v, o, cls):
        if isinstance(v, Prop):
            if v.fget is None:
                self.noattr(o, "?")
            return self.call(v.fget, [o], {})
        if isinstance(v, Static):
            return v.func
        if isinstance(v, ClassM):
            return Bound(v.func, cls)
        if isinstance(v, (Func, Cached)):
            return Bound(v, o)
        if isinstance(v, Native) and getattr(v.fn, "_method", False):
            return Bound(v, o)
        return v

    def _getattr(self, o, a):
        if isinstance(o, Obj):
            v = self.find(o.cls, a)
            if isinstance(v, Prop):
                if v.cached:
                    if a in o.attrs:
                        return o.attrs[a]
                    r = self.call(v.fget, [o], {})
                    self.setattr(o, a, r)
                    return r
                return self.bind_descr(v, o, o.cls)
            if a in o.attrs:
                if o.cls.enum is None:
                    self.attr_reads.add((o.cls.name, a))
                    if o.epoch < self.epoch:
                        self.event("attr-read", obj=o, attr=a)
                return o.attrs[a]
            if v is not None:
                return self.bind_descr(v, o, o.cls)
            if a == "__class__":
                return o.cls
            if a == "__dict__":
                return D({k: x for k, x in o.attrs.items()}, o.epoch, f"__dict__ of {o.origin}")
            ga = self.find(o.cls, "__getattr__")
            if ga is not None:
                return self.call(Bound(ga, o), [a], {})
            if o.cls.enum is not None and any("builtins.str" in c.ext_bases for c in o.cls.mro):
                return self._getattr(o.attrs["value"], a)
            if any(not e.startswith("builtins.") and not e.startswith(("abc.", "typing", "enum."))
                   for c in o.cls.mro for e in c.ext_bases):
                return Unknown(f"attribute {a} of external base", [])
            self.noattr(o, a)
        if isinstance(o, T):
            return self.tlib.tattr(o, a)
        if isinstance(o, Cls):
            v = self.find(o, a)
            if v is not None:
                if isinstance(v, Static):
                    return v.func
                if isinstance(v, ClassM):
                    return Bound(v.func, o)
                return v
            if a == "__name__" or a == "__qualname__":
                return o.name
            if a == "__mro__":
                return tuple(o.mro)
            if a == "__subclasses__":
                raise Unsupported("__subclasses__")
            if a == "__new__":
                return Native(lambda m, args, kw: self.lib.new_object(args[0]), "__new__")
            if a == "__slots__":
                self.noattr(o, a)
            if a == "__module__":
                return o.module.name if o.module else "builtins"
            if a in ("__members__",) and o.enum is not None:
                return D(o.enum, -2)
            if o.ext_bases and not all(e.startswith(("builtins.", "abc.", "typing", "enum.")) for e in o.ext_bases):
                return Unknown(f"class attribute {a}")
            self.noattr(o, a)
        if isinstance(o, Module):
            if a in o.dict:
                return o.dict[a]
            p, _ = self.find_module(o.name + "." + a)
            if p is not None and (o.name + "." + a) in self.modules:
                return self.modules[o.name + "." + a]
            self.noattr(o, a)
        if isinstance(o, Ext):
            return self.lib.ext_attr(o, a)
        if isinstance(o, Opaque) and o.kind == "super":
            obj, cls = o.data["obj"], o.data["cls"]
            mro = (obj.cls if isinstance(obj, Obj) else obj).mro
            i = mro.index(cls)
            for c in mro[i + 1:]:
                if a in c.dict:
                    return self.bind_descr(c.dict[a], obj, obj.cls if isinstance(obj, Obj) else obj)
            self.noattr(o, a)
        if isinstance(o, Func):
            if a in o.attrs:
                return o.attrs[a]
            if a in ("__name__", "__qualname__"):
                return o.name
            if a == "__doc__":
                return None
            if a == "__wrapped__" and o.wrapped is not None:
                return o.wrapped
            self.noattr(o, a)
        if isinstance(o, Bound):
            if a == "__self__":
                return o.self_
            if a == "__func__":
                return o.func
            if isinstance(o.func, Cached) or isinstance(o.func, Func):
                return self._getattr(o.func, a)
        if isinstance(o, Cached):
            if a in o.attrs:
                return o.attrs[a]
            if a == "cache_clear":
                return Native(lambda m, args, kw: o.store.clear(), "cache_clear")
            if a == "__wrapped__":
                return o.func
            return self._getattr(o.func, a)
        if isinstance(o, Unknown):
            return Unknown(f".{a}", [o])
        if isinstance(o, Prop):
            if a == "setter":
                return Native(lambda m, args, kw: Prop(o.fget, args[0], o.cached), "setter")
            if a == "getter":
                return Native(lambda m, args, kw: Prop(args[0], o.fset, o.cached), "getter")
        return self.lib.attr(o, a)

    def setattr(self, o, a, v):
        if isinstance(o, Obj):
            p = self.find(o.cls, a)
            if isinstance(p, Prop) and not p.cached:
                if p.fset is None:
                    raise AbsRaise("AttributeError", f"can't set {a}", self.loc)
                self.call(p.fset, [o, v], {})
                return
            sa = self.find(o.cls, "__setattr__")
            if sa is not None and isinstance(sa, Func):
                self.call(Bound(sa, o), [a, v], {})
                return
            self.raw_setattr(o, a, v)
            return
        if isinstance(o, Cls):
            self.touch(o, f"class attribute '{a}'", attr=a)
            o.dict[a] = v
            if self.epoch > 0:
                self.persist(v)
            return
        if isinstance(o, Module):
            old = o.dict.get(a, MISSING)
            o.dict[a] = v
            if self.epoch > 0 and old is not v:
                self.event("global-write", name=a, module=o.name, before=old, after=v)
                self.persist(v)
            return
        if isinstance(o, (Func, Cached)):
            o.attrs[a] = v
            if self.epoch > o.epoch:
                self.event("mutate", what=f"function attribute '{a}'", origin=getattr(o, "qual", "cached function"),
                           obj=o, attr=a, oepoch=0)
                self.persist(v)
            return
        if isinstance(o, T):
            if a == "data":
                self.tlib.assign_data(o, v)
                return
            if a == "requires_grad":
                return
            raise Unsupported("tensor attribute")
        if isinstance(o, Ext):
            self.event("global-write", name=a, module=o.name)
            return
        if isinstance(o, (Unknown, Opaque)):
            return
        raise Unsupported("setattr")

    def raw_setattr(self, o, a, v):
        self.attr_writes.append((o, a, self.loc))
        self.touch(o, f"attribute '{a}'", attr=a)
        if o.epoch < self.epoch:
            self.persist(v)
        o.attrs[a] = v
        o.info.setdefault("order", []).append(a)

    # calls ---------------------------------------------------------------------
    def e_Call(self, n, fr):
        if isinstance(n.func, ast.Name) and n.func.id == "super" and not n.args:
            c = self.cur_class(fr)
            s = self.cur_self(fr)
            return Opaque("super", cls=c, obj=s)
        if isinstance(n.func, ast.Name) and n.func.id in ("locals", "vars") and not n.args:
            return D(dict(fr.locals), self.epoch)
        f = self.ev(n.func, fr)
        args = []
        for a in n.args:
            if isinstance(a, ast.Starred):
                args.extend(self.iterate(self.ev(a.value, fr)))
            else:
                args.append(self.ev(a, fr))
        kw = {}
        odkw = None
        for k in n.keywords:
            if k.arg is None:
                v = self.ev(k.value, fr)
                if isinstance(v, OD):
                    odkw = v
                    continue
                if isinstance(v, Unknown):
                    self.unsup("** of unknown mapping")
                    continue
                for kk, vv in self.dict_items(v):
                    if not isinstance(kk, str):
                        raise Unsupported("non-constant keyword")
                    if kk in kw:
                        raise AbsRaise("TypeError", f"multiple values for keyword argument '{kk}'", self.loc)
                    kw[kk] = vv
            else:
                if k.arg in kw:
                    raise AbsRaise("TypeError", f"multiple values for keyword argument '{k.arg}'", self.loc)
                kw[k.arg] = self.ev(k.value, fr)
        self.setloc(n, fr)
        if odkw is not None:
            return self.lib.call_od(f, args, kw, odkw)
        loc = self.loc
        r = self.call(f, args, kw)
        self.loc = loc
        X.CURLOC[0] = loc
        return r

    def cur_class(self, fr):
        f = fr
        while f is not None:
            if f.func is not None and f.func.cls is not None:
                return f.func.cls
            f = f.parent
        raise Unsupported("super outside class")

    def cur_self(self, fr):
        f = fr
        while f is not None:
            if f.func is not None and f.func.cls is not None and f.self_ is not None:
                return f.self_
            f = f.parent
        raise Unsupported("super without self")

    def call(self, f, args, kw):
        if isinstance(f, Bound):
            return self.call(f.func, [f.self_] + list(args), kw)
        if isinstance(f, Func):
            return self.call_func(f, args, kw)
        if isinstance(f, Native):
            try:
                return f.fn(self, list(args), dict(kw))
            except Unsupported as u:
                self.unsup(f"{f.name}: {u}")
                return Unknown(f.name, list(args) + list(kw.values()))
        if isinstance(f, Cls):
            return self.instantiate(f, args, kw)
        if isinstance(f, Cached):
            return self.call_cached(f, args, kw)
        if isinstance(f, Partial):
            return self.call(f.func, list(f.args) + list(args), {**f.kw, **kw})
        if isinstance(f, Static):
            return self.call(f.func, args, kw)
        if isinstance(f, Ext):
            try:
                return self.lib.call_ext(f, list(args), dict(kw))
            except Unsupported as u:
                self.unsup(f"{f.name}: {u}")
                return Unknown(f.name, list(args) + list(kw.values()))
        if isinstance(f, Obj):
            c = self.find(f.cls, "__call__")
            if c is None:
                raise AbsRaise("TypeError", f"{f!r} not callable", self.loc)
            return self.call(Bound(c, f), args, kw)
        if isinstance(f, Opaque):
            return self.lib.call_opaque(f, list(args), dict(kw))
        if isinstance(f, Unknown):
            return Unknown("call of unknown", [f] + list(args) + list(kw.values()))
        raise AbsRaise("TypeError", f"{f!r} not callable", self.loc)

    def call_cached(self, f, args, kw):
        key = tuple(args) + tuple(sorted(kw.items()))
        for k, v in f.store:
            r = self.cache_eq(k, key)
            if r is True or (isinstance(r, E) and self.decide(r)):
                self.event("read-preexisting", what="lru_cache", origin="functools cache", obj=f, key=key)
                return v
        v = self.call(f.func, args, kw)
        self.persist(v)
        f.store.append((key, v))
        return v

    def cache_eq(self, a, b):
        if len(a) != len(b):
            return False
        acc = X.TRUE
        for x, y in zip(a, b):
            if isinstance(x, tuple) and isinstance(y, tuple):
                r = self.cache_eq(x, y)
                if r is False:
                    return False
                if isinstance(r, E):
                    acc = X.andb(acc, r)
                continue
            if isinstance(x, T) or isinstance(y, T):
                if x is not y:
                    return False
                continue
            r = self.eq(x, y)
            if isinstance(r, bool):
                if not r:
                    return False
            elif isinstance(r, Sc):
                acc = X.andb(acc, r.e)
            else:
                return False
        return True if acc is X.TRUE else acc

    def bind(self, f, args, kw):
        a = f.node.args
        loc = {}
        pos = [p.arg for p in a.posonlyargs + a.args]
        args = list(args)
        kw = dict(kw)
        for i, name in enumerate(pos):
            if i < len(args):
                if name in kw and name not in [p.arg for p in a.posonlyargs]:
                    raise AbsRaise("TypeError", f"multiple values for '{name}'", self.loc)
                loc[name] = args[i]
            elif name in kw:
                loc[name] = kw.pop(name)
            else:
                j = i - (len(pos) - len(f.defaults))
                if j >= 0:
                    loc[name] = f.defaults[j]
                else:
                    raise AbsRaise("TypeError", f"{f.qual} missing argument '{name}'", self.loc)
        if len(args) > len(pos):
            if a.vararg is None:
                raise AbsRaise("TypeError", f"{f.qual} takes {len(pos)} positional arguments", self.loc)
            loc[a.vararg.arg] = tuple(args[len(pos):])
        elif a.vararg is not None:
            loc[a.vararg.arg] = ()
        for p in a.kwonlyargs:
            if p.arg in kw:
                loc[p.arg] = kw.pop(p.arg)
            elif p.arg in f.kwdefaults:
                loc[p.arg] = f.kwdefaults[p.arg]
            else:
                raise AbsRaise("TypeError", f"{f.qual} missing keyword '{p.arg}'", self.loc)
        if kw:
            if a.kwarg is None:
                raise AbsRaise("TypeError", f"{f.qual} got unexpected keyword {sorted(kw)}", self.loc)
            loc[a.kwarg.arg] = D(kw, self.epoch)
        elif a.kwarg is not None:
            loc[a.kwarg.arg] = D({}, self.epoch)
        return loc

    def call_func(self, f, args, kw):
        self.calls += 1
        h = self.opaque_methods.get(f.qual)
        if h is not None:
            r = h(self, f, args, kw)
            if r is not MISSING:
                return r
        if self.depth > 90:
            raise Unsupported("call depth")
        loc = self.bind(f, args, kw)
        fr = Frame(f.module, f.closure, f, None)
        fr.locals = loc
        pos = f.node.args.posonlyargs + f.node.args.args
        if f.cls is not None and pos:
            fr.self_ = loc[pos[0].arg]
        isgen = _is_gen(f.node)
        if isgen:
            fr.yields = []
        self.functions.add(f.qual)
        old = self.loc
        self.depth += 1
        self.stack.append(f.qual)
        try:
            self.exec_block(f.node.body, fr)
            r = None
        except _Return as e:
            r = e.v
        finally:
            self.depth -= 1
            self.stack.pop()
            self.loc = old
            X.CURLOC[0] = old
        return It(fr.yields) if isgen else r

    def instantiate(self, cls, args, kw):
        if cls.enum is not None:
            return self.lib.enum_lookup(cls, args[0])
        ext = set().union(*[c.ext_bases for c in cls.mro])
        if any(e.endswith("TypedDict") for e in ext):
            d = D({}, self.epoch)
            for a in args:
                for k, v in self.dict_items(a):
                    self.dset(d, k, v)
            for k, v in kw.items():
                d.items[k] = v
            return d
        if any(e.endswith("NamedTuple") for e in ext):
            names = cls.dict.get("__annotations__", [])
            vals = dict(zip(names, args))
            vals.update(kw)
            o = Obj(cls, self.epoch)
            o.attrs.update({n: vals.get(n, cls.dict.get(n)) for n in names})
            return o
        for e in ext:
            if e.startswith("builtins.") and isinstance(getattr(_bi, e[9:], None), type) and \
                    issubclass(getattr(_bi, e[9:]), BaseException):
                return Opaque("exc", etype=self.exc_name(cls), msg="", args=tuple(args))
        nw = self.find(cls, "__new__")
        if nw is not None:
            o = self.call(nw.func if isinstance(nw, Static) else nw, [cls] + list(args), kw)
            if not isinstance(o, Obj):
                return o
        else:
            o = self.lib.new_object(cls)
        init = self.find(cls, "__init__")
        if init is not None:
            self.call(Bound(init, o) if not isinstance(init, Native) else init,
                      list(args) if not isinstance(init, Native) else [o] + list(args), kw)
        elif cls.kind == "dataclass":
            names = [n for c in reversed(cls.mro) for n in c.dict.get("__annotations__", [])]
            vals = dict(zip(names, args))
            vals.update(kw)
            for n in names:
                o.attrs[n] = vals[n] if n in vals else self.find(cls, n)
        return o


def _is_gen(node):
    r = getattr(node, "_sa_gen", None)
    if r is None:
        r = False
        st = list(node.body)
        while st:
            n = st.pop()
            if isinstance(n, (ast.Yield, ast.YieldFrom)):
                r = True
                break
            if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.GeneratorExp)):
                continue
            st.extend(ast.iter_child_nodes(n))
        node._sa_gen = r
    return r


def literal_list(n):
    """fast path for big nested literal lists; returns nested python lists or None"""
    r = getattr(n, "_sa_lit", MISSING)
    if r is MISSING:
        if len(n.elts) < 8 and not (n.elts and isinstance(n.elts[0], ast.List)):
            r = None
        else:
            try:
                r = _lit(n)
            except ValueError:
                r = None
        n._sa_lit = r
    if r is None:
        return None
    return [_wrap(x) for x in r]


def _wrap(x):
    return L([_wrap(y) for y in x]) if isinstance(x, list) else x


def _lit(n):
    if isinstance(n, ast.List):
        return [_lit(x) for x in n.elts]
    if isinstance(n, ast.Constant) and isinstance(n.value, (int, float)):
        return n.value
    if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub) and isinstance(n.operand, ast.Constant):
        return -n.operand.value
    if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.UAdd) and isinstance(n.operand, ast.Constant):
        return n.operand.value
    raise ValueError


# ------------------------------------------------------------------ path driver
class Run:
    """result of one path"""
    __slots__ = ("machine", "value", "exc", "conds")

    def __init__(self, machine, value, exc):
        self.machine = machine
        self.value = value
        self.exc = exc
        self.conds = [(c, v) for c, v, _ in machine.trace]


def explore(scenario, limit=64, **mkw):
    """lower ``scenario(machine)`` on every path"""
    runs = []
    work = [[]]
    while work:
        prefix = work.pop()
        m = Machine(decisions=prefix, **mkw)
        try:
            v, exc = scenario(m), None
        except AbsRaise as e:
            v, exc = None, e
        except _Return as e:
            v, exc = e.v, None
        except Unsupported as u:
            m.unsup(str(u))
            v, exc = Unknown(str(u)), None
        runs.append(Run(m, v, exc))
        tr = [x[1] for x in m.trace]
        for k in range(len(prefix), len(tr)):
            work.append(tr[:k] + [not tr[k]])
        if len(runs) > limit:
            raise PathLimit()
    return runs
