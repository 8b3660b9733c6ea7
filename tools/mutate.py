"""mutate.py [--list] [--seed N] [--n N] [--file F] [-jN] LOG : generated single-site mutants.

Each mutant is one small change at one syntax node of the non-data source.  It is first run through the repository's own
tests (scratch copy); only mutants the tests let pass go to the checks, cheapest first, until one reports it.  The log
gets one JSON line per mutant: {id, file, line, old, new, tests: pass|fail, caught: [prop] | []}.  A development aid: no check reads it."""
import ast, json, os, random, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = "/repo/src/tad_dftd4"
FILES = ["cutoff.py", "damping/functions.py", "damping/parameters/base.py", "damping/parameters/loader.py", "data/r4r2.py",
         "defaults.py", "disp.py", "dispersion/base.py", "dispersion/d3.py", "dispersion/d4.py", "dispersion/threebody.py",
         "dispersion/twobody.py", "model/base.py", "model/d4.py", "model/d4s.py", "utils.py"]
ORDER = ["C01", "C02", "C16", "C17", "C07", "C20", "C21", "C22", "C18", "C08", "C04", "C05", "C06", "C03", "C25", "C13", "C10", "C11", "C09",
         "C23", "C19", "C14", "C15", "C24", "C12"]


def sites(f):
    s = open(f"{SRC}/{f}").read()
    tree = ast.parse(s)
    lines = s.splitlines(keepends=True)
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l.encode()))
    b = s.encode()
    skip = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) \
                and isinstance(n.body[0].value, ast.Constant):
            skip.add(n.body[0])
            skip.add(n.body[0].value)
        if isinstance(n, ast.FunctionDef):
            for a in n.args.args + n.args.kwonlyargs:
                if a.annotation:
                    skip.update(ast.walk(a.annotation))
            if n.returns:
                skip.update(ast.walk(n.returns))
        if isinstance(n, ast.AnnAssign):
            skip.update(ast.walk(n.annotation))
        if isinstance(n, ast.Raise):
            for x in ast.walk(n):
                if x is not n:
                    skip.add(x)

    def pos(n):
        return off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset

    def txt(n):
        a, e = pos(n)
        return b[a:e].decode()
    out = []

    def rep(n, new, kind):
        a, e = pos(n)
        old = b[a:e].decode()
        if old != new:
            out.append((f, n.lineno, a, e, old, new, kind))
    for n in ast.walk(tree):
        if n in skip:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            alt = {ast.LtE: ["<", ">="], ast.Lt: ["<=", ">="], ast.Gt: [">=", "<="], ast.GtE: [">", "<"], ast.Eq: ["!="],
                   ast.NotEq: ["=="], ast.Is: ["is not"], ast.IsNot: ["is"], ast.In: ["not in"], ast.NotIn: ["in"]}[type(n.ops[0])]
            for o in alt:
                rep(n, f"{txt(n.left)} {o} {txt(n.comparators[0])}", "cmp")
        elif isinstance(n, ast.BinOp):
            alt = {ast.Add: ["-"], ast.Sub: ["+"], ast.Mult: ["/"], ast.Div: ["*"], ast.Pow: ["*"], ast.BitAnd: ["|"],
                   ast.BitOr: ["&"]}.get(type(n.op), [])
            for o in alt:
                rep(n, f"({txt(n.left)}) {o} ({txt(n.right)})", "bin")
            if isinstance(n.op, (ast.Mult, ast.Div, ast.Add, ast.Sub)):
                rep(n, f"({txt(n.left)})", "drop-right")
            for side in (n.left, n.right):
                if isinstance(side, (ast.Name, ast.Attribute, ast.Call, ast.Subscript)):
                    rep(side, f"{txt(side)}.detach()", "detach")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub) and isinstance(n.operand, ast.Constant):
            v = n.operand.value
            skip.add(n.operand)
            if isinstance(v, int):
                rep(n, str(-v - 1), "const")
                rep(n, str(-v + 1), "const")
            else:
                rep(n, repr(-v * 1.01), "const")
        elif isinstance(n, ast.UnaryOp):
            rep(n, txt(n.operand), "unary")
        elif isinstance(n, ast.Constant) and isinstance(n.value, bool):
            rep(n, str(not n.value), "bool")
        elif isinstance(n, ast.Constant) and isinstance(n.value, (int, float)):
            rep(n, repr(n.value + 1), "const")
            if isinstance(n.value, float) and n.value:
                rep(n, repr(n.value * 1.0001), "const")
        elif isinstance(n, ast.BoolOp):
            o = " or " if isinstance(n.op, ast.And) else " and "
            rep(n, o.join(f"({txt(v)})" for v in n.values), "boolop")
            rep(n, txt(n.values[0]), "boolop")
        elif isinstance(n, ast.IfExp):
            rep(n, f"({txt(n.body)})", "ifexp")
            rep(n, f"({txt(n.orelse)})", "ifexp")
        elif isinstance(n, (ast.If, ast.While)):
            if isinstance(n.test, ast.Name) and n.test.id == "TYPE_CHECKING":
                skip.update(ast.walk(n))
                continue
            rep(n.test, "False", "if")
            rep(n.test, "True", "if")
        elif isinstance(n, ast.Call):
            for i, k in enumerate(n.keywords):
                parts = [txt(a) for a in n.args]
                for j, k2 in enumerate(n.keywords):
                    if j != i:
                        parts.append(("**" + txt(k2.value)) if k2.arg is None else f"{k2.arg}={txt(k2.value)}")
                rep(n, f"{txt(n.func)}({', '.join(parts)})", "kw-drop")
            if len(n.args) >= 2:
                a = [txt(x) for x in n.args]
                kws = [("**" + txt(k2.value)) if k2.arg is None else f"{k2.arg}={txt(k2.value)}" for k2 in n.keywords]
                for i in range(len(a) - 1):
                    c = list(a)
                    c[i], c[i + 1] = c[i + 1], c[i]
                    rep(n, f"{txt(n.func)}({', '.join(c + kws)})", "arg-swap")
                rep(n, f"{txt(n.func)}({', '.join(a[:-1] + kws)})", "arg-drop")
            if n.args and isinstance(n.func, (ast.Attribute, ast.Name)):
                rep(n, f"({txt(n.args[0])})", "call-drop")
            if isinstance(n.func, ast.Attribute) and not n.args:
                rep(n, f"{txt(n.func.value)}", "method-drop")
        elif isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign, ast.Return)):
            if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
                continue
            if isinstance(n, ast.Return):
                continue
            rep(n, "pass", "stmt-drop")
        elif isinstance(n, ast.Raise):
            rep(n, "pass", "raise-drop")
        elif isinstance(n, ast.FunctionDef):
            ar = [a.arg for a in n.args.args if a.arg not in ("self", "cls")] + [a.arg for a in n.args.kwonlyargs]
            for x in ast.walk(n):
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and x.id in ar and x not in skip:
                    i = ar.index(x.id)
                    rep(x, ar[(i + 1) % len(ar)], "name")
                    rep(x, f"{x.id}.detach()", "detach")
        elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
            if n.attr in ("dtype", "device") and isinstance(n.value, ast.Name):
                rep(n, "torch.get_default_dtype()" if n.attr == "dtype" else 'torch.device("cpu")', "default-" + n.attr)
        elif isinstance(n, ast.Dict):
            for i in range(len(n.keys)):
                rep(n, "{" + ", ".join((f"{txt(k)}: " if k else "**") + txt(v) for j, (k, v) in enumerate(zip(n.keys, n.values)) if j != i)
                    + "}", "dict-drop")
    seen, res = set(), []
    for o in out:
        k = (o[2], o[3], o[5])
        if k not in seen:
            seen.add(k)
            res.append(o)
    return res


def work(mut):
    f, line, a, e, old, new, kind = mut
    d = tempfile.mkdtemp(prefix="mt", dir="/tmp")
    rec = {"file": f, "line": line, "old": old, "new": new, "kind": kind, "caught": []}
    try:
        for x in ("src", "test", "pyproject.toml", "setup.cfg", "setup.py", "README.md", "README.rst"):
            p = "/repo/" + x
            if os.path.isdir(p):
                shutil.copytree(p, f"{d}/{x}", ignore=shutil.ignore_patterns("__pycache__", "*.egg-info"))
            elif os.path.exists(p):
                shutil.copy(p, d)
        p = f"{d}/src/tad_dftd4/{f}"
        b = open(p, "rb").read()
        b = b[:a] + new.encode() + b[e:]
        try:
            compile(b, p, "exec")
        except SyntaxError:
            rec["tests"] = "syntax"
            return rec
        open(p, "wb").write(b)
        env = {**os.environ, "PYTHONPATH": d + "/src", "PYTHONHASHSEED": "0", "PYTHONDONTWRITEBYTECODE": "1", "OMP_NUM_THREADS": "1",
               "MKL_NUM_THREADS": "1", "CUDA_VISIBLE_DEVICES": ""}
        bl = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
        try:
            r = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "-p", "no:xdist", "--timeout=120",
                                "test"] + DESEL, cwd=d, env=env, capture_output=True, text=True, timeout=600)
            rec["tests"] = "pass" if r.returncode == 0 else "fail"
            if r.returncode not in (0, 1, 2):
                rec["tests"] = "fail"
        except subprocess.TimeoutExpired:
            rec["tests"] = "fail"
        if rec["tests"] != "pass":
            return rec
        env = dict(os.environ, SA_REPO=d, SA_EVIDENCE=d + "/ev")
        os.makedirs(d + "/ev", exist_ok=True)
        rec["undecided"] = {}
        for p in ORDER:
            r = subprocess.run([sys.executable, "-m", "sa", p], cwd=HERE, env=env, capture_output=True, text=True)
            if r.returncode == 1:
                rec["caught"].append(p)
                break
            if r.returncode:
                rec["undecided"][p] = "exit %d" % r.returncode
            else:
                for l in r.stdout.splitlines():
                    if l.startswith(p + ":"):
                        u = int(l.split(" undecided")[0].split()[-1])
                        if u:
                            rec["undecided"][p] = u
        return rec
    finally:
        shutil.rmtree(d, ignore_errors=True)


DESEL = []
if __name__ == "__main__":
    av = sys.argv[1:]

    def opt(n, d):
        if n in av:
            i = av.index(n)
            v = av[i + 1]
            del av[i:i + 2]
            return v
        return d
    seed, num, file, j, kinds = int(opt("--seed", 0)), int(opt("--n", 50)), opt("--file", None), int(opt("-j", 6)), opt("--kinds", None)
    allm = [m for f in FILES if file is None or f == file for m in sites(f)]
    if kinds:
        allm = [m for m in allm if m[6] in kinds.split(",")]
    if "--list" in av:
        from collections import Counter
        print(len(allm), Counter(m[0] for m in allm), Counter(m[6] for m in allm))
        sys.exit()
    log = av[-1]
    done = set()
    if os.path.exists(log):
        for l in open(log):
            d = json.loads(l)
            done.add((d["file"], d["line"], d["old"], d["new"]))
    random.Random(seed).shuffle(allm)
    todo = [m for m in allm[:num] if (m[0], m[1], m[4], m[5]) not in done]
    with ThreadPoolExecutor(j) as ex:
        for r in ex.map(work, todo):
            with open(log, "a") as h:
                h.write(json.dumps(r) + "\n")
