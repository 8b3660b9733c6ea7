"""refactor.py [-v] [-j N] [NAME ...] : run all checks on behaviour-preserving refactorings (one scratch copy each).

Every check has to exit 0.  With --tests the stable tests are also run on each copy (to be sure the edit is benign)."""
import glob, json, os, runpy, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from sa.checks.registry import CHECKS
args = [a for a in sys.argv[1:] if not a.startswith("-")]
tests = "--tests" in sys.argv
props = [a for a in args if a in CHECKS] or list(CHECKS)
names = [a for a in args if a not in CHECKS]
R = {}
for f in sorted(glob.glob(V + "/tools/refs/*.py")):
    R.update(runpy.run_path(f)["R"])
if names:
    R = {k: v for k, v in R.items() if k in names}
jobs = []
ROOT = tempfile.mkdtemp(prefix="refs")
try:
    for k, ed in R.items():
        d = f"{ROOT}/{k}"
        if tests:
            shutil.copytree("/repo", d, symlinks=True)
        else:
            shutil.copytree("/repo/src/tad_dftd4", d + "/src/tad_dftd4", ignore=shutil.ignore_patterns("__pycache__"))
        bad = False
        for f, old, new in ed:
            p = f"{d}/src/tad_dftd4/{f}"
            s = open(p).read()
            if old not in s:
                print("NOT FOUND", k, f, old[:70].replace("\n", "|"))
                bad = True
                break
            open(p, "w").write(s.replace(old, new))
        if bad:
            continue
        if tests:
            t = open("/opt/vp/test.sh").read().replace("cd /repo", f"cd {d}")
            open(d + ".sh", "w").write(t)
            jobs.append((k, d, None))
        else:
            os.makedirs(d + "/ev")
            jobs += [(k, d, p) for p in props]

    def one(j):
        k, d, p = j
        t = time.time()
        if p is None:
            subprocess.run(["bash", d + ".sh", d + ".json"], env={**os.environ, "PYTHONPATH": d + "/src"}, capture_output=True)
            res = json.load(open(d + ".json"))
            miss = sorted(set(json.load(open("/opt/vp/BASELINE.json"))["stable"]) - set(res["passed"]))
            return k, "tests", len(miss), str(miss[:4]), time.time() - t
        env = dict(os.environ, SA_REPO=d, SA_EVIDENCE=d + "/ev")
        r = subprocess.run([sys.executable, "-m", "sa", p], cwd=V, env=env, capture_output=True, text=True)
        return k, p, r.returncode, r.stdout + r.stderr[-800:], time.time() - t
    worst = {}
    n = next((int(a[2:]) for a in sys.argv if a.startswith("-j")), 7)
    res = {}
    with ThreadPoolExecutor(2 if tests else n) as ex:
        for k, p, rc, o, dt in ex.map(one, jobs):
            und = [x for x in o.splitlines() if "undecided:" in x]
            res.setdefault(k, []).append((p, rc, len(und)))
            if rc or dt > 300 or (und and "-v" in sys.argv):
                print(f"{k} {p} rc={rc} {dt:.0f}s")
                for x in [x for x in o.splitlines() if not x.startswith(("KNOWN", "  rule"))][:6 if rc else 4]:
                    print("    ", x[:260])
                sys.stdout.flush()
            if p == (props[-1] if not tests else "tests"):
                u = [(a, c) for a, b, c in res[k] if c]
                print("done", k, "FAILED" if any(b for _, b, _ in res[k]) else "clean", "undecided:", u)
                sys.stdout.flush()
finally:
    shutil.rmtree(ROOT)
