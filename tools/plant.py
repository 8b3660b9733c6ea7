"""Try a planted bug in a scratch copy: python3 tools/plant.py SPEC.py [--keep]

SPEC defines ID, PROPERTY, NEEDS, BREAKS, EDITS = [(file, old, new), ...] and DEMO (Python source; exit 0 unchanged).
With --keep the bug is stored below seeded/ when it builds, passes the stable tests and its demonstration separates it.
Prints which checks report it (run with SA_REPO pointing at the scratch copy)."""
import json, os, runpy, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
spec = runpy.run_path(sys.argv[1])
keep = "--keep" in sys.argv
props = [a for a in sys.argv[2:] if a.startswith("C")] or [spec["PROPERTY"]]
W = tempfile.mkdtemp(prefix="plant", dir="/tmp")
R = W + "/repo"
DEMO = """#!/bin/bash
# exit 0: property holds; nonzero: broken.  Run with the repository as working directory.
export PYTHONPATH="$PWD/src" PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1
exec /opt/venv/bin/python "$(dirname "$0")/demo.py"
"""
try:
    shutil.copytree("/repo", R, symlinks=True)
    D = W + "/seed"
    os.mkdir(D)
    open(D + "/demo.sh", "w").write(DEMO)
    os.chmod(D + "/demo.sh", 0o755)
    open(D + "/demo.py", "w").write(spec["DEMO"].lstrip())
    base = subprocess.run(["bash", D + "/demo.sh"], cwd=R, capture_output=True, text=True)
    for f, old, new in spec["EDITS"]:
        p = f"{R}/src/tad_dftd4/{f}"
        s = open(p).read()
        assert s.count(old) == 1, (f, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    diff = subprocess.run(["git", "diff"], cwd=R, capture_output=True, text=True).stdout
    bug = subprocess.run(["bash", D + "/demo.sh"], cwd=R, capture_output=True, text=True)
    print("demo unchanged:", base.returncode, base.stderr[-300:], " patched:", bug.returncode, bug.stderr[-300:])
    t = open("/opt/vp/test.sh").read().replace("cd /repo", f"cd {R}")
    open(W + "/t.sh", "w").write(t)
    out = W + "/out.json"
    if "--notest" not in sys.argv:
        subprocess.run(["bash", W + "/t.sh", out], env={**os.environ, "PYTHONPATH": R + "/src"}, capture_output=True)
        res = json.load(open(out))
        miss = sorted(set(json.load(open("/opt/vp/BASELINE.json"))["stable"]) - set(res["passed"]))
        print("stable tests failing:", len(miss), miss[:5])
    else:
        miss = []
    good = base.returncode == 0 and bug.returncode != 0 and not miss
    for p in props:
        r = subprocess.run([sys.executable, "-m", "sa", p], cwd=HERE, env={**os.environ, "SA_REPO": R},
                           capture_output=True, text=True)
        print(f"check {p}: exit {r.returncode}")
        print("\n".join("   " + l[:260] for l in r.stdout.splitlines() if not l.startswith("  rule"))[:2500], r.stderr[-500:])
    if keep and good:
        T = f"{HERE}/seeded/{spec['ID']}"
        shutil.rmtree(T, ignore_errors=True)
        shutil.copytree(D, T)
        shutil.rmtree(T + "/__pycache__", ignore_errors=True)
        open(T + "/patch.diff", "w").write(diff)
        json.dump({"property": spec["PROPERTY"], "needs": spec["NEEDS"], "what_it_breaks": spec["BREAKS"]},
                  open(T + "/meta.json", "w"), indent=1)
        print("kept", T)
    elif keep:
        print("NOT kept")
finally:
    shutil.rmtree(W)
