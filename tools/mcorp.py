"""mcorp.py [-jN] [NAME...]: run the property's own check on each mutant of tools/muts/*.py; prints caught / MISSED."""
import glob, os, runpy, sys
from concurrent.futures import ThreadPoolExecutor
H = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, H)
from mut import run
M = {}
for f in sorted(glob.glob(H + "/muts/*.py")):
    M.update(runpy.run_path(f)["M"])
av = sys.argv[1:]
j = next((int(a[2:]) for a in av if a.startswith("-j")), 6)
names = [a for a in av if not a.startswith("-")] or list(M)
def one(n):
    p, ed = M[n]
    r = run(ed, [p] if isinstance(p, str) else p, show="-v" in av)
    print(n, p, "caught" if any(v == 1 for v in r.values()) else f"MISSED {r}", flush=True)
with ThreadPoolExecutor(j) as ex:
    list(ex.map(one, names))
