"""Record digests of the published tables (run once on a tree whose data are known to be right)."""
import json, os, sys, hashlib
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(40000)
from sa import tables
from sa.interp import Machine
from sa.checks.model import load_tables
from sa.checks.data import table_rows
m = Machine(); load_tables(m)
out = {}
for n in list(tables.HOME) + list(tables.FUNC):
    t = tables.value(m, n)
    rows = table_rows(m, t)
    out[n] = {"shape": list(t.shape), "digest": t.info.get("table"), "rows": rows}
json.dump(out, open(tables.PIN, "w"), indent=0)
