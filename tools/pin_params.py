"""Record the published parameter blocks (run once on a tree whose data are known to be right)."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sa.checks import data
out = {}
for meth, (p, tab) in data.toml_files().items():
    out[meth] = {f: {v: data.strip(b) for v, b in s.get(meth, {}).items()} for f, s in tab["parameter"].items() if meth in s}
json.dump(out, open(data.PARAMS, "w"), indent=0, sort_keys=True)
print({k: sum(len(x) for x in v.values()) for k, v in out.items()})
