"""Write MANIFEST.json from the table below (python3 tools/gen_manifest.py)."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from sa.checks.registry import CHECKS
from sa.checks.meta import META, NOT_APPLICABLE

props = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for p in props:
    if p in CHECKS:
        t, note = META[p]
        checks.append({
            "property": p,
            "quick_cmd": f"python3 -m sa {p}",
            "thorough_cmd": f"python3 -m sa {p} --thorough",
            "evidence_file": f"evidence/{p}.json",
            "technique": t,
            "level": "other",
            "level_note": note,
        })
    else:
        na.append({"property": p, "reason": NOT_APPLICABLE.get(p, "check not built yet")})
m = {
    "version": 1,
    "setup_cmd": "python3 -c 'import sys; assert sys.version_info >= (3, 10); import sa.checks.registry'",
    "checks": checks,
    "not_applicable": na,
    "notes": "All checks are one static analyser (package sa, standard library only) that parses /repo's sources on "
             "every run, abstractly interprets the public entry points into a value graph and decides each property "
             "on that graph. See DESIGN.md.",
}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
