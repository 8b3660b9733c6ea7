"""python3 -m sa <property> : run one check (see DESIGN.md)."""
from __future__ import annotations

import json
import os
import sys
import time
import traceback

from . import interp
from .report import Report, Anchor, VERIF
from .ctx import AnchorMissing


class TimeUp(BaseException):
    pass


ALARM = [None]


def alarm(seconds):
    """TimeUp is raised in the analysis thread after so many seconds (0: never)"""
    ALARM[0] = time.monotonic() + seconds if seconds else None


def main(argv):
    prop = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in argv:
        tier = "thorough"
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    from .checks.registry import CHECKS
    fn = CHECKS[prop]
    rep = Report(prop, tier)
    t0 = time.monotonic()
    from . import rand
    rand.DEADLINE[0] = time.monotonic() + (300 if tier == "quick" else 2400)
    limit = 540 if tier == "quick" else 3600
    alarm(limit)
    try:
        try:
            fn(rep)
        except TimeUp:
            rep.undecided("analysis", f"remaining obligations not analysed within {limit} s")
            rand.DEADLINE[0] = time.monotonic() + 100
        alarm(max(150, limit - int(time.monotonic() - t0)))
        rand.DEADLINE[0] = max(rand.DEADLINE[0], time.monotonic() + 120)
        rep.flush()
        alarm(0)
    except TimeUp:
        rep.undecided("analysis", f"remaining differences not examined within {limit} s")
    except (Anchor, AnchorMissing) as e:
        print(f"ERROR: anchor of {prop} not found: {e}")
        return 3
    except Exception:
        # an analyser fault is not a verdict about the code: recorded, no alarm
        rep.undecided("analysis", traceback.format_exc()[-280:])
        traceback.print_exc()
        try:
            alarm(150)
            rep.flush()
        except (Exception, TimeUp):
            traceback.print_exc()
    alarm(0)
    viol, n = rep.finish(seed)
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "other",
        "coverage": {
            "explanation": "static analysis of the sources below " + os.path.join(interp.SRC, interp.PKG)
                           + ": " + "; ".join(rep.rules),
            "obligations": n, "discharged": len(rep.ok_), "undecided": len(rep.und_),
            "violated": len(rep.bad_), "known": len(rep.known_hit),
            "functions_analysed": sorted(rep.functions)[:400], "n_functions": len(rep.functions),
            "paths": rep.paths, "value_graph_nodes": rep.nodes, "sites": rep.sites,
            "obligation_names": rep.ok_[:400],
            "undecided_obligations": rep.und_[:60],
            "unmodelled_constructs": [f"{k} at {v}" for k, v in list(rep.unsupported.items())[:40]],
            **rep.data,
        },
        "assumptions": rep.assumptions,
        "wall_s": round(time.time() - rep.t0, 3),
        "violations": len(viol),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    print(f"{prop}: {n} obligations, {len(rep.ok_)} discharged, {len(rep.und_)} undecided, {len(viol)} violated; "
          f"{len(rep.functions)} functions, {rep.paths} paths, {rep.nodes} graph nodes, {rep.sites} sites "
          f"[{ev['wall_s']} s]")
    for r in rep.rules:
        print("  rule:", r)
    for name, why in rep.und_[:10]:
        print(f"  undecided: {name}: {why}")
    if not viol:
        return 0
    for k, b in enumerate(viol):
        path = os.path.join(VERIF, "evidence", f"{prop}-violation-{k + 1}.json")
        with open(path, "w") as f:
            json.dump(b, f, indent=1, default=str)
        print(f"  {b['key']}: {b['message']} at {b['location'] or 'unknown location'}")
        for d in b["detail"].get("difference", [])[:2]:
            print("     ", d[:300])
        print(f"VIOLATION property={prop} replay={path}")
    return 1


if __name__ == "__main__":
    sys.setrecursionlimit(40000)
    import threading
    threading.stack_size(512 * 1024 * 1024)
    out = []
    t = threading.Thread(target=lambda: out.append(main(sys.argv[1:])), daemon=True)
    t.start()
    import ctypes
    while t.is_alive():
        t.join(0.5)
        if ALARM[0] is not None and time.monotonic() > ALARM[0]:
            ALARM[0] = None
            ctypes.pythonapi.PyThreadState_SetAsyncExc(ctypes.c_ulong(t.ident), ctypes.py_object(TimeUp))
    sys.exit(out[0] if out else 3)
