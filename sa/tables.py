"""Reference tables by their published name, wherever the repository keeps them."""
from __future__ import annotations

import json
import os

from .values import *
from .ctx import get, call, all_modules, AnchorMissing
from . import ctx

HOME = {"refcovcn": "reference.d4.params", "refalpha": "reference.d4.params", "refascale": "reference.d4.params",
        "refscount": "reference.d4.params", "refsys": "reference.d4.params", "refc": "reference.d4.params",
        "secscale": "reference.d4.params", "secalpha": "reference.d4.params",
        "clsq": "reference.d4.charge_eeq", "clsh": "reference.d4.charge_eeq",
        "refq": "reference.d4.charge_gfn2", "refh": "reference.d4.charge_gfn2"}
FUNC = {"r4r2": "data.r4r2:R4R2", "wfpair": "data.wfpair:WFPAIR"}
PIN = os.path.join(os.path.dirname(os.path.abspath(__file__)), "data", "tables.json")


def pinned():
    with open(PIN) as f:
        return json.load(f)


def value(m, name):
    """the tensor value the repository keeps under that name"""
    if name in FUNC:
        return call(m, FUNC[name], dtype=Dtype("f64"), device=Device("dev"), epoch=0)
    return get(m, HOME[name] + ":" + name)


def names(m):
    """published name -> table name in the value graph"""
    pins = pinned()
    have = set()
    for mod in list(m.modules.values()):
        for v in mod.dict.values():
            if isinstance(v, T) and "table" in v.info:
                have.add(v.info["table"])
    out = {}
    for n in list(HOME) + list(FUNC):
        try:
            t = value(m, n)
            tn = t.info.get("table") if isinstance(t, T) else None
        except (AnchorMissing, AbsRaise):
            tn = None
        p = pins.get(n, {}).get("digest")
        if p in have or tn is None:
            tn = p
        out[n] = tn
    return out
