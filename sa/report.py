"""Collecting obligations, findings and evidence of one property check."""
from __future__ import annotations

import hashlib
import json
import os
import time

from . import expr as X
from . import canon as C
from . import rand, iso

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def locstr(loc):
    if not loc:
        return ""
    from .interp import REPO
    p = loc[0]
    try:
        p = os.path.relpath(p, REPO)
    except ValueError:
        pass
    return f"{p}:{loc[1]} ({loc[2]})"


class Anchor(Exception):
    """a public anchor of the property is gone"""


class Report:
    def __init__(self, prop, tier="quick"):
        self.prop = prop
        self.tier = tier
        self.t0 = time.time()
        self.ok_ = []
        self.bad_ = []
        self.und_ = []
        self.functions = set()
        self.paths = 0
        self.nodes = 0
        self.sites = 0
        self.rules = []
        self.assumptions = []
        self.unsupported = {}
        self.data = {}
        self.known_hit = []
        self.deferred = []
        self.spent = 0.0            # time spent on expensive normal forms

    # ---------------------------------------------------------------- results
    def ok(self, name, n=1):
        self.ok_.append(name)

    def bad(self, key, msg, loc=None, **detail):
        if any(b["key"] == key for b in self.bad_):
            return
        rand.FOUND[0] = sum(1 for b in self.bad_ if b["key"] not in self.known()) + 1
        self.bad_.append({"key": key, "message": msg, "location": locstr(loc) if not isinstance(loc, str) else loc,
                          "detail": detail})

    def undecided(self, name, why):
        self.und_.append((name, str(why)[:300]))

    def defer(self, size, fn):
        """run at the end of the check, cheapest first"""
        self.deferred.append((size, len(self.deferred), fn))

    def flush(self):
        while self.deferred:
            d, self.deferred = sorted(self.deferred, key=lambda t: t[:2]), []
            for _, _, fn in d:
                fn()

    def rule(self, text):
        self.rules.append(text)

    def assume(self, *texts):
        for t in texts:
            if t not in self.assumptions:
                self.assumptions.append(t)

    def seen(self, runs):
        for r in runs:
            self.functions |= r.machine.functions
            self.paths += 1
            for w, l in r.machine.unsupported:
                self.unsupported.setdefault(w, locstr(l))

    def count(self, *es):
        self.nodes += sum(1 for _ in X.walk(*es))

    # ------------------------------------------------------------ equalities
    def equal(self, name, got, want, free, loc=None, what="value", trials=60, key=None, suspect=False, gated=False):
        """obligation: got == want for all indices and leaf values"""
        self.count(got)
        try:
            if iso.key(got) == iso.key(want):
                self.ok(name)
                return True
            if rand.FOUND[0] >= 4:
                self.undecided(name, "not pursued, enough violations confirmed")
                return None
            w = None
            if iso.size(got) > 1500 or suspect:
                # a cheap second opinion tells how much effort a proof deserves; it never decides alone
                try:
                    w = rand.distinguish(got, want, free, trials=30 if suspect else 8, per_call=6.0 if suspect else 3.0, gated=gated)
                except (rand.Undecidable, RecursionError, OverflowError):
                    w = None
            t0 = time.monotonic()
            same = False
            try:
                with C.budget(8 if w is not None else 20 if self.spent < 100 else 2):
                    same = C.same(got, want) if iso.size(got) <= 4000 else iso.same(got, want)
            except (C.TooBig, RecursionError, KeyError, ValueError, ZeroDivisionError, AttributeError, TypeError):
                if w is None:
                    raise
            finally:
                dt = time.monotonic() - t0
                self.spent += dt if dt > 2 else 0
            if w is not None and not same:
                self._report(name, got, want, loc, what, key, w)
                return False
            if same:
                self.ok(name)
                return True
            reason = "canonical forms differ"
        except (C.TooBig, RecursionError, KeyError, ValueError, ZeroDivisionError, AttributeError, TypeError) as e:
            reason = f"no canonical form ({type(e).__name__})"
        self.defer(iso.size(got) + iso.size(want),
                   lambda: self._refute(name, got, want, free, loc, what, trials, key, reason, gated))
        return None

    def _refute(self, name, got, want, free, loc, what, trials, key, reason, gated=False):
        try:
            w = rand.distinguish(got, want, free, trials=trials, gated=gated)
        except rand.Undecidable as u:
            self.undecided(name, f"{reason}; interpretation undecidable: {u}")
            return
        except (RecursionError, OverflowError) as u:
            self.undecided(name, f"{reason}; {u}")
            return
        if w is None:
            self.undecided(name, f"{reason}, but no valuation separates them")
            return
        self._report(name, got, want, loc, what, key, w)

    def _report(self, name, got, want, loc, what, key, w):
        diff = []
        try:
            with C.budget(5):
                diff = C.diff_paths(got, want)
        except Exception:
            pass
        self.bad(key or name, f"{what} is not the required expression", loc or X.LOC.get(got.id),
                 difference=[f"under [{p}]: {d}"[:600] for p, d in diff], witness=w,
                 got=X.show(got, 12)[:1500], want=X.show(want, 12)[:1500])


    # --------------------------------------------------------------- output
    def known(self):
        p = os.path.join(VERIF, "known_findings.json")
        if not os.path.exists(p):
            return {}
        with open(p) as f:
            d = json.load(f)
        return {k["key"]: k for k in d.get("known", []) if k["property"] == self.prop}

    def finish(self, seed):
        kn = self.known()
        viol, seen = [], set()
        for b in self.bad_:
            if b["key"] in kn:
                if b["key"] not in seen:
                    print(f"KNOWN-FINDING: property={self.prop} {kn[b['key']]['what']}")
                    self.known_hit.append(b["key"])
                seen.add(b["key"])
            else:
                viol.append(b)
        n = len(self.ok_) + len(self.bad_) + len(self.und_)
        return viol, n
