"""Shared campaign machinery of the checks: rounds within a budget, confirmation, shrinking and replay of failures."""
import json, os, random, time
from . import common, batch, oracle, shrink
from .common import CheckError

SHRINK_S = float(os.environ.get("DV_SHRINK", "45" if common.TIER == "quick" else "120"))
MAXV = 2


def rounds(rep, frac=1.0):
    """Yields round numbers until the budget is used or violations were found. At least one round always runs."""
    end = time.time() + common.budget() * frac
    k, longest = 0, 0.0
    while True:
        t = time.time()
        yield k
        longest = max(longest, time.time() - t)
        k += 1
        if len(rep.violations) >= MAXV or time.time() + longest * 0.6 > end:
            break
    rep.cov["rounds"] = rep.cov.get("rounds", 0) + k


def rseed(k, salt=0):
    return common.SEED * 1009 + k * 17 + salt * 100003


def case_json(**kw):
    return json.dumps(kw, indent=1)


def report_source(rep, what, data, lang, pred, kind, case, note="", seconds=None):
    """Shrinks a failing source with pred (bytes -> description or None), and records the violation."""
    first = None
    for _ in range(2):
        first = pred(data)
        if not first:
            rep.count("unconfirmed")
            return False
    small = shrink.shrink(data, pred, lang, SHRINK_S if seconds is None else seconds)
    d = pred(small) or first
    name = "source." + common.EXT[lang]
    rep.violation("%s: %s" % (what, d), {name: small, "original." + common.EXT[lang]: data,
                                         "case.json": case_json(kind=kind, lang=lang, source=name, **case)}, note)
    return True


def features(u):
    return [x for x in (u.used or ()) if not str(x).startswith("layout:")]
