"""Run one check: python3 -m sa.main ID"""
import importlib
import json
import os
import sys
import time
import traceback

from . import witness
from .build import VERIF, Broken
from .ctx import Ctx
from .report import Report

KNOWN = os.path.join(VERIF, "known-findings.txt")


def known_findings(pid):
    """lines: KNOWN property=ID key=<rule:site> <what fails>"""
    out = {}
    if not os.path.exists(KNOWN):
        return out
    for line in open(KNOWN):
        w = line.split(None, 3)
        if len(w) == 4 and w[0] == "KNOWN" and w[1] == "property=" + pid:
            out[w[2][len("key="):]] = w[3].strip()
    return out


def run(pid, ctx):
    t0 = time.time()
    mod = importlib.import_module("sa.checks." + pid.lower())
    rep = Report(pid)
    mod.check(ctx, rep)
    witness.check(ctx, rep, pid)
    rep.finish()
    known = known_findings(pid)
    new = []
    shown = set()
    for key, where, text in rep.viol:
        if key in known:
            if key not in shown:
                shown.add(key)
                print("KNOWN-FINDING: property=%s %s" % (pid, known[key]))
        else:
            new.append((key, where, text))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    total = sum(v for k, v in rep.counts.items() if k in rep.rules)
    ev = {
        "property": pid,
        "tier": ctx.tier,
        "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": "other",
        "coverage": {
            "explanation": mod.__doc__.strip(),
            "rules": rep.rules,
            "instances_per_rule": {k: rep.counts[k] for k in rep.rules},
            "counts": {k: v for k, v in rep.counts.items()
                       if k not in rep.rules},
            "obligations_examined": total,
            "known_findings": sorted(shown),
            "samples": rep.samples,
        },
        "assumptions": rep.assumptions,
        "wall_s": round(time.time() - t0, 2),
        "violations": len(new),
    }
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    path = os.path.join(VERIF, "evidence", pid + ".report.txt")
    with open(path, "w") as f:
        for key, where, text in new:
            f.write("%s\n  at %s\n  %s\n" % (key, where, text))
    for r in rep.rules:
        print("%s: rule %s: %d instances" % (pid, r, rep.counts[r]))
    if rep.counts.get("undecided"):
        print("%s: %d undecided" % (pid, rep.counts["undecided"]))
    if new:
        for key, where, text in new[:40]:
            print("%s: %s: %s" % (where, key, text))
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    print("%s: holds (%d obligations, %.1fs)" % (pid, total,
                                                 time.time() - t0))
    return 0


def main():
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    ctx = Ctx(tier)
    ids = sys.argv[1:]
    if ids == ["all"]:
        ids = sorted(f[:-3].upper() for f in
                     os.listdir(os.path.join(VERIF, "sa", "checks"))
                     if f[0] == "c" and f[1:3].isdigit()
                     and f.endswith(".py"))
    rc = 0
    try:
        for pid in ids:
            try:
                r = run(pid, ctx)
            except Broken as e:
                print("%s: ANALYSIS-BROKEN: %s" % (pid, e))
                r = 2
            except Exception:
                traceback.print_exc()
                print("%s: ANALYSIS-BROKEN: internal error" % pid)
                r = 2
            rc = max(rc, r)
    finally:
        ctx.close()
    return rc


if __name__ == "__main__":
    sys.exit(main())
