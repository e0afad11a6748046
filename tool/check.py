#!/usr/bin/env python3
"""Run the check of one property on /repo's current source.

  check.py P01         exit 0: every obligation of the property is discharged (or only listed
                       known findings are open); exit 1 and a VIOLATION line otherwise;
                       exit 2: /repo does not compile or the tool could not run.
"""
import importlib
import json
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)

import extract
import lib


def known_findings():
    """{(property, key): text} of the open findings; `fixed:` lines suppress nothing."""
    r = {}
    p = os.path.join(ROOT, "known-findings.txt")
    for line in open(p):
        line = line.strip()
        if not line.startswith("known: "):
            continue
        head, _, text = line[len("known: "):].partition(" -- ")
        prop, _, key = head.partition(" ")
        r[(prop.split("=", 1)[1], key.split("=", 1)[1])] = text
    return r


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    ctx = lib.Ctx(pid, tier)
    mod = importlib.import_module("props." + pid.lower())
    try:
        ctx.P
    except extract.ExtractError as e:
        print("ERROR: %s" % e, file=sys.stderr)
        return 2
    try:
        mod.run(ctx)
    except lib.ANALYSIS_ERRORS as e:
        if os.environ.get("LS_DEBUG"):
            raise
        traceback.print_exc()
        ctx.fail("anchors", "", "analysis could not establish this: %s: %s" % (type(e).__name__, e))
    floor = getattr(mod, "FLOOR", 1)
    if len(ctx.obs) < floor and all(o[1] for o in ctx.obs):
        ctx.fail("floor", "", "only %d obligations were generated, at least %d are known to exist" % (len(ctx.obs), floor))
    known = known_findings()
    bad, listed = [], []
    for name, ok, where, detail in ctx.obs:
        if not ok:
            (listed if (pid, name) in known else bad).append((name, where, detail))
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": getattr(mod, "LEVEL", "other"),
        "coverage": {
            "explanation": " ".join(mod.__doc__.split()),
            "rules": ctx.rules,
            "obligations": len(ctx.obs),
            "discharged": sum(1 for o in ctx.obs if o[1]),
            "functions_analysed": sorted(ctx.fnames()),
            "obligation_list": ["%s: %s @ %s" % ("ok" if o[1] else "OPEN", o[0], o[2]) for o in ctx.obs],
            "exhaustive": True,
        },
        "assumptions": ctx.assume,
        "violations": len(bad),
        "wall_s": round(time.time() - t0, 3),
    }
    if ctx.stats:
        ev["coverage"]["measured"] = ctx.stats
    path = os.path.join(ROOT, "evidence", pid + ".json")
    with open(path + ".%d.tmp" % os.getpid(), "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(path + ".%d.tmp" % os.getpid(), path)
    rp = os.path.join(ROOT, "evidence", pid + ".violations.txt")
    if os.path.exists(rp):
        os.unlink(rp)
    for name, where, detail in listed:
        print("KNOWN-FINDING: property=%s %s: %s" % (pid, name, known[(pid, name)]))
    print("%s: %d obligations, %d discharged, %d functions analysed, %.1fs" % (
        pid, len(ctx.obs), ev["coverage"]["discharged"], len(ctx.funcs), ev["wall_s"]))
    if bad:
        with open(rp, "w") as f:
            for name, where, detail in bad:
                f.write("property %s, rule instance: %s\n  at: %s\n  %s\n" % (pid, name, where, detail))
        for name, where, detail in bad[:20]:
            print("  open: %s\n    at %s\n    %s" % (name, where, detail[:600]))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    return 0


if __name__ == "__main__":
    sys.exit(main())
