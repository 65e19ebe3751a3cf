#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]: decides one property of /repo by static analysis.

Exit 0: the property held on everything analysed.  Exit 1: VIOLATION lines name the constructs.
"""
import json
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "sa"))
sys.setrecursionlimit(20000)

import build  # noqa: E402
import registry  # noqa: E402

EVID = os.path.join(HERE, "evidence")


def known(prop):
    """Findings listed in known_findings.txt for this property: list of (key, text)."""
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    with open(p) as f:
        for line in f:
            line = line.strip()
            if line.startswith("finding: property=%s " % prop):
                rest = line.split(" ", 2)[2]
                key, _, text = rest.partition(" :: ")
                out.append((key.strip(), text.strip()))
    return out


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER") or "quick"
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED") or 1)
    t0 = time.time()
    os.makedirs(EVID, exist_ok=True)
    run = registry.CHECKS[prop]
    undecided = []
    viol = []
    cov = {}
    assumptions = []
    try:
        r = run(tier)
        viol, undecided, cov, assumptions = r.violations, r.undecided, r.coverage, r.assumptions
    except build.BuildError as e:
        # the public interface the property speaks about is gone, or the code does not compile
        if "error[E" not in str(e):
            undecided = ["internal: " + str(e)[-3000:]]
        else:
            viol = [{"key": "anchor", "msg": "the code under analysis cannot be built against its public interface",
                     "detail": str(e)[-3000:]}]
        cov = {"explanation": "build failed"}
    except Exception:
        undecided = ["internal: " + traceback.format_exc()[-3000:]]
        cov = {"explanation": "the analysis gave up; nothing is claimed for this run"}
    listed = known(prop)
    new = []
    for v in viol:
        hit = [t for k, t in listed if k == v["key"]]
        if hit:
            v["known"] = hit[0]
        else:
            new.append(v)
    for t in sorted({v["known"] for v in viol if "known" in v}):
        print("KNOWN-FINDING: property=%s %s" % (prop, t))
    cov.setdefault("explanation", "")
    cov["undecided"] = undecided[:40]
    ev = {"property": prop, "tier": tier, "seed": seed, "level": registry.LEVELS.get(prop, "other"), "coverage": cov,
          "assumptions": assumptions, "wall_s": round(time.time() - t0, 2), "violations": len(new)}
    if new:
        ev["violation_list"] = [{k: v[k] for k in v if k != "detail"} for v in new[:40]]
    with open(os.path.join(EVID, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
        f.write("\n")
    for u in undecided[:10]:
        print("UNDECIDED property=%s %s" % (prop, u.splitlines()[-1][:300] if u else u))
    if new:
        rp = os.path.join(EVID, "replay-%s.json" % prop)
        with open(rp, "w") as f:
            json.dump({"property": prop, "violations": new[:40], "rerun": "python3 check.py %s --tier %s" % (prop, tier)},
                      f, indent=1, default=str)
            f.write("\n")
        for v in new[:12]:
            print("VIOLATION property=%s replay=%s" % (prop, rp))
            print("  %s" % v["msg"][:400])
            for l in v.get("where", [])[-6:]:
                print("    at %s" % l)
        return 1
    print("OK property=%s %s (%.1fs)" % (prop, cov["explanation"][:300], time.time() - t0))
    return 0


if __name__ == "__main__":
    sys.exit(main())
