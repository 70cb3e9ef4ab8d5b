#!/usr/bin/env python3
"""check.py <property id>: decide one property for /repo's current source."""
import importlib
import json
import os
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
from lib import ctx as C, build, findings  # noqa: E402


def main():
    if len(sys.argv) > 1 and sys.argv[1] == "--setup":
        build.build_tools()
        print("tools built in", build.BUILD)
        return 0
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    t0 = time.time()
    c = C.Ctx(tier)
    try:
        mod = importlib.import_module("rules." + pid.lower())
        r = mod.run(c)
        broken = ["%s: found %d, expected at least %d" % (k, r.counts.get(k, 0), v)
                  for k, v in r.minimums.items() if r.counts.get(k, 0) < v]
    finally:
        c.close()
    known = findings.load(pid)
    listed, fresh = [], []
    for v in r.violations:
        k = findings.match(known, v)
        (listed if k else fresh).append((v, k))
    vdir = os.environ.get("LINTEL_EVIDENCE") or os.path.join(build.VERIF, "evidence")
    os.makedirs(vdir, exist_ok=True)
    replay = os.path.join("evidence", pid + ".violations.json")
    ev = {
        "property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "other",
        "coverage": {
            "explanation": getattr(mod, "__doc__", "").strip() + " Rules: " + "; ".join(r.rules),
            "counts": r.counts, "minimums_confirmed_by_hand": r.minimums,
            "samples": r.samples,
            "known_findings_reported": [k for _, k in listed],
        },
        "assumptions": r.assumptions, "wall_s": round(time.time() - t0, 2), "violations": len(fresh),
    }
    ev["coverage"].update({k: v for k, v in r.counts.items() if k not in ev["coverage"] and k in ("obligations", "discharged")})
    with open(os.path.join(vdir, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    with open(os.path.join(vdir, pid + ".violations.json"), "w") as f:
        json.dump([v for v, _ in fresh], f, indent=1)
    seen = set()
    for v, k in listed:
        line = "KNOWN-FINDING: property=%s %s" % (pid, k)
        if line not in seen:
            seen.add(line)
            print(line)
    print("%s: %s" % (pid, ", ".join("%s=%s" % kv for kv in sorted(r.counts.items()))))
    if fresh:
        for v, _ in fresh[:25]:
            print("  %s: [%s] %s: %s" % (v["where"], v["rule"], v["construct"], v["text"]))
        print("VIOLATION property=%s replay=%s" % (pid, replay))
        return 1
    if broken:
        print("ANALYSIS BROKEN: " + "; ".join(broken))
        return 3
    print("%s holds (%.1fs)" % (pid, time.time() - t0))
    return 0


if __name__ == "__main__":
    try:
        rc = main()
    except build.AnalysisBroken as e:
        print("ANALYSIS BROKEN:", e)
        rc = 3
    except Exception:
        traceback.print_exc()
        print("ANALYSIS BROKEN: internal error")
        rc = 3
    sys.stdout.flush()
    os._exit(rc)
