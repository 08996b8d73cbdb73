#!/usr/bin/env python3
"""Decide one property of /repo by static analysis of its current source."""
import argparse
import importlib
import json
import os
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
EVIDENCE = os.environ.get("VERIF_EVIDENCE") or os.path.join(HERE, "evidence")
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)


def known_findings():
    with open(os.path.join(HERE, "known_findings.json")) as f:
        d = json.load(f)
    return d.get("findings", [])


def run_property(pid, tier, seed, program=None):
    from sa.program import Program
    from sa.ctx import Ctx
    p = program or Program()
    ctx = Ctx(p, pid, tier, seed)
    mod = importlib.import_module("sa.rules." + pid.lower())
    mod.check(ctx)
    return ctx, mod


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--selftest", action="store_true")
    ap.add_argument("--all", action="store_true")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    if a.selftest:
        from sa import selftest
        sys.exit(selftest.main())
    if a.all:
        from sa.program import Program
        rc = 0
        for f in sorted(os.listdir(os.path.join(HERE, "sa", "rules"))):
            if f.startswith("c") and f[1:3].isdigit():
                rc |= report(f[:-3].upper(), a.tier, a.v)
        sys.exit(rc)
    sys.exit(report(a.property, a.tier, a.v))


def report(pid, tier, verbose=False):
    from sa.program import AnalysisBroken
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    try:
        ctx, mod = run_property(pid, tier, seed)
    except AnalysisBroken as e:
        print("ANALYSIS-BROKEN property=%s %s" % (pid, e))
        return 2
    listed = dict(((k["property"], k["key"]), k) for k in known_findings())
    bad, known, und, held = [], [], [], []
    for key, v, d, w in ctx.obs:
        if v == "violated":
            (known if (pid, key) in listed else bad).append((key, d, w))
        elif v == "undecided":
            und.append((key, d, w))
        else:
            held.append((key, d, w))
    floor = getattr(mod, "MINIMUM", 1)
    if len(ctx.obs) < floor and (und or bad or
                                 2 * len(ctx.obs) >= floor):
        print("INCOMPLETE property=%s %d of at least %d obligations reached; "
              "%d undecided" % (pid, len(ctx.obs), floor, len(und)))
    elif len(ctx.obs) < floor:
        print("ANALYSIS-BROKEN property=%s only %d obligations found, at "
              "least %d confirmed by hand" % (pid, len(ctx.obs), floor))
        return 2
    wall = time.time() - t0
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "other",
        "wall_s": round(wall, 3),
        "coverage": {
            "explanation": getattr(mod, "EXPLAIN", mod.__doc__ or ""),
            "rule": (mod.__doc__ or "").strip(),
            "obligations": len(ctx.obs),
            "discharged": len(held),
            "undecided": [{"obligation": k, "reason": d} for k, d, w in und],
            "known_findings": [{"obligation": k, "what": d, "where": w}
                               for k, d, w in known],
            "violations": [{"obligation": k, "what": d, "where": w}
                           for k, d, w in bad],
            "functions_analysed": sorted(ctx.functions),
            "functions": len(ctx.functions),
            "call_sites_resolved": ctx.callsites,
            "modules_parsed": len(ctx.p.modules),
            "samples": [{"obligation": k, "result": d, "where": w}
                        for k, d, w in held],
        },
    }
    ev["coverage"].update(ctx.notes)
    os.makedirs(EVIDENCE, exist_ok=True)
    with open(os.path.join(EVIDENCE, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, sort_keys=True, default=str)
        f.write("\n")
    for k, d, w in known:
        print("KNOWN-FINDING: property=%s %s: %s [%s]" % (
            pid, k, listed[(pid, k)].get("what", d), w))
    if verbose:
        for k, d, w in held:
            print("  hold      %s  %s" % (k, d[:150]))
    if verbose or os.environ.get("VERIF_DEBUG"):
        for k, d, w in und:
            print("  undecided %s  %s" % (k, d[:200]))
    for k, d, w in bad:
        print("  violated  %s: %s [%s]" % (k, d, w))
    if bad:
        rp = os.path.join(EVIDENCE, pid + ".violation.json")
        with open(rp, "w") as f:
            json.dump([{"obligation": k, "what": d, "where": w}
                       for k, d, w in bad], f, indent=1)
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    print("property %s: %d obligations, %d hold, %d known finding(s), %d "
          "undecided, %d functions, %.1f s" % (
              pid, len(ctx.obs), len(held), len(known), len(und),
              len(ctx.functions), wall))
    return 0


if __name__ == "__main__":
    main()
