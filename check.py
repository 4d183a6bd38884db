#!/usr/bin/env python3
"""Decide one property of /repo's current source: check.py <property id> [--json]"""

import json
import os
import sys
import time

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)

from pwsa.interp import Source  # noqa: E402
from pwsa import checks  # noqa: E402

KNOWN = os.path.join(HERE, "known_findings.json")
EVD = os.environ.get("PWSA_EVIDENCE") or os.path.join(HERE, "evidence")


def known_for(pid):
    try:
        with open(KNOWN) as f:
            return [e for e in json.load(f)["findings"] if e["property"] == pid]
    except FileNotFoundError:
        return []


def main():
    pid = sys.argv[1]
    repo = os.environ.get("PWSA_REPO", "/repo")
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    src = Source(repo)
    try:
        res = checks.CHECKS[pid](src, tier)
    except checks.AnchorError as e:
        print("ERROR property=%s an anchor of the analysis is gone: %s" % (pid, e))
        return 2
    known = known_for(pid)
    new, seen = {}, {}
    for f in res.findings:
        k = f.key()
        hit = [e for e in known if e["key"] == k]
        if hit:
            seen[k] = hit[0]
        else:
            new.setdefault(k, []).append(f)
    und = [u for r in res.reports for u in r.undecided]
    part = sum(r.partitions for r in res.reports)
    ok = sum(r.ok for r in res.reports)
    many = {}
    for r in res.reports:
        for k, n in r.counts.items():
            many[k] = many.get(k, 0) + n
    fns = {}
    for r in res.reports:
        for (m, q), n in r.functions.items():
            fns["%s:%s" % (m, q)] = fns.get("%s:%s" % (m, q), 0) + n
    wall = time.time() - t0
    for r in res.reports:
        print("analysed %-70s partitions %5d  held %5d  rejected-by-code %5d  undecided %3d  obligations %6d" % (r.name[:70], r.partitions, r.ok, r.rejected, len(r.undecided), r.obligations))
    print("functions analysed: %d; rules: %s" % (len(fns), " | ".join(res.rules)))
    for u in und[:5]:
        print("undecided: %s %s" % (str(u[0])[:200], str(u[1])[-200:]))
    for k, e in seen.items():
        print("KNOWN-FINDING: property=%s %s" % (pid, e["what"]))
    os.makedirs(EVD, exist_ok=True)
    replay = os.path.join(EVD, pid + ".violation.txt")
    if new:
        with open(replay, "w") as f:
            for k, l in new.items():
                f.write("== %s (%d partitions)\n" % (k, many.get(k, len(l))))
                for x in l[:3]:
                    f.write("%s\n  scenario: %s\n" % (x, x.scenario))
                    for lab in x.labels:
                        f.write("    %s\n" % (lab,))
    elif os.path.exists(replay):
        os.remove(replay)
    cov = {
        "explanation": "Abstract interpretation of /repo's source (byte-provenance domain, trace partitioning on the discriminators the code tests, loops summarised by a generic iteration). A partition is one combination of discriminator outcomes; it is held when every obligation of the rule was discharged for it.",
        "rules": res.rules,
        "partitions": part,
        "partitions_held": ok,
        "partitions_rejected_by_code": sum(r.rejected for r in res.reports),
        "partitions_undecided": len(und),
        "obligations": sum(r.obligations for r in res.reports),
        "functions_analysed": len(fns),
        "functions": sorted(fns),
        "call_sites_entered": sum(fns.values()),
        "scenarios": [{"name": r.name, "partitions": r.partitions, "held": r.ok, "undecided": len(r.undecided), "obligations": r.obligations, "wall_s": round(r.wall, 2)} for r in res.reports],
        "undecided": [[str(u[0])[:300], str(u[1])[-300:]] for u in und[:20]],
        "samples": [{"scenario": f.scenario, "finding": repr(f)[:400]} for f in res.findings[:5]],
    }
    cov.update(res.extra)
    ev = {
        "property": pid,
        "tier": tier,
        "seed": seed,
        "level": "other",
        "coverage": cov,
        "assumptions": res.assumptions,
        "wall_s": round(wall, 3),
        "violations": sum(many.get(k, len(v)) for k, v in new.items()),
    }
    with open(os.path.join(EVD, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if new:
        for k, l in list(new.items())[:10]:
            print("  %s (%d partitions)" % (str(l[0])[:600], many.get(k, len(l))))
        print("VIOLATION property=%s replay=%s" % (pid, replay))
        return 1
    if res.errors:
        for e in res.errors:
            print("ERROR property=%s %s" % (pid, e))
        return 2
    print("OK property=%s (%.1f s)" % (pid, wall))
    return 0


if __name__ == "__main__":
    try:
        rc = main()
    except Exception as e:
        import traceback

        traceback.print_exc()
        print("ERROR property=%s the analysis failed: %s: %s" % (sys.argv[1], type(e).__name__, e))
        rc = 2
    sys.exit(rc)
