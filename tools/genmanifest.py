#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the registered checks."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
sys.dont_write_bytecode = True
from pwsa import checks

NA = {
    "C30": "Bit-exactness of the quantisation is a numeric fact about float multiplication, rounding and bit widths over 2^64 component values; no dataflow or shape argument over the source bounds it, so it is left to numeric proof or testing. The codecs that use quantised vectors are analysed with a contract for this pair.",
    "C31": "Time and memory depend on counts, lengths and compression ratios that appear only at run time; the code has no structural bound (it trusts zlib and declared counts), so a static argument cannot give one.",
    "C32": "Whether names and layouts mean what the game means is a fact about the game's closed-source serialiser, which is not in this repository; no analysis of this source can decide it.",
}
TECH = checks.TECHNIQUE
props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
m = {
    "version": 1,
    "setup_cmd": "python3 -c \"import ast,sys; assert sys.version_info >= (3,9)\"",
    "checks": [],
    "not_applicable": [],
    "notes": "All checks are abstract interpretations or syntax-tree analyses of /repo's current source by /verif/pwsa (standard library only); nothing of /repo is imported or executed. See DESIGN.md.",
}
for p in props:
    i = p["id"]
    if i in checks.CHECKS:
        t = TECH[i]
        m["checks"].append(dict(property=i, quick_cmd="python3 check.py %s" % i, thorough_cmd="VERIF_TIER=thorough python3 check.py %s" % i, technique=t[0], level="other", level_note=t[1]))
    else:
        m["not_applicable"].append(dict(property=i, reason=NA.get(i, "No check built yet.")))
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks", [x["property"] for x in m["not_applicable"]])
