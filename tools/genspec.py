#!/usr/bin/env python3
"""Records the document format of the tree at PWSA_REPO (default /repo) in spec/format.json."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)
from pwsa import checks, scen
from pwsa.interp import Source

src = Source(os.environ.get("PWSA_REPO", "/repo"))
out = {"shapes": {}, "tables": {t: scen.const_table(src, t) for t in ("PALWORLD_TYPE_HINTS", "PALWORLD_CUSTOM_PROPERTIES")}}
for name, rep in checks.shape_reports(src):
    assert not rep.undecided, (name, rep.undecided)
    out["shapes"][name] = scen.shape_entries(rep)
    print(name, rep.ok, len(out["shapes"][name]))
with open(os.path.join(H, "spec", "format.json"), "w") as f:
    f.write('{"tables": %s,\n "shapes": {\n' % json.dumps(out["tables"]))
    f.write(",\n".join("%s: [\n%s\n]" % (json.dumps(k), ",\n".join(json.dumps(e) for e in v)) for k, v in out["shapes"].items()))
    f.write("\n}}\n")
