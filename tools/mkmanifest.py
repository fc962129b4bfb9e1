#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the list below (run after changing what is claimed)."""
import json, os, sys
sys.dont_write_bytecode = True
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/lib")
import registry

FS = ("TLA+ contract PkgFS.tla: TLC explores it exhaustively on small constants (MC_FS, with independently stated contract "
      "properties), every transition of the state graph is replayed on the real code, and random histories recorded from the "
      "real code are checked by TLC against the same contract (FSTrace)")
NOTE = {
    "fs": "exhaustive for the model constants (2-3 names, depth 2-3, 1-3 handles), every transition replayed; longer histories "
          "with arbitrary spellings, contents and both packages are sampled",
}
TECH = {p: ("model_checking", FS, NOTE["fs"]) for p in
        ("C01", "C02", "C03", "C04", "C05", "C06", "C07", "C10", "C22", "C23", "C24", "C25")}
try:
    TECH.update(registry.TECH)
except AttributeError:
    pass

props = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
checks, na = [], []
for p in props:
    if p in registry.CHECKS:
        level, tech, note = TECH[p]
        checks.append(dict(property=p, quick_cmd="python3 check.py %s quick" % p, thorough_cmd="python3 check.py %s thorough" % p,
                           technique=tech, level=level, level_note=note))
    else:
        na.append(dict(property=p, reason="check under construction"))
m = dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=na)
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
