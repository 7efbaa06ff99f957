#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the checks that exist (run from /verif)."""
import json, os
props = [json.loads(l) for l in open("properties.jsonl")]
cfg = json.load(open("checks/config.json"))
checks, na = [], []
for p in props:
    i = p["id"]
    if i in cfg and os.path.exists("checks/%s.cpp" % i):
        c = cfg[i]
        checks.append(dict(property=i,
            quick_cmd="python3 tools/vp.py %s --tier quick" % i,
            thorough_cmd="python3 tools/vp.py %s --tier thorough" % i,
            evidence_file="evidence/%s.json" % i,
            technique=c.get("technique", "property-based testing: generated programs and schedules against a reference model, with shrinking"),
            level="exploration",
            level_note="Random search over generated cases (%s builds): no proof of absence. %s" % (", ".join(c["variants"]), c.get("note", "The generator and oracle are described in DESIGN.md section %s; trusts the compiler, the sanitizers and the replacement synchronisation primitives in lib/." % i))))
    else:
        na.append(dict(property=i, reason="check not built yet"))
m = dict(version=1, setup_cmd="bash tools/setup.sh", checks=checks, not_applicable=na,
         notes="Harnesses are built by tools/vp.py from checks/*.cpp against the headers in /repo/include on every run; no hooks in /repo are needed.")
json.dump(m, open("MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed;", len(na), "not claimed")
