#!/usr/bin/env python3
"""writes MANIFEST.json from the registered checks and the not-applicable table"""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE); sys.dont_write_bytecode = True
from sa import registry
import sa.checks.all
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl")) if l.strip()]
na = json.load(open(os.path.join(HERE, "tools", "not_applicable.json")))
TECH = json.load(open(os.path.join(HERE, "tools", "technique.json")))
m = {"version": 1, "setup_cmd": "python3 run.py --setup", "checks": [], "not_applicable": [], "hooks": [],
     "notes": "Static analysis only: the sources are parsed by Jython's own parser and abstractly interpreted; nothing of /repo is executed."}
for p in props:
    i = p["id"]
    if i in registry.CHECKS and i not in na:
        m["checks"].append({"property": i, "quick_cmd": "python3 run.py %s --tier quick" % i, "thorough_cmd": "python3 run.py %s --tier thorough" % i,
                            "technique": "static analysis: " + TECH.get(i, {}).get("technique", "abstract interpretation with loop summaries, compared in normal form with a specification"),
                            "level": "other", "level_note": TECH.get(i, {}).get("note", "Obligations are decided for all inputs of the abstract semantics; an obligation the analysis cannot decide is listed as undecided in the evidence and never reported.")})
    else:
        m["not_applicable"].append({"property": i, "reason": na.get(i, "no check yet")})
m = {k: v for k, v in m.items() if v != [] or k in ("checks", "not_applicable")}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks,", len(m["not_applicable"]), "not applicable")
