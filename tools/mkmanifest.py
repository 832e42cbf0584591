#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the checks present."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
TLA = "explicit TLA+ specification evaluated with TLC"
TECH = {
    "default": TLA + ": observations of the real code (inputs, results, model membership of decisions) are checked against the specification's operators as a trace of events",
    "C13": TLA + ": exhaustive model checking of the on/off automaton against the window formulation; all schedules of every small unit and random systems replayed into the real model",
}
NOTE = {
    "default": "Trusts TLC, the numeric override spec/java/Num.java and the generators' reach; explores bounded random and enumerated instances, not all inputs.",
}
ENUM = json.load(open(os.path.join(V, "tools", "techniques.json"))) if os.path.exists(os.path.join(V, "tools", "techniques.json")) else {}
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(V, "harness", "check_%s.py" % i.lower())):
        checks.append(dict(property=i, quick_cmd="./check %s --tier quick" % i, thorough_cmd="./check %s --tier thorough" % i,
                           technique=ENUM.get(i, {}).get("technique", TECH.get(i, TECH["default"])), level="model_checking",
                           level_note=ENUM.get(i, {}).get("note", NOTE["default"])))
    else:
        na.append(dict(property=i, reason="no check has been built yet"))
m = dict(version=1, setup_cmd="true", checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
