#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json for the properties that have a check."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from sa import props
TECH = {
    "C17": "table analysis on syntax trees, abstract interpretation", "C18": "table analysis on syntax trees",
    "C19": "table analysis on syntax trees", "C20": "dataflow and effect rules on the syntax tree",
    "C16": "effect analysis and abstract interpretation",
}
NA = {
    "C23": "Running time is a runtime quantity: a bound for every text needs amortised cost arguments about CPython's "
           "string, list and regular-expression primitives that no static analysis in reach establishes.",
    "C24": "The right value of phrases outside the well-formed grammar is fixed nowhere, so there is no oracle a static "
           "rule could compare the code with.",
}
ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"), encoding="utf-8")]
checks, na = [], []
for i in ids:
    if i in props.MAKE:
        checks.append({
            "property": i, "quick_cmd": "./check %s --tier quick" % i, "thorough_cmd": "./check %s --tier thorough" % i,
            "technique": "static analysis: " + TECH.get(i, "abstract interpretation of the source over automata of texts"),
            "level": "other",
            "level_note": props.META[i].get("note") or
                "Sound up to the analyser's models of Python built-ins for every input its input automata describe; "
                "obligations it cannot decide are listed as undecided in the evidence and raise no alarm."})
    else:
        na.append({"property": i, "reason": NA.get(i, "no sound check built yet")})
json.dump({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na},
          open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", [x["property"] for x in na])
