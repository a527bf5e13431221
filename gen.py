#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props.py."""
import json
from props import P

TECH = ("stateless bounded-exhaustive model checking of the implementation "
        "(own explorer: all choices, operation sequences and, where threads "
        "are involved, all schedules up to a preemption bound) against a "
        "reference model")

with open("properties.jsonl", "w") as f:
    for p in P:
        a = dict(files=p["files"],
                 mechanism=[dict(name=n, where=w) for n, w in p["mech"]])
        if p["observe"]:
            a["observe_at"] = p["observe"]
        if p["state"]:
            a["state"] = [dict(name=n, meaning=m, where=w)
                          for n, m, w in p["state"]]
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(dict(
            id=p["id"], title=p["title"], statement=p["statement"],
            quantifier=dict(over=p["over"], text=p["text"]),
            why_tests_cant=p["why"], anchors=a)) + "\n")

checks, na = [], []
for p in P:
    if p["na"] or not p["runs"]:
        na.append(dict(property=p["id"], reason=p["na"]))
        continue
    sc = sorted(set(r["scenario"] for r in p["runs"]))
    checks.append(dict(
        property=p["id"], quick_cmd="python3 run.py %s --tier quick" % p["id"],
        thorough_cmd="python3 run.py %s --tier thorough" % p["id"],
        evidence_file="evidence/%s.json" % p["id"],
        technique=TECH, level="model_checking",
        level_note=(p["note"] + " " if p["note"] else "")
        + "real code, every execution within the bounds: " + p["text"]
        + " (scenarios " + ", ".join(sc) + ")"))
m = dict(version=1, setup_cmd="python3 build.py --setup",
         hooks=dict(guard="MC_VERIF", enable="-DMC_VERIF",
                    source_commits=[]),
         checks=checks, not_applicable=na,
         notes="No hooks are needed in /repo: thread, clock and network "
         "primitives are intercepted at link time and YAZ++ is replaced by "
         "the stand-in in shim/.  See DESIGN.md.")
with open("MANIFEST.json", "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
