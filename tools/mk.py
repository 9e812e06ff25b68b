#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the list below."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS, NA = [], []


def P(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    PROPS.append({"id": id, "title": title, "statement": statement,
                  "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
                  "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                              "state": [{"name": n, "meaning": m} for n, m in state],
                              "observe_at": [{"name": n, "where": w} for n, w in observe], "hook_needed": False}})


exec(open(os.path.join(HERE, "tools", "props.py")).read())

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in PROPS:
        f.write(json.dumps(p) + "\n")
checks = []
for p in PROPS:
    i = p["id"]
    if i in NA_REASON:
        continue
    checks.append({"property": i, "quick_cmd": "vc/run.py %s --tier quick" % i,
                   "thorough_cmd": "vc/run.py %s --tier thorough" % i,
                   "technique": "contract-based deductive verification: contracts on the compiled /repo functions, "
                                "verification conditions generated from LLVM IR, discharged by z3/cvc5",
                   "level": "proof", "level_note": NOTES.get(i, "")})
m = {"version": 1, "setup_cmd": "true", "checks": checks,
     "not_applicable": [{"property": k, "reason": v} for k, v in NA_REASON.items()],
     "notes": "See DESIGN.md. Engine: /verif/vc; contracts: /verif/harness; both work on /repo's current source."}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)

# DESIGN.md
t = open(os.path.join(HERE, "tools", "DESIGN.in")).read()
o = []
for p in PROPS:
    i = p["id"]
    o.append("* **%s %s.** %s" % (i, p["title"], ("Not applicable: " + NA_REASON[i]) if i in NA_REASON else HOW.get(i, "")))
t = t.replace("@@PROPS@@", "\n".join(o))
o = []
sd = os.path.join(HERE, "seeded")
for d in sorted(os.listdir(sd)) if os.path.isdir(sd) else []:
    m = json.load(open(os.path.join(sd, d, "meta.json")))
    o.append("* `%s` (%s): %s; needs %s. %s" % (d, m["property"], m["what_it_breaks"], m["needs"], CAUGHT.get(d, "Caught by the check of " + m["property"] + ".")))
t = t.replace("@@SEEDS@@", "\n".join(o))
t = t.replace("@@DEFECTS@@", open(os.path.join(HERE, "tools", "defects.md")).read())
open(os.path.join(HERE, "DESIGN.md"), "w").write(t)
