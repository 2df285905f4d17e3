#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py (keeps the two in step)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V + "/tools", V + "/harness"]
from props import PROPS, NOT_APPLICABLE
from checks import CHECKS
lines, checks, na = [], [], []
for p in PROPS:
    lines.append(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"],
        quantifier=dict(over=p["over"], text=p["quant"]), why_tests_cant=p["why"],
        anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]], observe_at=p["observe"], hook_needed=None))))
    assert len(p["title"]) <= 80, p["id"]
    if p["id"] in CHECKS:
        checks.append(dict(property=p["id"], quick_cmd="python3 engine/driver.py %s --tier quick" % p["id"],
            thorough_cmd="python3 engine/driver.py %s --tier thorough" % p["id"], evidence_file="evidence/%s.json" % p["id"],
            technique="symbolic execution of the LLVM IR of the real code, decided by polynomial normal form and Z3, counterexamples replayed natively",
            level=CHECKS[p["id"]]["level"], level_note=p["note"]))
    elif p["id"] in NOT_APPLICABLE:
        na.append(dict(property=p["id"], reason=NOT_APPLICABLE[p["id"]]))
    else:
        sys.exit("property %s has neither a check nor a reason" % p["id"])
ids = {p["id"] for p in PROPS}
assert not set(CHECKS) - ids, set(CHECKS) - ids
open(V + "/properties.jsonl", "w").write("\n".join(lines) + "\n")
json.dump(dict(version=1, setup_cmd="python3 engine/driver.py --setup", checks=checks, not_applicable=na,
    notes="One driver for every check; harness/checks.py lists the runs, tools/props.py the property texts; this file is generated by tools/gen.py."),
    open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")

# ---- DESIGN.md
from how import HOW, SEEDED
P = {p["id"]: p for p in PROPS}
out = []
for p in PROPS:
    i = p["id"]
    out.append("### %s %s\n" % (i, p["title"]))
    out.append(p["statement"] + "\n")
    if i in CHECKS:
        if i not in HOW: print("no description of", i)
        out.append("*How:* " + HOW.get(i, ""))
        for q in CHECKS[i]["parts"]:
            nq = sum(1 for r in q["runs"] if r.get("tier", "quick") == "quick")
            out.append("*Runs:* harness `%s.cpp`, %d quick, %d thorough only. *Bounds:* %s." % (q["harness"], nq, len(q["runs"]) - nq, q.get("bounds", p["note"])))
        out.append("*Outside:* anything beyond " + p["note"] + ".")
    out.append("*Why tests cannot:* " + p["why"] + ".\n")
fixed, known = [], []
for l in open(V + "/known-findings.jsonl"):
    l = l.strip()
    if l.startswith("fixed:"): fixed.append("- " + l[7:])
    elif l.startswith("{"):
        d = json.loads(l); known.append("- %s (%s): %s" % (d["property"], d["id"], d["what"]))
rows = ["| bug | property | needs | caught by quick check |", "|---|---|---|---|"]
sd = V + "/seeded"
for b in sorted(os.listdir(sd)) if os.path.isdir(sd) else []:
    m = json.load(open("%s/%s/meta.json" % (sd, b)))
    rows.append("| %s | %s | %s | %s |" % (b, m["property"], m["needs"], SEEDED.get(b, "yes")))
t = open(V + "/tools/design.md").read()
for k, v in (("@PROPS@", "\n".join(out)), ("@NA@", "\n".join("- %s: %s" % x for x in NOT_APPLICABLE.items()) or "None so far."), ("@FIXED@", "\n".join(fixed)),
             ("@KNOWN@", "\n".join(known) or "None."), ("@SEEDED@", "\n".join(rows))):
    t = t.replace(k, v)
open(V + "/DESIGN.md", "w").write(t)
