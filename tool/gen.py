#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props.py."""
import json, os, sys
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "tool"))
import props

with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
    for pid in sorted(list(props.PROPS) + list(props.NOT_APPLICABLE)):
        p = props.PROPS.get(pid) or props.NOT_APPLICABLE[pid]
        assert len(p["title"]) <= 80, (pid, len(p["title"]))
        f.write(json.dumps({"id": pid, "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["quant"]},
                            "why_tests_cant": p["tests"], "anchors": {"files": p["files"], "mechanism": p["mech"]}}) + "\n")
man = {"version": 1, "setup_cmd": "python3 tool/setup.py", "checks": [], "not_applicable": []}
for pid in sorted(props.PROPS):
    p = props.PROPS[pid]
    man["checks"].append({
        "property": pid, "level": p.get("level", "model_checking"),
        "quick_cmd": "python3 tool/check.py %s quick" % pid,
        "thorough_cmd": "python3 tool/check.py %s thorough" % pid,
        "technique": "solver-based checking of the real code (symbolic execution of its Go SSA, z3 decides every branch and assertion, native replay)",
        "level_note": "Bounded: " + (p["bounds"]["quick"] + "; thorough: " + p["bounds"]["thorough"] if isinstance(p["bounds"], dict) else p["bounds"]) + ". Outside: " + p.get("outside", "nothing further") + ". Trusts: SHA-256 collision freedom, the objecthash stand-in, the engine's models of protobuf/JSON encoding" + "".join("; " + a for a in p.get("assumptions", [])) + ".",
    })
for pid in sorted(props.NOT_APPLICABLE):
    man["not_applicable"].append({"property": pid, "reason": props.NOT_APPLICABLE[pid]["reason"]})
json.dump(man, open(os.path.join(VERIF, "MANIFEST.json"), "w"), indent=1)

# DESIGN.md
import re
from how import HOW
out = []
for pid in sorted(props.PROPS):
    p = props.PROPS[pid]
    enc, orc, why = HOW[pid]
    b = p["bounds"]
    out += ["### %s %s" % (pid, p["title"]), "", p["statement"], "",
            "- Encoded: " + enc, "- Oracle: " + orc,
            "- Bounds: " + ("quick: %s. Thorough: %s." % (b["quick"], b["thorough"]) if isinstance(b, dict) else b + "."),
            "- Outside: " + p.get("outside", "nothing further") + ".",
            "- Beyond tests: " + why + " " + p["tests"], ""]
for pid in sorted(props.NOT_APPLICABLE):
    out += ["### %s %s (not claimed)" % (pid, props.NOT_APPLICABLE[pid]["title"]), "", props.NOT_APPLICABLE[pid]["reason"], ""]
kf = json.load(open(os.path.join(VERIF, "known_findings.json")))
fixes = ["- " + k["entry"] for k in kf if k["status"] == "fixed"]
known = ["- %s: %s" % (k["property"], k["what"]) for k in kf if k["status"] == "known"]
extra = "## Known findings (not repaired)\n\n" + "\n".join(known) if known else ""
seeds = ["| bug | property | needs | found by | note |", "|---|---|---|---|---|"]
sd = os.path.join(VERIF, "seeded")
res = json.load(open(os.path.join(VERIF, "tool", "seeds.json")))
for d in sorted(os.listdir(sd)) if os.path.isdir(sd) else []:
    mt = json.load(open(os.path.join(sd, d, "meta.json")))
    r = res.get(d, {})
    seeds.append("| %s | %s | %s | %s | %s |" % (d, mt["property"], mt["needs"].replace("|", "/"), r.get("by", ""), r.get("note", "")))
t = open(os.path.join(VERIF, "tool", "design.md")).read()
for k, v in (("PROPS", "\n".join(out)), ("FIXES", "\n".join(fixes)), ("EXTRA", extra), ("SEEDS", "\n".join(seeds))):
    t = t.replace("@@%s@@" % k, v)
open(os.path.join(VERIF, "DESIGN.md"), "w").write(t)
