#!/usr/bin/env python3
"""writes DESIGN.md from design_text.md, props.py, known-findings.txt, caught.txt, bugs/ and the evidence of the last quick runs"""
import json, os, re, sys
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from props import PROPS, NOT_APPLICABLE
head = open(HERE + "/design_text.md").read()
fixes = [re.match(r"fixed: property=(\S+) (\S+) (.*)", l).groups() for l in open(ROOT + "/known-findings.txt") if l.startswith("fixed:")]
out = [head.replace("@FIXES@", "\n".join("* %s `%s` %s" % f for f in fixes))]
costs = json.load(open(HERE + "/costs.json")) if os.path.exists(HERE + "/costs.json") else {}
for p in PROPS:
    f = "%s/evidence/%s.json" % (ROOT, p["id"])
    if os.path.exists(f):
        e = json.load(open(f))
        c = e["coverage"]
        costs.setdefault(p["id"], {})[e["tier"]] = [c["states"], c["transitions"], c["traces_validated_against_impl"], round(e["wall_s"])]
json.dump(costs, open(HERE + "/costs.json", "w"), indent=0, sort_keys=True)
for p in PROPS:
    out.append("### %s - %s\n" % (p["id"], p["title"]))
    out.append("*Claim:* %s\n" % p["statement"])
    out.append("*Decided by:* %s.\n" % p["technique"].rstrip("."))
    out.append("*Bounds and trust:* %s\n" % p["note"])
    out.append("*Beyond the tests:* %s Ranges over: %s\n" % (p["why_tests_cant"], p["quantifier"]["text"]))
    out.append("*Anchors:* %s\n" % "; ".join("%s (%s)" % (m["name"], m["where"]) for m in p["anchors"]["mechanism"]))
    for t in ("quick", "thorough"):
        if t in costs.get(p["id"], {}):
            out.append("*Cost (%s):* %d states, %d transitions, %d traces compared with the implementation, %d s.\n" % ((t,) + tuple(costs[p["id"]][t])))
if NOT_APPLICABLE:
    out.append("### Not applicable\n")
    out += ["* %s: %s" % (n["id"], n["reason"]) for n in NOT_APPLICABLE]
out.append("\n## 5. Planted bugs and what catches them\n")
out.append("Each is written from the property and the code, confirmed by `tools/mkbug.py` (applies, builds, stable tests pass, demo fails only with it), and run against the quick check of its property. The last column names the oracles that reported it.\n")
out.append("| id | change | needs | caught by |\n|---|---|---|---|")
caught = dict(l.rstrip("\n").split(" ", 1) for l in open(HERE + "/caught.txt") if " " in l)
for f in sorted(os.listdir(HERE + "/bugs")):
    if f.endswith(".py"):
        ns = {}
        exec(open(HERE + "/bugs/" + f).read(), ns)
        out.append("| %s | %s | %s | %s |" % (f[:-3], ns["BREAKS"], ns["NEEDS"], caught.get(f[:-3], "**not caught**")))
out.append("")
tail = HERE + "/design_tail.md"
if os.path.exists(tail):
    out.append(open(tail).read())
open(ROOT + "/DESIGN.md", "w").write("\n".join(out))
