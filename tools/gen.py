#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py and checks.py."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path[:0] = [HERE, ROOT]
from props import PROPS, NOT_APPLICABLE, HOOK_COMMITS
from checks import CHECKS
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in PROPS:
        if p["id"] not in CHECKS and p["id"] not in {n["property"] for n in NOT_APPLICABLE}:
            continue
        q = {k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}
        assert len(q["title"]) <= 80, q["title"]
        f.write(json.dumps(q) + "\n")
man = {
    "version": 1,
    "setup_cmd": "python3 -c \"import checks\" && mkdir -p evidence build",
    "hooks": {"guard": "DCGP_VERIF_RANDOM_ENGINE",
              "enable": "harnesses are compiled with -DDCGP_VERIF_RANDOM_ENGINE=::mc::script_engine (include/dcgp/rng.hpp then uses that type as random engine)",
              "source_commits": HOOK_COMMITS},
    "checks": [{"property": p["id"], "quick_cmd": "python3 run.py %s quick" % p["id"],
                "thorough_cmd": "python3 run.py %s thorough" % p["id"],
                "evidence_file": "evidence/%s.json" % p["id"],
                "technique": p["technique"], "level": "model_checking", "level_note": p["note"]}
               for p in PROPS if p["id"] in CHECKS],
    "not_applicable": NOT_APPLICABLE,
    "notes": "run.py compiles the explorers listed in checks.py against /repo's working tree and runs them; see DESIGN.md.",
}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
try:
    import jsonschema
    for n, s in (("MANIFEST.json", "/root/.vp/MANIFEST.schema.json"),):
        jsonschema.validate(json.load(open(os.path.join(ROOT, n))), json.load(open(s)))
    sch = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for l in open(os.path.join(ROOT, "properties.jsonl")):
        jsonschema.validate(json.loads(l), sch)
    print("schemas ok", len(man["checks"]), "checks")
except ImportError:
    print("no jsonschema")
