import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from vf import registry
DEF_TECH = "TLA+ specification evaluated by TLC; conformance traces recorded from the real code are validated against it"
with open(ROOT + "/properties.jsonl", "w") as f:
    for p in registry.P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["qtext"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"],
                        "state": [dict(name=a, meaning=b, where=c) for a, b, c in p["state"]],
                        "mechanism": [dict(name=a, where=b) for a, b in p["mech"]],
                        "observe_at": p["observe"], "hook_needed": None}}) + "\n")
checks, na = [], []
for p in registry.P:
    if os.path.exists("%s/drivers/%s.py" % (ROOT, p["id"].lower())):
        checks.append({"property": p["id"], "quick_cmd": "bin/check %s" % p["id"], "thorough_cmd": "bin/check %s" % p["id"],
                       "evidence_file": "evidence/%s.json" % p["id"],
                       "technique": p["technique"] or DEF_TECH, "level": p["level"],
                       "level_note": p["level_note"] or "Bounded: every recorded execution is judged by TLC against the TLA+ specification; inputs are TLC-enumerated small scopes plus seeded random cases. Trusts TLC, the driver's encoding of inputs/outputs, and the sampled input space."})
    else:
        na.append({"property": p["id"], "reason": "check not built yet (work in progress)"})
json.dump({"version": 1, "setup_cmd": "bin/setup", "checks": checks, "not_applicable": na,
           "notes": "TLA+ checked with TLC. No hooks in /repo are needed: the linearization point of every modelled action is the return of a public call. See DESIGN.md."},
          open(ROOT + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(na), "n/a")
