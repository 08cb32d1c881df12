"""DESIGN.md = tools/DESIGN.head.md + one section per property (registry, spec, driver, notes) + findings + planted bugs."""
import json, os, re, sys, glob, importlib
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT); sys.path.insert(0, ROOT + "/tools")
from vf import registry
from notes import NOTES, CORRECTED
out = [open(ROOT + "/tools/DESIGN.head.md").read().replace("<!--PROPS-->", "").rstrip(), "", "# Properties", ""]
out.append("Per property: what is specified and compared (clauses are operators evaluated by TLC on each recorded execution), on which inputs, and where the specification is silent. The cost of every quick check is 10-60 s on 8 cores; the thorough tier runs the same check on about ten times the cases and larger constants.\n")
for p in registry.P:
    i = p["id"]
    drv = "%s/drivers/%s.py" % (ROOT, i.lower())
    if not os.path.exists(drv):
        out.append("## %s %s\n\n%s\n\nNot claimed yet.\n" % (i, p["title"], p["statement"])); continue
    m = importlib.import_module("drivers." + i.lower())
    spec = open("%s/spec/%s.tla" % (ROOT, m.MODULE)).read()
    ext = re.search(r"^EXTENDS (.*)$", spec, re.M).group(1)
    head = [x[2:].strip() for x in spec.split("\n")[1:10] if x.startswith("\\*")]
    clauses = []
    for c in re.findall(r"^\s*(?:\[\s*)?([a-z][a-z_0-9]*) \|->", spec, re.M):
        if c not in clauses and len(c) > 2: clauses.append(c)
    out.append("## %s %s\n" % (i, p["title"]))
    out.append(p["statement"] + "\n")
    out.append("- **Specification**: `spec/%s.tla` (extends %s).%s" % (m.MODULE, ext, " " + " ".join(head) if head else ""))
    out.append("- **Clauses**: " + ", ".join("`%s`" % c for c in clauses) + ".")
    out.append("- **Inputs**: %s." % m.RULE)
    if getattr(m, "MC", None):
        out.append("- **Design check (exhaustive)**: " + "; ".join("%s%s%s" % (x["module"], (" " + json.dumps(x.get("env"), sort_keys=True)) if x.get("env") else "", " (thorough)" if x.get("tier") == "thorough" else "") for x in m.MC) + ".")
    out.append("- **Why tests cannot settle it**: " + p["why"])
    if i in NOTES: out.append("- **Silent about**: " + NOTES[i])
    out.append("")
k = json.load(open(ROOT + "/known_findings.json"))
out.append("# Genuine defects\n\nRepaired (one `fix:` commit each; every one was found by a check on the unmodified tree and is reported again if it returns):\n")
for f in k["fixed"]: out.append("- " + f.replace("fixed: property=", ""))
out.append("\nRecorded, not repaired (`known_findings.json` identifies the failing class by clause and signature and carries a concrete input, which is executed on every run):\n")
for f in k["findings"]: out.append("- %s (%s, clause `%s`): %s" % (f["id"], f["property"], f["clause"], f["what"]))
out.append("\n# False alarms met on the way, and what was corrected\n")
out += ["- " + c for c in CORRECTED]
out.append("\n# Planted bugs\n\nEach is in `seeded/<id>/` with its demonstration; 'caught by' lists the checks confirmed to exit 1 with the property's VIOLATION line.\n")
out.append("| id | property | needs | breaks | caught by |\n|---|---|---|---|---|")
for f in sorted(glob.glob(ROOT + "/seeded/*/meta.json")):
    d = json.load(open(f))
    out.append("| %s | %s | %s | %s | %s |" % (os.path.basename(os.path.dirname(f)), d["property"], d["needs"], d["what_it_breaks"], d.get("caught_by", d["property"])))
open(ROOT + "/DESIGN.md", "w").write("\n".join(out) + "\n")
print(len(out), "blocks")
