#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props/*.py."""
import glob, json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
PROPS, NA = [], []
MON = "runtime monitoring: "
ORDER = []

def P(id, title, statement, over, text, why, files, mech, level, technique, note, state=None):
    assert len(title) <= 80, (id, len(title))
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
             why_tests_cant=why, anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state:
        d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    PROPS.append((d, dict(property=id, quick_cmd="./check.sh %s" % id,
                          thorough_cmd="VERIF_TIER=thorough ./check.sh %s" % id,
                          technique=technique, level=level, level_note=note)))

for f in sorted(glob.glob(os.path.join(here, "props", "*.py"))):
    exec(compile(open(f).read(), f, "exec"), {"P": P, "NA": NA, "MON": MON})
groups = {l.split()[0] for l in open(os.path.join(root, "harness/groups.txt")) if l.strip()}
for d, c in PROPS:
    for fn in d["anchors"]["files"]:
        if not os.path.exists(os.path.join("/repo", fn)):
            sys.exit("%s: no such file %s" % (d["id"], fn))
    if d["id"] not in groups:
        sys.exit("no check for " + d["id"])
if groups - {d["id"] for d, _ in PROPS}:
    sys.exit("no property for " + str(groups - {d["id"] for d, _ in PROPS}))
with open(os.path.join(root, "properties.jsonl"), "w") as o:
    for d, _ in PROPS:
        o.write(json.dumps(d) + "\n")
m = dict(version=1, setup_cmd="./setup.sh", checks=[c for _, c in PROPS], not_applicable=NA,
         hooks=dict(guard="verif", enable="go build -tags verif (check.sh)", source_commits=["f6bdb28"]))
with open(os.path.join(root, "MANIFEST.json"), "w") as o:
    json.dump(m, o, indent=1)
    o.write("\n")
# DESIGN.md: the text of tools/design.md with the tables filled in
out = ["## Properties and how they are decided\n"]
for d, c in PROPS:
    out.append("### %s %s\n" % (d["id"], d["title"]))
    out.append("*Specification:* %s" % d["statement"])
    out.append("*Quantifies over:* %s (%s)." % (d["quantifier"]["text"], ", ".join(d["quantifier"]["over"])))
    out.append("*Decided by:* %s. Level: %s." % (c["technique"], c["level"]))
    out.append("*Bounds:* %s" % c["level_note"])
    out.append("*Beyond the tests:* %s" % d["why_tests_cant"])
    fixed = [l.split(" ", 3) for l in open(os.path.join(root, "known-findings.txt")) if l.startswith("fixed: property=%s " % d["id"])]
    for f in fixed:
        out.append("*Repaired (%s):* %s." % (f[2], f[3].strip()))
    for l in open(os.path.join(root, "known-findings.txt")):
        if l.startswith("finding: property=%s " % d["id"]):
            out.append("*Known finding:* %s." % l.split(" ", 3)[3].strip())
    out.append("")
for n in NA:
    out.append("Not applicable: %s\n" % json.dumps(n))
seeds = ["## Planted bugs\n", "| bug | property | needs | result |", "|---|---|---|---|"]
res = {}
rf = os.path.join(root, "tools/seed-results.txt")
if os.path.exists(rf):
    for l in open(rf):
        k, v = l.rstrip("\n").split("\t", 1)
        res[k] = v
for mf in sorted(glob.glob(os.path.join(root, "seeded/*/meta.json"))):
    k = os.path.basename(os.path.dirname(mf))
    j = json.load(open(mf))
    seeds.append("| %s | %s | %s | %s |" % (k, j["property"], j["needs"], res.get(k, "caught by %s" % j["property"])))
seeds.append("")
t = open(os.path.join(root, "tools/design.md")).read()
open(os.path.join(root, "DESIGN.md"), "w").write(t.replace("@@PROPS@@", "\n\n".join(out)).replace("@@SEEDS@@", "\n".join(seeds)))
print(len(PROPS), "properties")
