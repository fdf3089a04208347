"""Writes MANIFEST.json from the check modules that exist (one per property)."""
import glob, json, os, re

here = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    f = glob.glob(os.path.join(here, "checks", i.lower() + "_*.py"))
    if not f:
        na.append(dict(property=i, reason="no check built yet"))
        continue
    mod = os.path.basename(f[0])[:-3]
    src = open(f[0]).read()
    level = re.search(r'^LEVEL = "(.*)"', src, re.M).group(1)
    tech = re.search(r'^TECHNIQUE = "(.*)"', src, re.M).group(1)
    note = re.search(r'^NOTE = "(.*)"', src, re.M)
    c = dict(
        property=i,
        quick_cmd="./run %s --tier quick" % mod,
        thorough_cmd="./run %s --tier thorough" % mod,
        technique=tech,
        level=level,
    )
    if note:
        c["level_note"] = note.group(1)
    checks.append(c)
m = dict(
    version=1,
    setup_cmd="true",
    checks=checks,
    hooks=dict(guard="", enable="", source_commits=[]),
    not_applicable=na,
    notes="Runtime monitors over the real code; see DESIGN.md. Each check forks one process per execution and imports ipi from /repo's working tree.",
)
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
