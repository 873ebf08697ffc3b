"""writes properties.jsonl and MANIFEST.json from tools/props.py"""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from props import PROPS, NA, NOTES
root = os.path.dirname(here)
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in PROPS:
        q = {k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}
        assert len(q["title"]) <= 80, q["title"]
        f.write(json.dumps(q, ensure_ascii=False) + "\n")
checks = []
for p in PROPS:
    if p["id"] in NA:
        continue
    checks.append({
        "property": p["id"],
        "quick_cmd": f"bash run.sh {p['id']} --tier quick",
        "thorough_cmd": f"bash run.sh {p['id']} --tier thorough",
        "technique": p["technique"],
        "level": p["level"],
        "level_note": p["note"],
    })
m = {
    "version": 1,
    "setup_cmd": "bash run.sh setup",
    "hooks": {"guard": "none", "enable": "no hooks in /repo: every seam is the libc boundary, interposed inside the harness binary", "source_commits": []},
    "checks": checks,
    "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()],
    "notes": NOTES,
}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
print(len(PROPS), "properties,", len(checks), "checks")

# the two tables of DESIGN.md
import glob, re
fixed = "| property | commit | what failed |\n|---|---|---|\n"
for x in json.load(open(os.path.join(root, "known_findings.json")))["fixed"]:
    fixed += "| %s | %s | %s |\n" % re.match(r"fixed: property=(\S+) (\S+) (.*)", x).groups()
seeded = "| planted bug | check | what it breaks | needs | caught |\n|---|---|---|---|---|\n"
try:
    from missed import MISSED
except ImportError:
    MISSED = {}
d = open(os.path.join(root, "DESIGN.md")).read()
for x in sorted(glob.glob(os.path.join(root, "seeded", "*", "meta.json"))):
    j = json.load(open(x))
    i = os.path.basename(os.path.dirname(x))
    seeded += f"| {i} | {j['property']} | {j['what_it_breaks']} | {j['needs']} | {MISSED.get(i, 'yes')} |\n"
n = d
for k, v in ((("fixed"), fixed), ("seeded", seeded)):
    if k == "seeded" and not glob.glob(os.path.join(root, "seeded")):
        continue
    n = re.sub(rf"(<!-- {k} -->\n).*?(<!-- /{k} -->)", lambda m: m.group(1) + "\n" + v + "\n" + m.group(2), n, flags=re.S)
if n != d:
    open(os.path.join(root, "DESIGN.md"), "w").write(n)
