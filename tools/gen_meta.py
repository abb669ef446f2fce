#!/usr/bin/env python3
"""Single source of truth for properties.jsonl and MANIFEST.json."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None, level="exploration",
         technique="", note="", claimed=True, reason=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why,
                  files=files, mech=mech, observe=observe or [], level=level, technique=technique,
                  note=note, claimed=claimed, reason=reason))

exec(open(os.path.join(ROOT, "tools", "props.py")).read())

# only what has a monitor in the harness (or a stated reason not to) is published
import glob, re
HAVE = set(re.findall(r'id: "(C\d+)"', "".join(open(f).read() for f in glob.glob(os.path.join(ROOT, "harness/src/props/*.rs")))))
P = [p for p in P if p["id"] in HAVE or not p["claimed"]]
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["qtext"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"],
                        "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                        "observe_at": p["observe"], "hook_needed": None}}, ensure_ascii=False) + "\n")
        assert len(p["title"]) <= 80, p["title"]

checks, na = [], []
for p in P:
    if p["claimed"]:
        checks.append({"property": p["id"],
                       "quick_cmd": f"./check.sh {p['id']} quick",
                       "thorough_cmd": f"./check.sh {p['id']} thorough",
                       "technique": p["technique"], "level": p["level"], "level_note": p["note"]})
    else:
        na.append({"property": p["id"], "reason": p["reason"]})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No guarded hooks were needed: every monitor observes the public API. See DESIGN.md."}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
open(os.path.join(ROOT, "MANIFEST.json"), "a").write("\n")
print(len(P), "properties,", len(checks), "claimed")

# the table of planted bugs in DESIGN.md
rows = []
for f in sorted(glob.glob(os.path.join(ROOT, "seeded", "*", "meta.json"))):
    i = f.split("/")[-2]
    d = json.load(open(f))
    rows.append(f"| {i}{'*' if i in STRENGTHENED else ''} | {d['property']} | {d['needs']} | {STRENGTHENED.get(i, '')} |")
p = os.path.join(ROOT, "DESIGN.md")
s = open(p).read()
a, z = s.index("| bug |"), s.index("<!-- /bugs -->")
head = "| bug | caught by | needs | strengthening |\n|---|---|---|---|\n"
open(p, "w").write(s[:a] + head + "\n".join(rows) + "\n" + s[z:])
