"""Writes MANIFEST.json from bin/plans.py and properties.jsonl."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "bin"))
import plans
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl")) if l.strip()]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in plans.PLANS:
        pl = plans.PLANS[i]
        checks.append({
            "property": i,
            "quick_cmd": f"python3 bin/check.py {i} --tier quick",
            "thorough_cmd": f"python3 bin/check.py {i} --tier thorough",
            "technique": plans.TECHNIQUE,
            "level": "model_checking",
            "level_note": plans.NOTE + " Bounds: " + pl["bounds"] + (". Outside: " + pl["outside"] if pl.get("outside") else "") + ".",
        })
    else:
        na.append({"property": i, "reason": plans.NOT_APPLICABLE.get(i, "no check yet")})
m = {"version": 1, "setup_cmd": "python3 bin/build.py", "checks": checks, "not_applicable": na,
     "notes": "No hooks: the unmodified program is compiled and executed. known-findings.txt lists defects found."}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(ROOT, "MANIFEST.json"), "a").write("\n")
print(len(checks), "checks", len(na), "not applicable")

# the generated parts of DESIGN.md
import re
def put(name, text):
    p = os.path.join(ROOT, "DESIGN.md")
    d = open(p).read()
    d = re.sub(rf"<!-- {name} begin -->.*?<!-- {name} end -->", lambda _: f"<!-- {name} begin -->\n{text}\n<!-- {name} end -->", d, flags=re.S)
    open(p, "w").write(d)
rows = []
for p in props:
    pl = plans.PLANS.get(p["id"])
    if not pl:
        continue
    rows.append(f"* **{p['id']} {p['title']}.** Bounds: {pl['bounds']}."
                + (f" Outside: {pl['outside']}." if pl.get("outside") else "")
                + f" Scenarios: {', '.join(pl['quick'])}" + (f"; thorough also {', '.join(pl['thorough'])}" if pl.get("thorough") else "") + ".")
put("table", "\n".join(rows))
sd = os.path.join(ROOT, "seeded")
rows = ["| id | property | what it breaks | needs | caught by |", "|---|---|---|---|---|"]
for i in sorted(os.listdir(sd)) if os.path.isdir(sd) else []:
    f = os.path.join(sd, i, "meta.json")
    if os.path.exists(f):
        m = json.load(open(f))
        rows.append(f"| {i} | {m['property']} | {m['what_it_breaks']} | {m['needs']} | {m.get('caught_by', '')} |")
put("bugs", "\n".join(rows))
