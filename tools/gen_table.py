"""rewrites section 6 of DESIGN.md from seeded/*/meta.json"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MISSED = {"S07": "new system `order`", "S08": "falsy forcing values", "S13": "new system `foreign`", "S21": "exceptions are held while observers are counted"}
head = "## 6. Planted bugs\n\nEach is caught by the check of its property (run with `tools/seed.sh catch ID`). *Missed at first* says what was added.\n\n"
rows = ["| id | property | what it breaks | needs | missed at first |", "|---|---|---|---|---|"]
extra = os.path.join(V, "tools", "missed.json")
if os.path.exists(extra):
    MISSED.update(json.load(open(extra)))
for s in sorted(os.listdir(os.path.join(V, "seeded"))):
    d = json.load(open(os.path.join(V, "seeded", s, "meta.json")))
    rows.append("| %s | %s | %s | %s | %s |" % (s, d["property"], d["what_it_breaks"], d["needs"], MISSED.get(s, "")))
p = os.path.join(V, "DESIGN.md")
text = open(p).read().split("## 6. Planted bugs")[0]
open(p, "w").write(text.rstrip() + "\n\n" + head + "\n".join(rows) + "\n")
