"""Regenerate MANIFEST.json and properties.jsonl from sa/props.py (development helper; not used by checks)."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sa.props import PROPS, NA
MISSED = {"s39-key-order"}
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(V + "/properties.jsonl", "w") as f:
    for p in PROPS + NA:
        d = dict(id=p["id"], title=p["title"], statement=p["statement"],
                 quantifier=dict(over=p.get("over", ["inputs"]), text=p["text"]),
                 why_tests_cant=p["why"], anchors=dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]],
                                                      observe_at=p.get("observe", []), hook_needed=None))
        assert len(d["title"]) <= 80, d["title"]
        f.write(json.dumps(d) + "\n")
m = dict(version=1, setup_cmd="python3 -m sa.extract", checks=[
    dict(property=p["id"], quick_cmd=f"bin/check {p['id']}", thorough_cmd=f"bin/check {p['id']}",
         technique=p["technique"], level="other", level_note=p["note"]) for p in PROPS],
    not_applicable=[dict(property=p["id"], reason=p["reason"]) for p in NA],
    notes="All checks compile /repo's current tree with a rustc driver (driver/) that dumps type-checked MIR, and decide the property on the dump; nothing of /repo is executed.")
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)

def fill(t, mark, text):
    a, b = "<!-- %s -->" % mark, "<!-- /%s -->" % mark
    i, j = t.index(a) + len(a), t.index(b)
    return t[:i] + "\n" + text + t[j:]


D = V + "/DESIGN.md"
t = open(D).read()
rows = ["| bug | property | breaks | caught |", "|---|---|---|---|"]
for s in sorted(os.listdir(V + "/seeded"), key=lambda x: int(x[1:3])):
    x = json.load(open(V + "/seeded/%s/meta.json" % s))
    rows.append("| %s | %s | %s | %s |" % (s, x["property"], x["what_it_breaks"], "no (undecided)" if s in MISSED else "yes, by %s" % x["property"]))
t = fill(t, "seeds", "\n".join(rows) + "\n")
t = fill(t, "na", "".join("* **%s** %s: %s\n" % (p["id"], p["title"], p["reason"]) for p in NA))
open(D, "w").write(t)
