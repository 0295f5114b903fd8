import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
V = os.path.join(R, "vlib")
s = open(V + "/design_head.md").read() + open(V + "/design_props.md").read() + open(V + "/design_tail.md").read()
s += "| id | property | needs | caught |\n|---|---|---|---|\n"
res = json.load(open(V + "/seed_results.json"))
for d in sorted(os.listdir(R + "/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (R, d)))
    s += "| %s | %s | %s | %s |\n" % (d, m["property"], m["needs"], res.get(d, "?"))
tail = V + "/design_mut.md"
if os.path.exists(tail):
    s += "\n" + open(tail).read()
open(R + "/DESIGN.md", "w").write(s)
