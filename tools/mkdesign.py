"""Writes /verif/DESIGN.md from tools/design.in.md, properties.jsonl, tools/how.json, known_findings.json, tools/na.json and seeded/*/meta.json."""
import json, os, glob
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = [json.loads(l) for l in open(H + "/properties.jsonl")]
how = json.load(open(H + "/tools/how.json")); na = json.load(open(H + "/tools/na.json"))
caught = json.load(open(H + "/tools/caught.json")) if os.path.exists(H + "/tools/caught.json") else {}
s = open(H + "/tools/design.in.md").read()
pr = []
for p in P:
    pr.append(f"### {p['id']} {p['title']}\n\n" + (f"Not applicable: {na[p['id']]}" if p['id'] in na else how.get(p['id'], "")) + "\n")
kf = json.load(open(H + "/known_findings.json"))
fi = ["* " + f for f in kf.get("fixed", [])] + [f"* known finding, property {k['property']}: {k['what']}" for k in kf["findings"]]
se = ["| planted bug | property | caught by | what it needs |", "|---|---|---|---|"]
for m in sorted(glob.glob(H + "/seeded/*/meta.json")):
    i = os.path.basename(os.path.dirname(m)); d = json.load(open(m))
    se.append(f"| {i} | {d['property']} | {caught.get(i, '')} | {d['needs']} |")
s = s.replace("%PROPS%", "\n".join(pr)).replace("%FINDINGS%", "\n".join(fi)).replace("%SEEDS%", "\n".join(se))
open(H + "/DESIGN.md", "w").write(s)
