"""Writes section 2 of DESIGN.md (per property) from properties.jsonl, tools/design_text.py and the evidence of the last runs."""
import json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
from design_text import TEXT
out = []
for l in open(os.path.join(V, "properties.jsonl")):
    x = json.loads(l); i = x["id"]
    e = json.load(open(os.path.join(V, "evidence", i + ".json")))
    what, why = TEXT[i]
    out.append("### %s %s\n" % (i, x["title"]))
    out.append("%s\nReach: %s.\n" % (what, why))
    out.append("Bounds (%s tier; about %d s on 8 cores):\n" % (e["tier"], round(e["wall_s"], -1) or 5))
    for k, v in e["coverage"]["harnesses"].items(): out.append("* `%s`: %s" % (k, v["bounds"]))
    out.append("\nAssumed: " + "; ".join(e["assumptions"]) + ".\n")
p = os.path.join(V, "DESIGN.md"); s = open(p).read()
A, B = "<!-- properties -->\n", "<!-- /properties -->\n"
h, r = s.split(A); _, t = r.split(B)
open(p, "w").write(h + A + "\n" + "\n".join(out) + "\n" + B + t)

import glob
def put(name, text):
    s = open(p).read(); A, B = "<!-- %s -->\n" % name, "<!-- /%s -->\n" % name
    h, r = s.split(A); _, t = r.split(B)
    open(p, "w").write(h + A + "\n" + text + "\n" + B + t)
kf = json.load(open(os.path.join(V, "known_findings.json")))
put("findings", "\n".join(sorted("* " + e["line"].replace("fixed: property=", "") for e in kf if e["status"] == "fixed")) + "\n")
rows = []
for m in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
    d = json.load(open(m)); rows.append((d["property"], os.path.basename(os.path.dirname(m)), d["what_it_breaks"], d["needs"]))
put("seeds", "| change | caught by | what it breaks | needs |\n|---|---|---|---|\n" + "\n".join("| %s | %s | %s | %s |" % (b, a, c.replace("|", "\\|"), d.replace("|", "\\|")) for a, b, c, d in sorted(rows)) + "\n")
