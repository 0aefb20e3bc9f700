"""Regenerates the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, glob, os, re
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| planted bug | caught by | breaks | needs |", "|---|---|---|---|"]
for f in sorted(glob.glob(H + "/seeded/*/meta.json")):
    m = json.load(open(f))
    t = lambda s: s.replace("|", "\\|").replace("\n", " ")
    rows.append(f"| {os.path.basename(os.path.dirname(f))} | {m['property']} | {t(m['what_it_breaks'])} | {t(m['needs'])} |")
d = open(H + "/DESIGN.md").read()
a, b = "<!-- seeds -->\n", "<!-- /seeds -->\n"
if "SEEDTABLE\n" in d: d = d.replace("SEEDTABLE\n", a + b)
i, j = d.index(a) + len(a), d.index(b)
open(H + "/DESIGN.md", "w").write(d[:i] + "\n".join(rows) + "\n" + d[j:])
