#!/usr/bin/env python3
# Fill the table of planted changes in DESIGN.md from seeded/*/meta.json
import glob, json, os, re
os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
rows = ["| change | caught by | breaks | needs |", "|---|---|---|---|"]
c = lambda s: s.replace("|", "\\|").replace("\n", " ")
for d in sorted(glob.glob("seeded/*/")):
    m = json.load(open(d + "meta.json"))
    rows.append(f"| {os.path.basename(d[:-1])} | {m['property']} | {c(m['what_it_breaks'])} | {c(m['needs'])} |")
t = open("DESIGN.md").read()
n = "<!-- seeds -->\n" + "\n".join(rows) + "\n<!-- /seeds -->"
if "SEEDS_TABLE" in t:
    t = t.replace("SEEDS_TABLE", n)
else:
    t = re.sub(r"<!-- seeds -->.*<!-- /seeds -->", lambda _: n, t, flags=re.S)
open("DESIGN.md", "w").write(t)
