#!/usr/bin/env python3
"""Rewrites the table of planted changes in DESIGN.md from seeded/*/meta.json (all rows: the check of the change's own property reports it)."""
import glob, json, os, re
rows = []
for d in sorted(glob.glob("/verif/seeded/*/")):
    m = json.load(open(d + "meta.json"))
    files = sorted(set(re.findall(r"^\+\+\+ b/rocketry/(\S+)", open(d + "patch.diff").read(), re.M)))
    rows.append(f"| {os.path.basename(d[:-1])} | {m['property']} | {', '.join(files)} | {m['what_it_breaks']} | {m['needs']} |")
tab = "<!-- seeds -->\n| change | caught by | in | what it breaks | needs |\n|---|---|---|---|---|\n" + "\n".join(rows).replace("\n|", "\n|") + "\n<!-- /seeds -->"
p = "/verif/DESIGN.md"
s = open(p).read()
if "<!-- seeds -->" in s:
    s = re.sub(r"<!-- seeds -->.*<!-- /seeds -->", lambda _: tab, s, flags=re.S)
else:
    s = s.rstrip("\n") + "\n\n## Planted changes and what catches them\n\n" + tab + "\n"
open(p, "w").write(s)
print(len(rows), "rows")
