#!/usr/bin/env python3
"""Writes the table of planted bugs into DESIGN.md, between the two marker comments, from seeded/*/meta.json."""
import json, glob, re
rows = ["| planted bug | property | needs | caught by |", "|---|---|---|---|"]
for f in sorted(glob.glob("/verif/seeded/*/meta.json")):
    m = json.load(open(f)); i = f.split("/")[-2]
    rows.append(f"| {i} | {m['property']} | {m['needs']} | {m.get('caught_by', m['property'])} |")
d = open("/verif/DESIGN.md").read()
table = "<!-- seeds -->\n" + "\n".join(rows) + "\n<!-- /seeds -->"
d = d.replace("@SEEDS@", table) if "@SEEDS@" in d else re.sub(r"<!-- seeds -->.*?<!-- /seeds -->", lambda _: table, d, flags=re.S)
open("/verif/DESIGN.md", "w").write(d)
