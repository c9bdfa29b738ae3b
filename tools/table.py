#!/usr/bin/env python3
"""Writes the table of planted bugs into DESIGN.md, from seeded/*/meta.json."""
import glob, json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| planted bug | check that catches it | what it breaks | what it needs |", "|---|---|---|---|"]
for path in sorted(glob.glob(root + "/seeded/*/meta.json")):
    m = json.load(open(path))
    rows.append(f"| {path.split('/')[-2]} | {m.get('caught_by', m['property'])} | {m['what_it_breaks']} | {m['needs']} |")
path = root + "/DESIGN.md"
text = open(path).read()
table = "<!-- table -->\n" + "\n".join(rows) + "\n<!-- end -->"
text = text.replace("@@TABLE@@", table) if "@@TABLE@@" in text else re.sub(r"<!-- table -->.*?<!-- end -->", lambda _: table, text, flags=re.S)
open(path, "w").write(text)
