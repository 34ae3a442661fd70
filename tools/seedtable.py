#!/usr/bin/env python3
"""Rewrite the table of planted bugs in DESIGN.md from seeded/*/meta.json.

usage: seedtable.py [LOG]   (LOG of seedtest.py --check gives the outcome)
"""
import json, pathlib, re, sys
root = pathlib.Path(__file__).resolve().parent.parent
out = {}
if len(sys.argv) > 1:
    for line in open(sys.argv[1], errors="replace"):
        m = re.match(r"(C\d\d-\S+) \| .*?\| (C\d\d) rc=(\d+) ([\w-]+)", line)
        if m:
            out[m[1]] = (m[2], m[3], m[4])
rows = []
for d in sorted((root / "seeded").iterdir()):
    if not (d / "meta.json").exists():
        continue
    meta = json.loads((d / "meta.json").read_text())
    got = out.get(d.name)
    said = ("%s: %s" % (got[0], got[2]) if got and got[1] == "1"
            else "missed" if got else "%s" % meta["property"])
    rows.append("| %s | %s |" % (d.name, said))
text = (root / "DESIGN.md").read_text()
head, rest = text.split("<!-- seedtable -->", 1)
_, tail = rest.split("<!-- /seedtable -->", 1)
table = "\n| planted bug | reported by (kind of violation) |\n|---|---|\n" + "\n".join(rows) + "\n"
(root / "DESIGN.md").write_text(head + "<!-- seedtable -->" + table + "<!-- /seedtable -->" + tail)
