#!/usr/bin/env python3
"""Rewrite the table between the catches markers of DESIGN.md from seeded/*/meta.json and tools/catches.json."""
import json, os, re

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
caught = json.load(open(ROOT + "/tools/catches.json"))
rows = ["| planted bug | what it breaks | needs | caught by |", "|---|---|---|---|"]
for name in sorted(os.listdir(ROOT + "/seeded")):
    meta = json.load(open("%s/seeded/%s/meta.json" % (ROOT, name)))
    by = [p for p, rc in (caught.get(name, {}).get("caught") or {}).items() if rc == 1]
    cells = [name, meta["what_it_breaks"], meta["needs"], ", ".join(by) or "**not caught**"]
    rows.append("| %s |" % " | ".join(c.replace("|", "\\|").replace("\n", " ") for c in cells))
text = open(ROOT + "/DESIGN.md").read()
text = re.sub(r"(?s)(<!-- catches -->\n).*?(<!-- /catches -->)", lambda m: m[1] + "\n".join(rows) + "\n" + m[2], text)
open(ROOT + "/DESIGN.md", "w").write(text)
