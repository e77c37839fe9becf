#!/usr/bin/env python3
"""rewrites the catch table of DESIGN.md from seeded/*/meta.json"""
import json, os, re
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["<!-- table -->", "| planted bug | caught by | how | needs |", "|---|---|---|---|"]
for d in sorted(os.listdir(R + "/seeded")):
    m = json.load(open(f"{R}/seeded/{d}/meta.json"))
    rows.append(f"| {d} | {m['property']} | {m.get('caught', 'failing input replayed')} | {m['needs']} |")
rows.append("<!-- end -->")
p = R + "/DESIGN.md"
s = open(p).read()
s = s.replace("@@TABLE@@", "<!-- table -->\n<!-- end -->")
s = re.sub(r"<!-- table -->.*?<!-- end -->", lambda m: "\n".join(rows), s, flags=re.S)
open(p, "w").write(s)
