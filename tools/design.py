#!/usr/bin/env python3
"""Writes the list of planted bugs into DESIGN.md."""
import json, glob, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for f in sorted(glob.glob(V + '/seeded/*/meta.json')):
    m = json.load(open(f))
    rows.append(f"| `{os.path.basename(os.path.dirname(f))}` | {m['property']} | {m['what_it_breaks']} | {m.get('caught_by', '?')} |")
t = "| change | property | what it breaks | caught by |\n|---|---|---|---|\n" + "\n".join(rows)
p = V + '/DESIGN.md'
s = open(p).read()
s = re.sub(r'(<!-- seeds -->\n).*?(<!-- end -->)', lambda x: x.group(1) + t + '\n' + x.group(2), s, flags=re.S)
open(p, 'w').write(s)
