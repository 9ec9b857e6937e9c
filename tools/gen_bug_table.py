"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, glob, os, re
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for m in sorted(glob.glob(H + "/seeded/*/meta.json")):
    d = json.load(open(m))
    rows.append(f"| {m.split('/')[-2]} | {d['what_it_breaks']} | {d['needs']} | {d['property']} |")
s = open(H + "/DESIGN.md").read()
s = re.sub(r"(\| id \| what it breaks.*?\n\|---\|---\|---\|---\|\n)(\|.*\n)+", lambda x: x.group(1) + "\n".join(rows) + "\n", s)
open(H + "/DESIGN.md", "w").write(s)
