"""Rewrite section 5 of DESIGN.md from seeded/*/meta.json."""
import json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = {}
for d in sorted(os.listdir(f'{root}/seeded')):
    m = json.load(open(f'{root}/seeded/{d}/meta.json'))
    rows.setdefault(m['property'], []).append((d, m['needs']))
out = ["| check | bug | needs |", "|---|---|---|"]
for p in sorted(rows):
    for d, n in rows[p]:
        out.append(f"| {p} | {d} | {n} |")
s = open(f'{root}/DESIGN.md').read()
a, b = '<!-- seeded -->\n', '<!-- /seeded -->\n'
s = s[:s.index(a) + len(a)] + "\n".join(out) + "\n" + s[s.index(b):]
open(f'{root}/DESIGN.md', 'w').write(s)
