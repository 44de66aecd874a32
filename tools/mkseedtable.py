"""Rewrite the planted-bug table of DESIGN.md from seeded/*/meta.json and the
recorded outcome of the quick checks (tools/seed_results.json)."""
import json, pathlib, re
here = pathlib.Path(__file__).resolve().parent
root = here.parent
res = json.loads((here / 'seed_results.json').read_text())
rows = ['| planted bug | property | needs | caught as |', '|---|---|---|---|']
for d in sorted((root / 'seeded').iterdir()):
    m = json.loads((d / 'meta.json').read_text())
    rows.append(f"| {d.name} | {m['property']} | {m['needs']} | {res.get(d.name, 'not recorded')} |")
p = root / 'DESIGN.md'
t = p.read_text()
b, e = '<!-- seeds -->', '<!-- /seeds -->'
t = t[:t.index(b) + len(b)] + '\n' + '\n'.join(rows) + '\n' + t[t.index(e):]
p.write_text(t)
