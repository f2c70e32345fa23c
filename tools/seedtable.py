"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json and tools/caught.json"""
import json
from pathlib import Path
H = Path(__file__).parent.parent
caught = json.loads((H / 'tools/caught.json').read_text())
rows = ['| planted bug | breaks | needs | caught by (quick) |', '|---|---|---|---|']
for d in sorted((H / 'seeded').iterdir()):
    m = json.loads((d / 'meta.json').read_text())
    rows.append(f"| {d.name} | {m['what_it_breaks']} | {m['needs']} | {caught.get(d.name, '?')} |")
p = H / 'DESIGN.md'
t = p.read_text().split('<!-- seeded -->')
p.write_text(t[0] + '<!-- seeded -->\n' + '\n'.join(rows) + '\n')
