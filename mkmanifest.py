"""Writes MANIFEST.json from the checks present"""
import json
from pathlib import Path
H = Path(__file__).parent
props = [json.loads(l) for l in (H / 'properties.jsonl').read_text().splitlines()]
TECH = json.loads((H / 'lib/techniques.json').read_text())
checks, na = [], []
for p in props:
    i = p['id']
    if (H / f'checks/{i}.py').exists() and i in TECH:
        t = TECH[i]
        checks.append(dict(property=i, quick_cmd=f'./run.sh {i} quick', thorough_cmd=f'./run.sh {i} thorough', evidence_file=f'evidence/{i}.json',
                           technique='runtime monitoring: ' + t['technique'], level='exploration', level_note=t['note']))
    else:
        na.append(dict(property=i, reason='its monitor is still being built; not claimed yet'))
(H / 'MANIFEST.json').write_text(json.dumps(dict(
    version=1, setup_cmd="./run.sh --setup", checks=checks, not_applicable=na,
    notes='Pure Python: no hooks in /repo are needed, the monitors observe the public interface. Every check imports /repo from source (no cached bytecode). '
          'See DESIGN.md.'), indent=1) + '\n')
