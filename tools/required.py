"""Compares the counters required by each check with what quick runs observe (run after `for i in ...; ./run.sh $i quick`)"""
import importlib, json, pathlib
for f in sorted(pathlib.Path('/verif/checks').glob('C*.py')):
    m = importlib.import_module(f'checks.{f.stem}')
    e = json.load(open(f'/verif/evidence/{f.stem}.json'))
    if e['tier'] != 'quick':
        print(f.stem, 'not quick'); continue
    o = e['coverage']['observations']
    for k, v in m.REQUIRED.items():
        if o.get(k, 0) < 1.6 * v:
            print(f.stem, k, v, o.get(k, 0))
