"""Writes known_findings.jsonl (kept under version control; never written by a check)"""
import json, subprocess
log = subprocess.run(['git', '-C', '/repo', 'log', '--format=%h %s', 'cc5abea..HEAD'], capture_output=True, text=True).stdout.splitlines()
prop = {'given by users with the wrappers': 'C18', 'copy the arrays given by users': 'C18', 'raw data are missing': 'C17', 'set in amp-seconds': 'C19', 'before changing the metadata': 'C15', 'HDF5 writer is opened again': 'C15', 'supplied through an iterator': 'C10', 'do not affect the predicted': 'C12', 'arguments meant for the model': 'C08', 'project asymmetric matrices': 'C09', 'label the rows of Simulator': 'C13', 'allow update_parameters': 'C05', 'compute the OCV': 'C04', 'compute resistances': 'C04', 'interpolate with the batch size': 'C04',
        'allow a batch of hysteresis': 'C04', 'RC elements with different batch': 'C04', 'do not share parameters': 'C18', 'read SOC pinpoints': 'C07', 'start the current ramp': 'C02',
        'keep the state unchanged': 'C01', 'evolve hysteresis': 'C02', 'let hysteresis': 'C02', 'singular and indefinite': 'C09', 'report the state of the joint': 'C11',
        'combine the transient': 'C12', 'update only the A-SOH': 'C12', 'batches of parameters in MeanSquaredLoss': 'C16', 'per-cycle estimates': 'C15',
        'standard deviations': 'C14', 'resizable HDF5': 'C15', 'without cycle numbers': 'C15', 'from the inputs in the first row': 'C14'}
out = []
for line in reversed(log):
    h, s = line.split(' ', 1)
    if s.startswith('fix: ') and 'line endings' not in s:
        p = next((v for k, v in prop.items() if k in s), None)
        assert p, s
        out.append(dict(property=p, status='fixed', commit=h, what=f'fixed: property={p} {h} {s[5:]}'))
known = json.load(open('/verif/lib/known.json'))
with open('/verif/known_findings.jsonl', 'w') as f:
    for e in known + out:
        f.write(json.dumps(e) + '\n')
