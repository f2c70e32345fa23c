"""Build, confirm and try planted bugs.

    plant.py make  SPEC.py [ID...]   write /verif/seeded/<id>/ from a specification and confirm it in a scratch copy
    plant.py check [ID...]           run quick checks against the planted bugs (own property, or --all)

A specification is a python file with ``BUGS``: a list of dicts with id, property, file, edits [(old, new), ...], needs, breaks, demo.
"""
import json, os, runpy, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path

SEEDED = Path('/verif/seeded')
PY = '/opt/venv/bin/python'
DEMO = '#!/bin/bash\nPYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 exec /opt/venv/bin/python "$(cd "$(dirname "$0")" && pwd)/demo.py"\n'


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, shell=isinstance(cmd, str), capture_output=True, text=True, **kw)


def original_lines(scr, path):
    base = sh(['git', 'show', f'cc5abea:{path}'], '/repo').stdout
    return set(l.rstrip() for l in base.splitlines())


def make(bug):
    scr = tempfile.mkdtemp(prefix='scr_', dir='/tmp')
    shutil.rmtree(scr)
    shutil.copytree('/repo', scr, symlinks=True)
    try:
        edits = bug.get('edits') or [(bug['file'], *bug['edit'])]
        for e in edits:
            path, old, new = e
            raw = Path(scr, path).read_bytes().decode()
            crlf = '\r\n' in raw
            if crlf:
                old, new = old.replace('\n', '\r\n'), new.replace('\n', '\r\n')
            assert raw.count(old) == 1, f'{bug["id"]}: {raw.count(old)} matches in {path}: {old!r}'
            Path(scr, path).write_bytes(raw.replace(old, new).encode())
        diff = subprocess.run(['git', 'diff', '--no-color'], cwd=scr, capture_output=True).stdout
        removed = [l[1:].rstrip() for l in diff.decode().splitlines() if l.startswith('-') and not l.startswith('---')]
        orig = set().union(*(original_lines(scr, e[0]) for e in edits))
        foreign = [l for l in removed if l not in orig]
        out = SEEDED / bug['id']
        out.mkdir(parents=True, exist_ok=True)
        (out / 'patch.diff').write_bytes(diff)
        (out / 'demo.py').write_text(bug['demo'].lstrip('\n'))
        (out / 'demo.sh').write_text(DEMO)
        os.chmod(out / 'demo.sh', 0o755)
        (out / 'meta.json').write_text(json.dumps({'property': bug['property'], 'needs': bug['needs'], 'what_it_breaks': bug['breaks']}, indent=1) + '\n')
        msg = []
        if foreign or not removed:
            msg.append(f'lines not in the original: {foreign or "nothing removed"}')
        d1 = sh(['bash', str(out / 'demo.sh')], scr, timeout=300)
        d0 = sh(['bash', str(out / 'demo.sh')], '/repo', timeout=300)
        if d0.returncode != 0:
            msg.append(f'demo fails unpatched: {d0.stdout[-300:]} {d0.stderr[-600:]}')
        if d1.returncode == 0:
            msg.append('demo passes patched')
        if not msg and not bug.get('notests'):
            t = sh([PY, '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', '--ignore=tests/models/test_thevenin.py', '-n', '2', 'tests'], scr,
                   env=dict(os.environ, OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1'))
            if t.returncode != 0:
                msg.append('tests fail: ' + '\n'.join(l for l in t.stdout.splitlines() if l.startswith('FAILED') or 'rror' in l)[-500:])
        return bug['id'], msg
    except Exception as e:
        return bug['id'], [repr(e)]
    finally:
        shutil.rmtree(scr, ignore_errors=True)


def check(name, props=None):
    meta = json.loads((SEEDED / name / 'meta.json').read_text())
    scr = f'/tmp/chk_{name}'
    shutil.rmtree(scr, ignore_errors=True)
    shutil.copytree('/repo', scr, symlinks=True)
    try:
        a = sh(['git', 'apply', str(SEEDED / name / 'patch.diff')], scr)
        assert a.returncode == 0, a.stderr
        res = {}
        for p in props or [meta['property']]:
            r = sh(['./run.sh', p, 'quick'], '/verif', env=dict(os.environ, VERIF_REPO=scr, VERIF_EVIDENCE=f'/tmp/ev_{name}'))
            v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION property=' + p)]
            res[p] = ('CAUGHT' if r.returncode == 1 and v else 'missed' if r.returncode == 0 else f'rc={r.returncode}')
        return name, meta['property'], res
    finally:
        shutil.rmtree(scr, ignore_errors=True)
        shutil.rmtree(f'/tmp/ev_{name}', ignore_errors=True)


if __name__ == '__main__':
    mode, args = sys.argv[1], sys.argv[2:]
    if mode == 'make':
        bugs = runpy.run_path(args[0])['BUGS']
        want = set(args[1:])
        bugs = [b for b in bugs if not want or b['id'] in want]
        ids = [b['id'] for b in bugs]
        assert len(set(ids)) == len(ids)
        with ThreadPoolExecutor(7) as ex:
            for name, msg in ex.map(make, bugs):
                print(name, 'OK' if not msg else 'BAD ' + ' | '.join(msg), flush=True)
    else:
        allp = '--all' in args
        names = [a for a in args if not a.startswith('--')] or sorted(p.name for p in SEEDED.iterdir())
        props = [f'C{i:02d}' for i in range(1, 22)] if allp else None
        with ThreadPoolExecutor(6) as ex:
            for name, p, res in ex.map(lambda n: check(n, props), names):
                print(name, p, res if not allp else {k: v for k, v in res.items() if v != 'missed'}, flush=True)
