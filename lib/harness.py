"""Framework shared by all runtime-monitoring checks.

A check is a module ``checks/<ID>.py`` with

* ``WORKLOADS``: list of :class:`WL`, each of which drives the real code of /repo once per case
  while monitors (oracles) watch the observable behaviour;
* ``REQUIRED``: minimum value of observation counters; if a run finishes without violation but has
  not observed that much, the verdict is *inconclusive* (exit 2), never *held*;
* ``RULE``: how cases are made and what makes one non-trivial.

Every case draws from its own generator seeded by (VERIF_SEED, property, workload, index), so a violation is
replayed from those four values alone.
"""
import hashlib
import importlib
import importlib.abc
import importlib.util
import json
import math
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback
import warnings
import zlib
from collections import Counter
from dataclasses import dataclass
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
REPO = Path(os.environ.get('VERIF_REPO', '/repo'))


# ---------------------------------------------------------------- loading the code under test
class _SourceLoader(importlib.machinery.SourceFileLoader):
    """Always compile from the source in the working tree: never trust a cached .pyc"""

    def get_code(self, fullname):
        path = self.get_filename(fullname)
        return compile(self.get_data(path), path, 'exec', dont_inherit=True)


class _Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, fullname, path=None, target=None):
        if fullname != 'moirae' and not fullname.startswith('moirae.'):
            return None
        base = REPO.joinpath(*fullname.split('.'))
        if (base / '__init__.py').is_file():
            f = str(base / '__init__.py')
            return importlib.util.spec_from_file_location(
                fullname, f, loader=_SourceLoader(fullname, f), submodule_search_locations=[str(base)])
        f = str(base) + '.py'
        if os.path.isfile(f):
            return importlib.util.spec_from_file_location(fullname, f, loader=_SourceLoader(fullname, f))
        return None


def install_repo():
    sys.dont_write_bytecode = True
    sys.meta_path.insert(0, _Finder())
    warnings.simplefilter('ignore')
    import moirae
    assert Path(moirae.__file__).resolve().is_relative_to(REPO.resolve()), moirae.__file__


# ---------------------------------------------------------------- verdicts
class Violation(Exception):
    def __init__(self, kind, msg, detail=None):
        super().__init__(f'{kind}: {msg}')
        self.kind, self.msg, self.detail = kind, msg, detail


class CaseTimeout(BaseException):
    pass


def brief(x, n=400):
    import numpy as np
    if isinstance(x, np.ndarray):
        s = np.array2string(x, threshold=40, precision=10, separator=',').replace('\n', ' ')
    else:
        s = repr(x)
    return s if len(s) <= n else s[:n] + '...'


@dataclass
class WL:
    name: str
    fn: object
    quick: int
    thorough: int
    limit: int = 300  # wall-clock watchdog per case (s); firing is inconclusive


class Ctx:
    """Monitor-side state of a single case"""

    def __init__(self, pid, wl, index, seed, tier):
        import numpy as np
        self.pid, self.wl, self.index, self.seed, self.tier = pid, wl, index, seed, tier
        self.rng = np.random.default_rng([seed, zlib.crc32(pid.encode()), zlib.crc32(wl.encode()), index])
        self.thorough = tier == 'thorough'
        self.counts = Counter()
        self.sigs = set()
        self.desc = None
        self.violations = []

    # -- observations
    def obs(self, name, n=1):
        self.counts[name] += n

    def case(self, nontrivial=True, **desc):
        """Describe the case (for evidence) and count it as distinct if the description is"""
        if self.desc is None:
            self.desc = desc
        if nontrivial:
            self.sigs.add(hashlib.sha1(repr((self.wl, sorted((k, brief(v, 4000)) for k, v in desc.items())))
                                       .encode()).hexdigest()[:16])

    # -- oracles
    def fail(self, kind, msg, **detail):
        raise Violation(kind, msg, {k: brief(v, 2000) for k, v in detail.items()})

    def check(self, cond, kind, msg='', **detail):
        self.counts['oracle_evaluations'] += 1
        if not cond:
            self.fail(kind, msg or kind, **detail)

    def close(self, got, want, kind, msg='', rtol=1e-8, atol=1e-11, **detail):
        import numpy as np
        self.counts['oracle_evaluations'] += 1
        got, want = np.asarray(got, dtype=float), np.asarray(want, dtype=float)
        if got.shape != want.shape:
            self.fail(kind, f'{msg}: shape {got.shape} instead of {want.shape}', got=got, want=want, **detail)
        ok = np.isclose(got, want, rtol=rtol, atol=atol, equal_nan=False)
        if not ok.all():
            worst = float(np.nanmax(np.where(ok, 0, np.abs(got - want)))) if got.size else 0
            self.fail(kind, f'{msg}: values differ (max abs {worst:.3g})', got=got, want=want, **detail)

    def raises(self, exc, fn, kind, msg=''):
        """fn must raise one of exc"""
        self.counts['oracle_evaluations'] += 1
        try:
            r = fn()
        except exc:
            return
        except Exception as e:
            self.fail(kind, f'{msg}: raised {type(e).__name__} ({e}) instead of {exc}')
        self.fail(kind, f'{msg}: did not raise', returned=r)

    def collect(self, fn, *args, **kwargs):
        """Run one part of a case; note its violation and go on"""
        try:
            return fn(*args, **kwargs)
        except Violation as v:
            self.violations.append(v)


def load_known(pid):
    out = {}
    f = VERIF / 'known_findings.jsonl'
    if f.is_file():
        for line in f.read_text().splitlines():
            if line.strip():
                e = json.loads(line)
                if e['property'] == pid and e['status'] == 'known':
                    out[e['key']] = e
    return out


# ---------------------------------------------------------------- execution
_STATE = {}


def _alarm(signum, frame):
    raise CaseTimeout()


def _run_case(job):
    name, index = job
    mod, pid, seed, tier = _STATE['mod'], _STATE['pid'], _STATE['seed'], _STATE['tier']
    wl = next(w for w in mod.WORKLOADS if w.name == name)
    ctx = Ctx(pid, name, index, seed, tier)
    t0 = time.time()
    timed_out = False
    violations = ctx.violations
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(wl.limit)
    try:
        wl.fn(ctx)
    except Violation as v:
        violations.append(v)
    except CaseTimeout:
        timed_out = True
    except (KeyboardInterrupt, SystemExit):
        raise
    except Exception as e:
        tb = traceback.format_exc()
        violations.append(Violation(f'exception:{type(e).__name__}', f'unexpected {type(e).__name__}: {e}', {'traceback': tb[-3000:]}))
    finally:
        signal.alarm(0)
    return dict(wl=name, index=index, counts=dict(ctx.counts), sigs=list(ctx.sigs),
                desc={k: brief(v, 600) for k, v in (ctx.desc or {}).items()},
                violations=[(v.kind, v.msg, v.detail) for v in violations], timeout=timed_out, wall=time.time() - t0)


def _run_batch(batch):
    return [_run_case(j) for j in batch]


def main(argv=None):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('tier', nargs='?', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    ap.add_argument('--only', help='only this workload')
    ap.add_argument('--jobs', type=int, default=int(os.environ.get('VERIF_JOBS', 0)) or min(8, os.cpu_count() or 1))
    a = ap.parse_args(argv)
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    tier = a.tier if a.tier in ('quick', 'thorough') else 'quick'
    t0 = time.time()

    try:
        install_repo()
        mod = importlib.import_module(f'checks.{a.pid}')
    except Exception:
        traceback.print_exc()
        # The code under test cannot even be loaded with its public interface: no answer possible
        print(f'INCONCLUSIVE property={a.pid} the check could not be loaded')
        return 2

    if a.replay:
        r = json.loads(Path(a.replay).read_text())
        seed, tier = r['seed'], r['tier']
        jobs = [(r['workload'], r['index'])]
    else:
        jobs = []
        for w in mod.WORKLOADS:
            if a.only and w.name != a.only:
                continue
            jobs.append([(w.name, i) for i in range(getattr(w, tier))])
        # Interleave the workloads so that a deadline cuts all of them alike
        total = sorted(((i + .5) / len(js), w, j) for w, js in enumerate(jobs) for i, j in enumerate(js))
        jobs = [j for _, _, j in total]
    _STATE.update(mod=mod, pid=a.pid, seed=seed, tier=tier)
    budget = float(os.environ.get('VERIF_BUDGET_S', 420 if tier == 'quick' else 780))
    known = load_known(a.pid)
    fast = bool(os.environ.get('VERIF_FAST'))  # for experiments: stop at the first violation, write no evidence

    results, skipped = [], 0
    if a.replay or a.jobs == 1:
        for j in jobs:
            results.append(_run_case(j))
            if fast and any(k not in known for k, _, _ in results[-1]['violations']):
                break
    else:
        pool = mp.get_context('fork').Pool(a.jobs, maxtasksperchild=None)
        chunk = max(1, min(8, len(jobs) // (a.jobs * 8)))
        batches = [jobs[i:i + chunk] for i in range(0, len(jobs), chunk)]
        it = pool.imap_unordered(_run_batch, batches)
        try:
            for _ in range(len(batches)):
                left = budget - (time.time() - t0)
                if left <= 0:
                    raise mp.TimeoutError
                results.extend(it.next(timeout=left))
        except mp.TimeoutError:
            skipped = len(jobs) - len(results)
        finally:
            pool.terminate()
            pool.join()

    # Gather
    counts, sigs, per_wl = Counter(), set(), Counter()
    viol, found, timeouts = {}, {}, 0
    for r in sorted(results, key=lambda r: (r['wl'], r['index'])):
        counts.update(r['counts'])
        sigs.update(r['sigs'])
        per_wl[r['wl']] += 1
        timeouts += r['timeout']
        for kind, msg, detail in r['violations']:
            if kind in known:
                found.setdefault(kind, (r, msg))
            else:
                viol.setdefault(kind, []).append((r, msg, detail))

    # Report
    rdir = VERIF / 'evidence' / 'replays'
    rdir.mkdir(parents=True, exist_ok=True)
    for k, (r, msg) in found.items():
        print(f'KNOWN-FINDING: property={a.pid} {known[k]["what"]} [{k}; workload {r["wl"]} case {r["index"]}]')
    n_viol = sum(len(v) for v in viol.values())
    for k, items in sorted(viol.items(), key=lambda x: -len(x[1])):
        r, msg, detail = items[0]
        path = rdir / f'{a.pid}-{r["wl"]}-{r["index"]}-{seed}-{tier}.json'
        path.write_text(json.dumps(dict(property=a.pid, workload=r['wl'], index=r['index'], seed=seed, tier=tier, kind=k,
                                        message=msg, detail=detail, case=r['desc'],
                                        rerun=f'./run.sh {a.pid} --replay {path}'), indent=1))
        print(f'VIOLATION property={a.pid} replay={path}')
        print(f'   {k}: {msg[:300]} (workload {r["wl"]} case {r["index"]}; {len(items)} cases of this kind)')

    missing = {}
    if not a.replay and not a.only:
        missing = {k: (counts.get(k, 0), v) for k, v in mod.REQUIRED.items() if counts.get(k, 0) < v}
        missing_known = [k for k in known if k not in found]
    else:
        missing_known = []
    if missing_known and not viol:
        print(f'note: listed findings not reproduced in this run: {missing_known}')

    samples = [dict(r['desc'], workload=r['wl'], index=r['index']) for r in results if r['desc']]
    step = max(1, len(samples) // 6)
    evidence = dict(
        property=a.pid, tier=tier, seed=seed, level='exploration',
        coverage=dict(evaluations=len(results), distinct_nontrivial=len(sigs), rule=mod.RULE, samples=samples[::step][:8],
                      cases_per_workload=dict(per_wl), observations=dict(sorted(counts.items())),
                      cases_not_run_for_time=skipped, cases_timed_out=timeouts, known_findings_reproduced=sorted(found)),
        assumptions=getattr(mod, 'ASSUMPTIONS', []), wall_s=round(time.time() - t0, 2), violations=n_viol)
    if not a.replay and not a.only and not fast:
        (VERIF / 'evidence').mkdir(exist_ok=True)
        (VERIF / 'evidence' / f'{a.pid}.json').write_text(json.dumps(evidence, indent=1))
    print(f'{a.pid} {tier} seed={seed}: {len(results)} cases ({len(sigs)} distinct non-trivial), '
          f'{counts.get("oracle_evaluations", 0)} oracle evaluations, {n_viol} violations, {skipped} not run, '
          f'{timeouts} timed out, {time.time() - t0:.1f} s')
    if n_viol:
        return 1
    if missing or timeouts > max(2, len(results) // 50) or not results:
        print(f'INCONCLUSIVE property={a.pid} monitors not reached: {missing} timeouts={timeouts}')
        return 2
    return 0
