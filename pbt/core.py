"""Clauses (one generated-input search each), their execution over shards, and reporting"""
import hashlib
import json
import math
import multiprocessing as mp
import os
import pathlib
import signal
import sys
import time
import traceback
import warnings
from dataclasses import dataclass
from typing import Any, Callable

from . import boot

import numpy as np
from hypothesis import HealthCheck, Phase, given, seed as hyp_seed, settings
import hypothesis.errors
import hypothesis.internal.conjecture.engine as _engine

ROOT = pathlib.Path(__file__).resolve().parents[1]
SHARDS = 8  # Fixed, so that what is generated does not depend on the machine
SHRINK = os.environ.get('PBT_SHRINK', '1') != '0'  # Not when testing the checks themselves
SHRINK_SECONDS = 30
WALL_LIMIT = {'quick': 780, 'thorough': 6 * 3600}
_engine.MAX_SHRINKING_SECONDS = SHRINK_SECONDS


class Violation(AssertionError):
    """The code under test broke the property"""


class Reject(Exception):
    """The generated case is outside the domain (used sparingly, counted)"""


def fail(msg):
    raise Violation(msg)


def require(cond, msg='condition is false'):
    if not bool(cond):
        raise Violation(msg() if callable(msg) else msg)


def close(actual, expected, what='value', rtol=1e-8, atol=1e-9):
    """Compare shapes and values"""
    a, e = np.asarray(actual, dtype=float), np.asarray(expected, dtype=float)
    if a.shape != e.shape:
        raise Violation(f'{what}: shape {a.shape}, expected {e.shape}')
    ok = np.isclose(a, e, rtol=rtol, atol=atol, equal_nan=True)
    if not ok.all():
        ind = tuple(int(i) for i in np.argwhere(~ok)[0]) if a.ndim else ()
        raise Violation(f'{what}: got {a[ind]!r}, expected {e[ind]!r} at index {ind}')


def same(actual, expected, what='value'):
    """Exact comparison of arrays"""
    a, e = np.asarray(actual), np.asarray(expected)
    if a.shape != e.shape:
        raise Violation(f'{what}: shape {a.shape}, expected {e.shape}')
    if not np.array_equal(a, e, equal_nan=a.dtype.kind == 'f' and e.dtype.kind == 'f'):
        raise Violation(f'{what}: got {a.tolist()!r}, expected {e.tolist()!r}')


def frames(actual, expected, what='table'):
    """Exact comparison of tables"""
    require(actual is not None and list(actual.columns) == list(expected.columns) and actual.index.equals(expected.index) and
            actual.equals(expected), f'{what}: changed to {actual} from {expected}')


def raises(func, what, *types):
    """Require that a call is rejected"""
    types = types or (Exception,)
    try:
        func()
    except types:
        return
    except Exception as e:  # rejected, but not by a proper error
        raise Violation(f'{what}: raised {type(e).__name__}: {e} rather than one of {[t.__name__ for t in types]}')
    raise Violation(f'{what}: was accepted')


@dataclass
class Clause:
    name: str
    strategy: Any  # A Hypothesis strategy of JSON-able cases, or a function returning one
    check: Callable
    rule: str  # What makes a case non-trivial
    quick: int = 400
    thorough: int = 20000


class Note:
    """Passed to checks so they can classify the case"""

    def __init__(self):
        self.labels = set()
        self.nontrivial = False

    def __call__(self, *labels, nontrivial=None):
        self.labels.update(labels)
        if nontrivial:
            self.nontrivial = True


def digest(case):
    return hashlib.sha1(json.dumps(case, sort_keys=True).encode()).hexdigest()[:16]


def from_repo(exc):
    """Whether an exception passed through the code under test"""
    mark = os.path.join(os.path.abspath(boot.REPO), 'moirae') + os.sep
    seen = set()
    while exc is not None and id(exc) not in seen:
        seen.add(id(exc))
        for f in traceback.extract_tb(exc.__traceback__):
            if os.path.abspath(f.filename).startswith(mark):
                return True
        exc = exc.__cause__ or exc.__context__
    return False


def of_harness(exc):
    """Whether an exception which did not pass through the code under test cannot be due to what that code accepts or returns

    Values which are refused by Pydantic, or results which cannot be read as what they should be, fail in frames outside of the code
    under test. No check raises on a tree which holds its property.
    """
    if isinstance(exc, AttributeError) and str(getattr(exc, 'name', None) or '').startswith('_'):
        return True  # Internals of the code may have other names
    return not isinstance(exc, (ArithmeticError, AssertionError, AttributeError, LookupError, TypeError, ValueError))


def run_case(clause, case):
    """Run one case. Returns (None | message, note); errors of the harness propagate"""
    note = Note()
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        with np.errstate(all='ignore'):
            try:
                clause.check(case, note)
            except Violation as e:
                return str(e), note
            except Reject:
                note('rejected')
                return None, note
            except (KeyboardInterrupt, SystemExit, MemoryError):
                raise
            except Exception as e:
                if from_repo(e) or not of_harness(e):
                    frames = [f for f in traceback.extract_tb(e.__traceback__)]
                    last = frames[-1]
                    return (f'unexpected {type(e).__name__}: {e} '
                            f'({os.path.basename(last.filename)}:{last.name})'), note
                raise
    return None, note


class _Found(Exception):
    pass


def _shard(clause, n, seed_value, out, tier):
    """Search in one process, put the results on a queue"""
    res = {'clause': clause.name, 'evaluations': 0, 'rejected': 0, 'nontrivial': set(), 'labels': {}, 'samples': [],
           'failure': None, 'error': None}
    state = {'last': None}
    try:
        strat = clause.strategy() if callable(clause.strategy) else clause.strategy

        @hyp_seed(seed_value)
        @settings(max_examples=n, database=None, deadline=None, derandomize=False, report_multiple_bugs=False,
                  phases=[Phase.generate] + [Phase.shrink] * SHRINK, suppress_health_check=list(HealthCheck), print_blob=False)
        @given(strat)
        def search(case):
            case = json.loads(json.dumps(case))
            msg, note = run_case(clause, case)
            if state['last'] is None:  # Do not count the executions used for shrinking
                res['evaluations'] += 1
                if 'rejected' in note.labels:
                    res['rejected'] += 1
                elif note.nontrivial:
                    res['nontrivial'].add(digest(case))
                    if len(res['samples']) < 2 and len(json.dumps(case)) < 6000:
                        res['samples'].append({'clause': clause.name, 'case': case, 'labels': sorted(note.labels)})
                for label in note.labels:
                    res['labels'][label] = res['labels'].get(label, 0) + 1
            if msg is not None:
                state['last'] = (case, msg)
                raise _Found(msg)
        try:
            search()
        except _Found:
            pass
        except BaseException as e:
            # Hypothesis reports flaky failures as its own error: keep the recorded case
            if state['last'] is None or isinstance(e, (KeyboardInterrupt, MemoryError)):
                raise
        if state['last'] is not None:
            res['failure'] = {'case': state['last'][0], 'message': state['last'][1]}
    except BaseException:
        res['error'] = traceback.format_exc()
    res['nontrivial'] = sorted(res['nontrivial'])
    out.send(res)
    out.close()


def derive_seed(*parts):
    return int.from_bytes(hashlib.sha256('/'.join(map(str, parts)).encode()).digest()[:6], 'big')


def run_jobs(jobs, limit, workers):
    """Run (clause, n, seed, tier) jobs in forked processes"""
    ctx = mp.get_context('fork')
    pending, running, results = list(jobs), [], []
    start = time.time()
    stop = False
    while pending or running:
        while pending and len(running) < workers and not stop:
            clause, n, s, tier = pending.pop(0)
            rx, tx = ctx.Pipe(duplex=False)
            p = ctx.Process(target=_shard, args=(clause, n, s, tx, tier), daemon=True)
            p.start()
            tx.close()
            running.append((p, rx, clause))
        from multiprocessing.connection import wait
        ready = wait([r for _, r, _ in running], timeout=1.0)
        for item in list(running):
            p, rx, clause = item
            if rx in ready:
                try:
                    results.append(rx.recv())
                except EOFError:
                    results.append({'clause': clause.name, 'evaluations': 0, 'rejected': 0, 'nontrivial': [],
                                    'labels': {}, 'samples': [], 'failure': None,
                                    'error': f'worker ended without a result (exit code {p.exitcode})'})
                p.join()
                running.remove(item)
                if results[-1]['failure'] is not None:
                    stop, pending = True, []  # One failure decides
        if time.time() - start > limit:
            for p, rx, clause in running:
                try:
                    os.kill(p.pid, signal.SIGKILL)
                except OSError:
                    pass
                results.append({'clause': clause.name, 'evaluations': 0, 'rejected': 0, 'nontrivial': [], 'labels': {},
                                'samples': [], 'failure': None, 'error': 'time limit reached: inconclusive'})
            running, pending = [], []
        if stop and running:
            # Give the others a moment in case they hold smaller failures, then end them
            t_end = time.time() + 1.0
            for p, rx, clause in running:
                if rx.poll(max(0., t_end - time.time())):
                    try:
                        results.append(rx.recv())
                    except EOFError:
                        pass
                if p.is_alive():
                    p.terminate()
                p.join()
            running = []
    return results


def load_lines(path):
    if not path.exists():
        return []
    return [json.loads(line) for line in path.read_text().splitlines() if line.strip()]


def known_findings(pid):
    """Findings recorded but not repaired: known_findings.txt holds one line each"""
    out = []
    path = ROOT / 'known_findings.txt'
    if path.exists():
        for line in path.read_text().splitlines():
            if line.startswith(f'known: property={pid} '):
                body = line[len(f'known: property={pid} '):]
                rec, what = body.split(' ## ', 1)
                out.append((json.loads(rec), what))
    return out


def main(pid, title, clauses, assumptions=(), rule=''):
    tier = os.environ.get('VERIF_TIER', 'quick')
    tier = tier if tier in ('quick', 'thorough') else 'quick'
    seed_value = int(os.environ.get('VERIF_SEED', '1') or 1)
    by_name = {c.name: c for c in clauses}
    args = sys.argv[2:]

    if args[:1] == ['--replay']:
        rec = json.loads(pathlib.Path(args[1]).read_text())
        msg, _ = run_case(by_name[rec['clause']], rec['case'])
        print('violated: ' + msg if msg else 'held')
        return 1 if msg else 0
    only = None
    if args[:1] == ['--clause']:
        only = args[1]
    scale = float(os.environ.get('PBT_SCALE', '1'))

    t0 = time.time()
    failures, errors, evals, labels, nontriv, samples, per_clause = [], [], 0, {}, set(), [], {}

    # 1. Known findings: the specific inputs which fail and are not repaired
    known = []
    for rec, what in known_findings(pid):
        msg, _ = run_case(by_name[rec['clause']], rec['case'])
        evals += 1
        known.append(digest(rec))
        if msg is not None:
            print(f'KNOWN-FINDING: property={pid} {what}')

    # 2. Saved cases: minimal inputs of defects found before
    for rec in load_lines(ROOT / 'regress' / f'{pid}.jsonl'):
        if rec['clause'] not in by_name or (only and rec['clause'] != only):
            continue
        try:
            msg, note = run_case(by_name[rec['clause']], rec['case'])
        except Exception:
            errors.append(traceback.format_exc())
            continue
        evals += 1
        if note.nontrivial:
            nontriv.add(rec['clause'] + digest(rec['case']))
        if msg is not None:
            failures.append((rec['clause'], rec['case'], msg))

    # 3. Generated cases
    if not failures:
        jobs = []
        for c in clauses:
            if only and c.name != only:
                continue
            if c.quick == 0:  # Only for findings which are known
                continue
            n = max(1, int(scale * (c.quick if tier == 'quick' else c.thorough)))
            shards = min(SHARDS, max(1, n // 20))
            for i in range(shards):
                jobs.append((c, -(-n // shards), derive_seed(seed_value, pid, c.name, i), tier))
        # Interleave, so that a cheap clause is not stuck behind an expensive one
        jobs.sort(key=lambda j: j[2])
        for res in run_jobs(jobs, WALL_LIMIT[tier], min(SHARDS, os.cpu_count() or 1)):
            c = res['clause']
            evals += res['evaluations']
            nontriv.update(c + h for h in res['nontrivial'])
            d = per_clause.setdefault(c, {'evaluations': 0, 'rejected': 0, 'distinct_nontrivial': set(), 'labels': {},
                                          'nontrivial_if': by_name[c].rule})
            d['evaluations'] += res['evaluations']
            d['rejected'] += res['rejected']
            d['distinct_nontrivial'].update(res['nontrivial'])
            for k, v in res['labels'].items():
                d['labels'][k] = d['labels'].get(k, 0) + v
            if sum(s['clause'] == c for s in samples) < 2:
                samples.extend(res['samples'][:1])
            if res['failure']:
                failures.append((c, res['failure']['case'], res['failure']['message']))
            if res['error']:
                errors.append(f'[{c}] ' + res['error'])

    for d in per_clause.values():
        d['distinct_nontrivial'] = len(d['distinct_nontrivial'])
        d['labels'] = dict(sorted(d['labels'].items()))

    # Report
    replay = None
    if failures:
        failures.sort(key=lambda f: len(json.dumps(f[1])))
        c, case, msg = failures[0]
        (ROOT / 'replays').mkdir(exist_ok=True)
        replay = ROOT / 'replays' / f'{pid}-{c}-{digest(case)}.json'
        replay.write_text(json.dumps({'property': pid, 'clause': c, 'message': msg, 'case': case}, indent=1))
        print(f'[{pid}/{c}] {msg}')

    evidence = {
        'property': pid, 'tier': tier, 'seed': seed_value, 'level': 'exploration',
        'coverage': {
            'evaluations': evals,
            'distinct_nontrivial': len(nontriv),
            'rule': rule or '; '.join(f'{c.name}: {c.rule}' for c in clauses),
            'samples': samples[:10],
            'clauses': per_clause,
            'saved_cases_replayed': len(load_lines(ROOT / 'regress' / f'{pid}.jsonl')),
            'known_findings_replayed': len(known),
        },
        'assumptions': list(assumptions),
        'wall_s': round(time.time() - t0, 2),
        'violations': len(failures),
    }
    if not only:
        (ROOT / 'evidence').mkdir(exist_ok=True)
        (ROOT / 'evidence' / f'{pid}.json').write_text(json.dumps(evidence, indent=1))
    else:
        print(json.dumps({k: v for k, v in evidence['coverage'].items() if k not in ('samples', 'rule')}, indent=1))

    if failures:
        print(f'VIOLATION property={pid} replay={replay}')
        return 1
    if errors:
        print(f'ERROR property={pid}: {len(errors)} errors of the check itself')
        print(errors[0])
        return 2
    print(f'OK property={pid} ({title}): {evals} cases, {len(nontriv)} distinct non-trivial, '
          f'{evidence["wall_s"]} s')
    return 0
