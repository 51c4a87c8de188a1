"""Search driver: generated cases, oracles, shrinking, replay, evidence.

A property module (zv/props/<id>.py) defines

    RULE   how cases are made and what makes one non-trivial
    SUBS   list of Sub(name, strategy, run, quick, thorough)

`strategy` generates a JSON value, `run(case, ctx)` executes the code under
test against an oracle and raises on disagreement.  `run` never draws anything
itself, so the JSON value is the whole replay.
"""
from __future__ import annotations

import argparse
import dataclasses
import hashlib
import importlib
import json
import os
import pathlib
import signal
import subprocess
import sys
import time
import traceback
from typing import Any, Callable

VERIF = pathlib.Path(__file__).resolve().parent.parent


class HarnessError(Exception):
    """A defect of the machinery or of its environment (never a violation)."""


@dataclasses.dataclass
class Sub:
    name: str
    strategy: Any
    run: Callable
    quick: int
    thorough: int
    #: Explicit cases (regressions) always executed first.
    examples: tuple = ()


class Ctx:
    """What a case reports about itself."""

    def __init__(self):
        self.labels: set[str] = set()
        self.nontrivial = False

    def label(self, *names: str) -> None:
        self.labels.update(names)

    def nt(self, cond: bool = True) -> None:
        if cond:
            self.nontrivial = True


def fail(message: str) -> None:
    raise AssertionError(message)


def check(cond, message) -> None:
    if not cond:
        raise AssertionError(message() if callable(message) else message)


_FATAL = (MemoryError, KeyboardInterrupt, HarnessError)


def _is_environment(exc: BaseException) -> bool:
    if isinstance(exc, _FATAL):
        return True
    return isinstance(exc, OSError) and exc.errno in (23, 24, 28, 12)


class Shard:
    def __init__(self, prop: str, shard: int, nshards: int, seed: int,
                 tier: str, out: pathlib.Path, budget: float, only=None):
        self.prop, self.shard, self.nshards = prop, shard, nshards
        self.seed, self.tier, self.out = seed, tier, out
        self.budget = budget
        self.only = only
        self.t0 = time.monotonic()
        self.evaluations = 0
        self.skipped = 0
        self.rejected = 0
        self.hashes: set[str] = set()
        self.nthashes: set[str] = set()
        self.labels: dict[str, int] = {}
        self.subs: dict[str, int] = {}
        self.samples: list = []
        self.failure = None
        self.unconfirmed: list = []
        self.about: dict = {}

    def left(self) -> float:
        return self.budget - (time.monotonic() - self.t0)

    def one(self, sub: Sub, case) -> None:
        """Execute one case; any exception but an environmental one fails it."""
        text = json.dumps(case, sort_keys=True)
        self.out.with_suffix('.cur').write_text(
            json.dumps({'sub': sub.name, 'case': case}))
        ctx = Ctx()
        sub.run(json.loads(text), ctx)
        self.evaluations += 1
        self.subs[sub.name] = self.subs.get(sub.name, 0) + 1
        digest = hashlib.sha1((sub.name + text).encode()).hexdigest()[:16]
        for item in ctx.labels:
            key = f'{sub.name}:{item}'
            self.labels[key] = self.labels.get(key, 0) + 1
        if ctx.nontrivial and digest not in self.nthashes:
            self.nthashes.add(digest)
            if len([s for s in self.samples if s['sub'] == sub.name]) < 2 \
                    and len(text) < 4000:
                self.samples.append({'sub': sub.name, 'case': case})

    def run_sub(self, sub: Sub) -> None:
        import hypothesis
        from hypothesis import HealthCheck, Phase, settings

        best: dict = {}
        first_failure = [None]
        shrink_budget = 60.0 if self.tier == 'quick' else 240.0

        def guarded(case) -> None:
            if first_failure[0] is None:
                if self.left() <= 0:
                    self.skipped += 1
                    return
            elif time.monotonic() - first_failure[0] > shrink_budget:
                return
            try:
                self.one(sub, case)
            except hypothesis.errors.HypothesisException:
                raise
            except BaseException as exc:  # noqa: BLE001
                if _is_environment(exc):
                    raise HarnessError(
                        ''.join(traceback.format_exception(exc))) from exc
                if first_failure[0] is None:
                    first_failure[0] = time.monotonic()
                text = json.dumps(case, sort_keys=True)
                if 'case' not in best or len(text) <= best['len']:
                    best.update(case=case,
                                len=len(text),
                                error=''.join(
                                    traceback.format_exception(exc))[-6000:],
                                message=f'{type(exc).__name__}: {exc}'[:1500])
                raise AssertionError('case failed') from exc

        for case in (sub.examples if self.shard == 0 else ()):
            try:
                guarded(case)
            except AssertionError:
                break

        count = sub.quick if self.tier == 'quick' else sub.thorough
        if 'case' not in best and count:
            derived = int(
                hashlib.sha256(
                    f'{self.seed}/{self.prop}/{sub.name}/{self.shard}'.encode(
                    )).hexdigest()[:12], 16)

            @settings(max_examples=count,
                      database=None,
                      deadline=None,
                      derandomize=False,
                      print_blob=False,
                      report_multiple_bugs=False,
                      phases=(Phase.generate, Phase.shrink),
                      suppress_health_check=list(HealthCheck))
            @hypothesis.seed(derived)
            @hypothesis.given(sub.strategy)
            def test(case):
                guarded(case)

            try:
                test()
            except HarnessError:
                raise
            except BaseException as exc:  # noqa: BLE001
                if 'case' not in best:
                    raise HarnessError(
                        ''.join(traceback.format_exception(exc))) from exc
        if 'case' in best:
            # Confirm outside Hypothesis: a failure that cannot be repeated is
            # inconclusive, not a violation.
            confirmed = False
            for _ in range(3):
                try:
                    self.one(sub, best['case'])
                except BaseException as exc:  # noqa: BLE001
                    if _is_environment(exc):
                        raise HarnessError(str(exc)) from exc
                    confirmed = True
                    best['error'] = ''.join(
                        traceback.format_exception(exc))[-6000:]
                    best['message'] = f'{type(exc).__name__}: {exc}'[:1500]
                    break
            record = {'property': self.prop, 'sub': sub.name, **best}
            if confirmed:
                self.failure = record
            else:
                self.unconfirmed.append(record)

    def write(self, status: str, note: str = '') -> None:
        self.out.write_text(
            json.dumps({
                'status': status,
                'note': note,
                'evaluations': self.evaluations,
                'skipped': self.skipped,
                'nthashes': sorted(self.nthashes),
                'labels': self.labels,
                'subs': self.subs,
                'samples': self.samples,
                'failure': self.failure,
                'unconfirmed': self.unconfirmed,
                **self.about,
            }))


def load_prop(prop: str):
    from . import env
    env.setup()
    return importlib.import_module(f'zv.props.{prop.lower()}')


def shard_main(args) -> int:
    out = pathlib.Path(args.out)
    shard = Shard(args.prop, args.shard, args.nshards, args.seed, args.tier,
                  out, args.budget, args.only)
    code = 0
    try:
        module = load_prop(args.prop)
        shard.about = {
            'rule': module.RULE,
            'level': getattr(module, 'LEVEL', 'exploration'),
            'assumptions': list(getattr(module, 'ASSUMPTIONS', ())),
        }
        subs = [s for s in module.SUBS
                if args.only is None or s.name in args.only.split(',')]
        for ix, sub in enumerate(subs):
            # Share what is left of the time between the remaining parts.
            total = shard.budget
            spent = time.monotonic() - shard.t0
            shard.budget = spent + max(5.0, (total - spent) / (len(subs) - ix))
            shard.run_sub(sub)
            shard.budget = total
            shard.write('running')
            if shard.failure:
                break
        shard.write('violation' if shard.failure else 'ok')
    except BaseException as exc:  # noqa: BLE001
        shard.write('error', ''.join(traceback.format_exception(exc))[-6000:])
        code = 2
    finally:
        sys.stdout.flush()
        sys.stderr.flush()
        _finish(code)
    return code


def _finish(code: int) -> None:
    """Leave without waiting for Dask threads of the code under test."""
    from . import env
    try:
        signal.alarm(20)
        signal.signal(signal.SIGALRM, lambda *_: os._exit(code))
        env.close_client()
    finally:
        import shutil
        if env._scratch:
            shutil.rmtree(env._scratch, ignore_errors=True)
        os._exit(code)


def _env() -> dict:
    result = dict(os.environ)
    result.update(PYTHONHASHSEED='0',
                  PYTHONDONTWRITEBYTECODE='1',
                  OMP_NUM_THREADS='1',
                  OPENBLAS_NUM_THREADS='1',
                  AWS_EC2_METADATA_DISABLED='true',
                  PYTHONWARNINGS='ignore',
                  PYTHONPATH=str(VERIF))
    return result


def _replay_path(prop: str) -> pathlib.Path:
    path = VERIF / 'replays'
    path.mkdir(exist_ok=True)
    return path / f'{prop}.json'


def replay_main(args) -> int:
    """Exit 1 when the recorded case fails, 0 when it passes."""
    record = json.loads(pathlib.Path(args.replay).read_text())
    code = 0
    try:
        module = load_prop(record['property'])
        sub = next(s for s in module.SUBS if s.name == record['sub'])
        try:
            sub.run(record['case'], Ctx())
        except BaseException as exc:  # noqa: BLE001
            if _is_environment(exc):
                raise
            traceback.print_exc()
            code = 1
    except BaseException:  # noqa: BLE001
        traceback.print_exc()
        code = 2
    sys.stdout.flush()
    sys.stderr.flush()
    _finish(code)
    return code


def known_findings(prop: str) -> list[dict]:
    path = VERIF / 'known_findings.jsonl'
    result = []
    if path.exists():
        for line in path.read_text().splitlines():
            line = line.strip()
            if line.startswith('{'):
                item = json.loads(line)
                if item['property'] == prop and item['status'] == 'open':
                    result.append(item)
    return result


def main() -> int:
    parser = argparse.ArgumentParser()
    parser.add_argument('prop')
    parser.add_argument('--tier')
    parser.add_argument('--seed', type=int)
    parser.add_argument('--shards', type=int)
    parser.add_argument('--shard', type=int)
    parser.add_argument('--nshards', type=int, default=1)
    parser.add_argument('--out')
    parser.add_argument('--budget', type=float)
    parser.add_argument('--only')
    parser.add_argument('--replay')
    args = parser.parse_args()
    if args.replay:
        return replay_main(args)
    if args.shard is not None:
        return shard_main(args)
    return parent_main(args)


def parent_main(args) -> int:
    t0 = time.monotonic()
    tier = args.tier or os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = args.seed if args.seed is not None else int(
        os.environ.get('VERIF_SEED', '1'))
    cpus = len(os.sched_getaffinity(0))
    nshards = args.shards or max(2, min(8, cpus))
    budget = args.budget or (150.0 if tier == 'quick' else 3600.0)
    prop = args.prop
    stall_limit = 200.0

    import tempfile
    import shutil
    work = pathlib.Path(tempfile.mkdtemp(prefix='zvp_'))
    procs = []
    python = sys.executable
    env = _env()
    env['TMPDIR'] = str(work)
    hang = None
    try:
        for ix in range(nshards):
            out = work / f's{ix}.json'
            cmd = [python, '-m', 'zv', prop, '--shard', str(ix), '--nshards',
                   str(nshards), '--seed', str(seed), '--tier', tier, '--out',
                   str(out), '--budget', str(budget)]
            if args.only:
                cmd += ['--only', args.only]
            log = open(work / f's{ix}.log', 'wb')
            procs.append((subprocess.Popen(cmd, cwd=VERIF, env=env,
                                           stdout=log, stderr=log,
                                           start_new_session=True), out))
        results = [None] * nshards
        stop = False
        while any(r is None for r in results):
            time.sleep(0.1)
            for ix, (proc, out) in enumerate(procs):
                if results[ix] is not None:
                    continue
                if proc.poll() is not None:
                    try:
                        results[ix] = json.loads(out.read_text())
                        if results[ix]['status'] == 'running':
                            results[ix]['status'] = 'error'
                            results[ix]['note'] = f'died: {proc.returncode}'
                    except (OSError, ValueError):
                        results[ix] = {'status': 'error',
                                       'note': f'died: {proc.returncode}'}
                    if results[ix]['status'] == 'violation':
                        stop = True
                    continue
                cur = out.with_suffix('.cur')
                if cur.exists() and time.time() - cur.stat().st_mtime > \
                        stall_limit:
                    # A single case has been running for minutes: repeat it
                    # alone; if it hangs again, the code under test hangs.
                    record = json.loads(cur.read_text())
                    record['property'] = prop
                    os.killpg(proc.pid, signal.SIGKILL)
                    proc.wait()
                    results[ix] = {'status': 'stalled', 'note': 'stalled',
                                   'record': record}
                    hang = record
                    stop = True
            if stop:
                for ix, (proc, out) in enumerate(procs):
                    if results[ix] is None:
                        try:
                            os.killpg(proc.pid, signal.SIGKILL)
                        except ProcessLookupError:
                            pass
                        proc.wait()
                        results[ix] = {'status': 'stopped', 'note': ''}
        failures = [r['failure'] for r in results
                    if r.get('status') == 'violation']
        if hang is not None and not failures:
            path = work / 'hang.json'
            path.write_text(json.dumps(hang))
            try:
                code = subprocess.run(
                    [python, '-m', 'zv', prop, '--replay', str(path)],
                    cwd=VERIF, env=env, timeout=stall_limit,
                    stdout=subprocess.DEVNULL,
                    stderr=subprocess.DEVNULL).returncode
            except subprocess.TimeoutExpired:
                code = 1
            if code == 1:
                failures.append({**hang, 'len': 0, 'error': 'hang',
                                 'message': 'the operation never returns'})
    finally:
        for proc, _ in procs:
            if proc.poll() is None:
                try:
                    os.killpg(proc.pid, signal.SIGKILL)
                except ProcessLookupError:
                    pass
        logs = ''
        for path in sorted(work.glob('*.log')):
            text = path.read_text(errors='replace')
            if text.strip():
                logs = text[-2000:]
        shutil.rmtree(work, ignore_errors=True)

    sys.path.insert(0, str(VERIF / 'vendor'))
    rule = ''
    level = 'exploration'
    assumptions: list = []
    for item in results:
        if item.get('rule'):
            rule, level = item['rule'], item['level']
            assumptions = item['assumptions']
    errors = [r for r in results if r['status'] == 'error']
    evaluations = sum(r.get('evaluations', 0) for r in results)
    hashes: set = set()
    labels: dict = {}
    subs: dict = {}
    samples: list = []
    unconfirmed: list = []
    for item in results:
        hashes.update(item.get('nthashes', ()))
        for key, value in item.get('labels', {}).items():
            labels[key] = labels.get(key, 0) + value
        for key, value in item.get('subs', {}).items():
            subs[key] = subs.get(key, 0) + value
        unconfirmed += item.get('unconfirmed', [])
        for sample in item.get('samples', []):
            if len([s for s in samples if s['sub'] == sample['sub']]) < 1 or \
                    len(samples) < 3:
                samples.append(sample)
    evidence = {
        'property': prop,
        'tier': tier,
        'seed': seed,
        'level': level,
        'coverage': {
            'evaluations': evaluations,
            'distinct_nontrivial': len(hashes),
            'rule': rule,
            'samples': samples[:8],
            'cases_per_part': subs,
            'classes': dict(sorted(labels.items())),
            'shards': nshards,
            'not_run_time_budget': sum(r.get('skipped', 0) for r in results),
            'unrepeatable_failures': len(unconfirmed),
        },
        'assumptions': assumptions,
        'wall_s': round(time.monotonic() - t0, 2),
        'violations': 1 if failures else 0,
    }
    path = VERIF / 'evidence'
    path.mkdir(exist_ok=True)
    (path / f'{prop}.json').write_text(json.dumps(evidence, indent=1))

    for item in known_findings(prop):
        print(f"KNOWN-FINDING: property={prop} {item['what']}")
    print(f'{prop}: {evaluations} cases, {len(hashes)} distinct non-trivial, '
          f"{evidence['wall_s']} s, parts {subs}, not run "
          f"{evidence['coverage']['not_run_time_budget']}")
    for item in unconfirmed:
        print('unrepeatable failure (ignored):', item['message'],
              json.dumps(item['case'])[:500])
    if failures:
        best = min(failures, key=lambda item: item['len'])
        replay = _replay_path(prop)
        replay.write_text(json.dumps(best, indent=1))
        print(best['error'])
        print('case:', json.dumps(best['case'])[:3000])
        print('message:', best['message'])
        print(f'VIOLATION property={prop} replay={replay}')
        return 1
    if errors:
        for item in errors:
            print('HARNESS ERROR:', item.get('note'))
        print(logs)
        return 2
    return 0
