#!/usr/bin/env python3
"""Planted bugs: build seeded/<id> from tools/bugs/<id>.py and confirm it.

plant.py ID [--check] : a spec defines PROPERTY, NEEDS, BREAKS, EDITS =
[(file, old, new)], DEMO (Python source).  The bug is made in a scratch copy
of /repo; it is kept when it applies, passes the stable tests, and its demo
passes on /repo and fails on the copy.  --check also runs the check of the
property on the copy (ZV_REPO); --notests skips the stable tests.
"""
import json, os, pathlib, runpy, shutil, subprocess, sys, tempfile

V = pathlib.Path(__file__).resolve().parent.parent
PRE = '''import os, sys, tempfile, warnings, datetime
sys.path.insert(0, os.getcwd())
warnings.simplefilter('ignore')
import logging
logging.getLogger('distributed').setLevel(logging.CRITICAL)
import numpy, fsspec, dask.array, dask.distributed
import zcollection
from zcollection import dataset, meta, partitioning, merging, storage, view
assert os.path.realpath(zcollection.__file__).startswith(os.path.realpath(os.getcwd()))
FS = fsspec.filesystem('memory')

def client(workers=1):
    return dask.distributed.Client(processes=False, n_workers=workers,
        threads_per_worker=1, dashboard_address=None)

def make(times, values=None, delayed=False, **kw):
    times = numpy.asarray(times, 'M8[ns]')
    values = numpy.arange(times.size, dtype='int64') if values is None else values
    cls = dataset.DelayedArray if delayed else dataset.Array
    wrap = dask.array.from_array if delayed else (lambda x: x)
    return dataset.Dataset([cls('time', wrap(times), ('n',)),
        cls('var', wrap(numpy.asarray(values)), ('n',), fill_value=-1)], **kw)

def create(zds, part=None, path='/demo/col', fs=FS, **kw):
    return zcollection.create_collection('time', zds,
        part or partitioning.Date(('time',), 'D'), path, filesystem=fs, **kw)

def finish(ok, message='property broken'):
    print('ok' if ok else message)
    sys.stdout.flush()
    os._exit(0 if ok else 1)

'''
SH = '''#!/bin/sh
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1
exec timeout 250 /opt/venv/bin/python "$here/demo.py"
'''


def run(cmd, cwd, env=None, **kw):
    return subprocess.run(cmd, cwd=cwd, env=dict(os.environ, **(env or {})),
                          stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                          text=True, **kw)


def main(bug, check, tests=True):
    spec = runpy.run_path(str(V / 'tools' / 'bugs' / f'{bug}.py'))
    work = pathlib.Path(tempfile.mkdtemp(prefix=f'plant_{bug}_'))
    copy = work / 'repo'
    try:
        shutil.copytree('/repo', copy, symlinks=True)
        for name, old, new in spec['EDITS']:
            path = copy / name
            text = path.read_text()
            if text.count(old) != 1:
                return f'{bug}: {text.count(old)} occurrences in {name}: {old!r}'
            path.write_text(text.replace(old, new))
        patch = run(['git', 'diff'], copy).stdout
        out = V / 'seeded' / bug
        out.mkdir(parents=True, exist_ok=True)
        (out / 'patch.diff').write_text(patch)
        (out / 'demo.py').write_text(PRE + spec['DEMO'])
        (out / 'demo.sh').write_text(SH)
        (out / 'demo.sh').chmod(0o755)
        (out / 'meta.json').write_text(json.dumps(dict(
            property=spec['PROPERTY'], needs=spec['NEEDS'],
            what_it_breaks=spec['BREAKS']), indent=1))
        good = run(['sh', str(out / 'demo.sh')], '/repo')
        bad = run(['sh', str(out / 'demo.sh')], copy)
        if good.returncode != 0 or bad.returncode == 0:
            return f'{bug}: DEMO good={good.returncode} bad={bad.returncode}\n{good.stdout[-1500:]}\n---\n{bad.stdout[-1500:]}'
        res = None if not tests else run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-p',
                   'no:cacheprovider', '-n', '4', '--timeout=120',
                   f'--basetemp={work}/tmp', '--processes', '--n_workers',
                   '1', '--threads_per_worker', '1'], copy,
                  {'PYTHONDONTWRITEBYTECODE': '1', 'PYTHONHASHSEED': '0',
                   'AWS_EC2_METADATA_DISABLED': 'true',
                   'OMP_NUM_THREADS': '1'})
        tail = res.stdout.strip().splitlines()[-1] if tests else 'skipped'
        text = f'{bug} [{spec["PROPERTY"]}]: demo ok ({bad.stdout.strip()[-80:]}), tests: {tail}'
        if tests and '232 passed' not in tail:
            shutil.rmtree(out)
            return text + ' -> REJECTED ' + ' '.join(
                l for l in res.stdout.splitlines() if l.startswith('FAILED'))[:600]
        if check:
            props = [spec['PROPERTY']] + [p for p in spec.get('ALSO', [])]
            res = V / 'tools' / 'bugs' / 'results.json'
            for prop in props:
                got = run(['./check.sh', prop], V, {'ZV_REPO': str(copy)})
                table = json.loads(res.read_text()) if res.exists() else {}
                table.setdefault(bug, {})[prop] = got.returncode == 1
                res.write_text(json.dumps(table, indent=1, sort_keys=True))
                last = got.stdout.strip().splitlines()
                text += f'\n   {prop}: exit {got.returncode} ' + (
                    'CAUGHT ' + next((l for l in last if l.startswith('message')), '')[:200]
                    if got.returncode == 1 else 'MISSED ' + last[-1][:200])
        return text
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == '__main__':
    flags = [a for a in sys.argv[1:] if a.startswith('--')]
    for item in [a for a in sys.argv[1:] if not a.startswith('--')]:
        print(main(item, '--check' in flags, '--notests' not in flags), flush=True)
