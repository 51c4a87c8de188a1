"""C25: modifications happen under the lock, which is always released."""
import itertools
import json
import os
import pathlib
import pickle
import subprocess
import sys
import tempfile
import threading
import time

import numpy
from hypothesis import strategies as st

from .. import env, gen, spyfs
from ..core import Sub
from ..viewworld import ViewWorld
from ..world import World

RULE = ('transactions: a case is a collection and a view of it, each with its '
        'own recording lock, on a file system that reports each modification '
        'before it is made, and 2-6 operations (insert of new and stored '
        'partitions, with a merge function, update, partition drop, variable '
        'addition and removal, repair of a damaged partition; on the view: '
        'variable addition and removal, update, synchronisation), some of '
        'them failing (storage error at a generated position, function that '
        'raises). Acquiring the lock takes long enough for work already '
        'submitted to be executed. Every modification of a file of a '
        'partition is reported while the lock of its collection is held, '
        'locks are not taken twice, and they are free after the operation. '
        'writers: 2-3 threads modify the same collection at once with locks '
        'on a common resource; same oracle, and each partition is the '
        'complete result of one of them. processes: 2-4 processes increment a '
        'file under ProcessSync (pickled, raising inside, with pauses), no '
        'increment is lost. Non-trivial: an operation that modified at least '
        'one partition, or contention between processes.')
ASSUMPTIONS = ['the configuration file is not a partition',
               'the lock of POSIX files excludes processes, not the threads '
               'of one process']

_ids = itertools.count()
_locks: dict = {}


def _find(ident):
    return _locks[ident]


class Lock:
    """Recording synchroniser."""

    def __init__(self, resource=None, pause=0.02):
        self.ident = next(_ids)
        _locks[self.ident] = self
        self.resource = resource or threading.Lock()
        self.pause = pause
        self.held = False
        self.thread = None
        self.errors: list = []
        self.count = 0

    def __enter__(self):
        # Someone else has the lock for a while.
        time.sleep(self.pause)
        if self.held and self.thread == threading.get_ident():
            self.errors.append('taken twice')
            raise RuntimeError('lock taken twice')
        if not self.resource.acquire(timeout=60):
            self.errors.append('never released')
            raise RuntimeError('lock never released')
        self.held = True
        self.count += 1
        self.thread = threading.get_ident()
        return True

    def __exit__(self, *_):
        self.held = False
        self.thread = None
        self.resource.release()

    def is_locked(self):
        return self.held

    def __reduce__(self):
        return _find, (self.ident, )


class Recorder:
    """Modifications of the partitions below `base` and the lock state."""

    def __init__(self, *watched):
        self.watched = watched
        self.changes = 0
        self.errors: list = []
        self.fault = None
        self.total = 0
        self.fired = False

    def __call__(self, op, path):
        for base, locks in self.watched:
            if not path.startswith(base + '/'):
                continue
            name = path[len(base) + 1:]
            if name.split('/')[0] in ('.zcollection', '.view'):
                continue
            self.changes += 1
            if not any(lock.held for lock in locks):
                self.errors.append(f'{op} {path} without the lock')
        self.total += 1
        if self.fault is not None and self.total - 1 == self.fault:
            self.fired = True
            raise OSError(5, 'injected', path)

    def verdict(self, where):
        assert not self.errors, f'{where}: {self.errors[:3]}'
        for _, locks in self.watched:
            for lock in locks:
                assert not lock.errors, f'{where}: {lock.errors}'
                assert not lock.held, f'{where}: lock still held'


OPS = ('insert', 'insert', 'merge', 'update', 'drop', 'add', 'delvar',
       'repair', 'vadd', 'vupdate', 'vsync', 'vdrop')


@st.composite
def cases(draw):
    return dict(
        schema=draw(gen.schemas(max_vars=2, min_vars=1, codecs=False,
                                immutable=draw(st.booleans()))),
        batch=draw(gen.batches(max_parts=3, max_part=4, max_rows=3)),
        ops=draw(st.lists(st.fixed_dictionaries(dict(
            op=st.sampled_from(OPS),
            batch=gen.batches(max_parts=2, max_part=4, max_rows=2),
            mask=st.integers(0, 15),
            np=st.sampled_from([None, 1, 2]),
            fail=st.sampled_from([None, None, None, 'func', 0, 3, 7, 12])
        )), min_size=2, max_size=6)))


def run(case, ctx):
    env.client()
    place = spyfs.SpyPlace(case['schema']['fs'])
    lock, vlock = Lock(), Lock()
    saved, time.sleep = time.sleep, _sleep
    try:
        base, vbase = place.path('col'), place.path('view')
        spy = Recorder((base, [lock]), (vbase, [vlock]))
        with spyfs.watching(spy):
            w = ViewWorld(case['schema'], case['batch'], place=place,
                          sync=vlock, synchronizer=lock)
            spy.verdict('creation')
            assert spy.changes, 'nothing was recorded'
            w.view.add_variable(gen.meta_variable(dict(
                name='own', dtype='int32', dims=[w.dim], fill=-1)))
            names = {'own'}
            for step, op in enumerate(case['ops']):
                where = f"step {step} {op['op']} fail={op['fail']}"
                before = spy.changes
                spy.total, spy.fired = 0, False
                spy.fault = op['fail'] if isinstance(op['fail'], int) \
                    else None
                try:
                    apply(w, op, step, names, spy)
                    failed = False
                except Exception as exc:  # noqa: BLE001
                    failed = True
                    # Tasks of a failed operation are over when it returns.
                    time.sleep(0.02)
                    if op['fail'] is None:
                        raise
                    if isinstance(op['fail'], int) and not spy.fired:
                        raise
                spy.fault = None
                spy.verdict(where)
                ctx.label(op['op'])
                if spy.changes > before:
                    ctx.nt()
                if failed:
                    ctx.label('failed')
                    break
    finally:
        time.sleep = saved
        place.close()
        _locks.clear()


_real_sleep = time.sleep


def _sleep(seconds):
    # Attempts to clean up after an error are spaced by seconds.
    _real_sleep(min(seconds, 0.05))


def raising(*_, **__):
    raise RuntimeError('requested')


def merge(existing, inserted, axis, dim):
    return existing.concat(inserted, dim)


def apply(w, op, step, names, spy):
    kind, fail = op['op'], op['fail'] == 'func'
    keys = w.pick(op['mask'])
    if kind in ('insert', 'merge'):
        batch = [[p, o, r + 1000 * (step + 1)] for p, o, r in op['batch']]
        func = None
        if kind == 'merge':
            func = raising if fail else merge
        w.insert(batch, merge_callable=func, npartitions=op['np'])
    elif kind == 'update':
        name = next((n for n, d in w.dims.items()
                     if w.dim in d and n not in w.part.get('vars', ())
                     and n != 'time'), None)
        if name is None:
            return
        w.col.update(raising if fail else _same(name),
                     variables=[name], npartitions=op['np'])
    elif kind == 'drop':
        w.col.drop_partitions(filters=w.only(keys))
        for key in keys:
            del w.parts[key]
    elif kind == 'add':
        w.col.add_variable(gen.meta_variable(dict(
            name=f'new{step}', dtype='int64', dims=[w.dim], fill=0)))
        w.schema['vars'].append(dict(name=f'new{step}', dtype='int64',
                                     dims=[w.dim], fill=0, vix=90 + step))
        w.col = w.reopen('w', synchronizer=w.col.synchronizer)
    elif kind == 'delvar':
        name = next((v['name'] for v in w.schema['vars']
                     if w.dim in v['dims']), None)
        if name is None:
            return
        w.col.drop_variable(name)
        w.schema['vars'] = [v for v in w.schema['vars'] if v['name'] != name]
    elif kind == 'repair':
        if not keys:
            return
        place = w.place
        hook, spyfs._hook = spyfs._hook, None
        place.fs.pipe_file(w.path(keys[0]) + '/.zmetadata', b'{')
        spyfs._hook = hook
        w.col.validate_partitions(fix=True)
        del w.parts[keys[0]]
    elif kind == 'vadd':
        w.view.add_variable(gen.meta_variable(dict(
            name=f'own{step}', dtype='float64', dims=[w.dim], fill=-1.0)))
        names.add(f'own{step}')
    elif kind == 'vdrop':
        if not names:
            return
        name = sorted(names)[0]
        names.discard(name)
        w.view.drop_variable(name)
    elif kind == 'vupdate':
        if not names or not list(w.view.partitions()):
            return
        w.view.sync()
        name = sorted(names)[0]
        w.view.update(raising if fail else _fill(name, w.schema['axis']),
                      npartitions=op['np'])
    elif kind == 'vsync':
        w.view.sync(filters=None if op['mask'] % 2 else lambda keys: True)


def _same(name):

    def func(zds):
        return {name: numpy.asarray(zds[name].array)}

    return func


def _fill(name, axis):

    def func(zds):
        return {name: numpy.full(zds[axis].shape, 3)}

    return func


# --------------------------------------------------------------------------
# several writers at once


@st.composite
def writer_cases(draw):
    return dict(
        schema=draw(gen.schemas(max_vars=2, min_vars=1, codecs=False)),
        batch=draw(gen.batches(max_parts=3, max_part=3, max_rows=3)),
        writers=draw(st.lists(st.fixed_dictionaries(dict(
            batch=gen.batches(max_parts=3, max_part=3, max_rows=3),
            delayed=st.booleans(), np=st.sampled_from([None, 1, 2]))),
            min_size=2, max_size=3)))


def run_writers(case, ctx):
    with env.cluster(2, 2) as client:
        writers(case, ctx, client)


def writers(case, ctx, client):
    place = spyfs.SpyPlace(case['schema']['fs'])
    resource = threading.Lock()
    locks = [Lock(resource, 0.002) for _ in case['writers']]
    try:
        with World(case['schema'], case['batch'], place=place) as w:
            spy = Recorder((w.base, locks))
            errors: list = []
            cols = [w.reopen('w', synchronizer=lock) for lock in locks]
            options = [(writer, [[p, o, r + 1000 * (ix + 1)]
                                 for p, o, r in writer['batch']])
                       for ix, writer in enumerate(case['writers'])]
            datasets = [w.dataset(batch, delayed=writer['delayed'])
                        for writer, batch in options]

            def target(ix):
                try:
                    with client.as_current():
                        cols[ix].insert(datasets[ix],
                                        npartitions=options[ix][0]['np'])
                except BaseException as exc:  # noqa: BLE001
                    errors.append(exc)

            with spyfs.watching(spy):
                threads = [threading.Thread(target=target, args=(ix, ))
                           for ix in range(len(cols))]
                for thread in threads:
                    thread.start()
                for thread in threads:
                    thread.join()
            for exc in errors:
                raise exc
            spy.verdict('writers')
            versions = [w.parts] + [w.new_parts(batch)
                                    for _, batch in options]
            keys = sorted(set().union(*versions))
            touched = [k for k in keys
                       if sum(k in v for v in versions[1:]) > 1]
            ctx.nt(bool(touched))
            final = {}
            for key in keys:
                zds = w.col.load(delayed=False, filters=w.only([key]))
                assert zds is not None, f'partition {key} lost'
                found = None
                for version in versions[1:] if any(
                        key in v for v in versions[1:]) else versions[:1]:
                    if key not in version:
                        continue
                    try:
                        w.compare(zds, f'partition {key}',
                                  expected={**version[key], **w.imm})
                        found = version[key]
                    except AssertionError:
                        pass
                assert found is not None, \
                    f'partition {key} is the result of no writer'
                final[key] = found
            w.parts = final
            w.check('after all writers')
    finally:
        place.close()
        _locks.clear()
        env.client()


# --------------------------------------------------------------------------
# lock between processes

CHILD = '''
import importlib.util, json, pickle, sys, time, types
pkg = types.ModuleType('zcollection'); pkg.__path__ = [sys.argv[1]]
sys.modules['zcollection'] = pkg
import zcollection.sync as sync
for line in sys.stdin:
    job = json.loads(line)
    lock = pickle.loads(bytes.fromhex(job['lock']))
    done = 0
    for pause, fail in job['turns']:
        time.sleep(pause / 1000)
        try:
            with lock as gotten:
                assert gotten and lock.is_locked()
                with open(job['path']) as stream:
                    value = int(stream.read())
                time.sleep(pause / 1000)
                with open(job['path'], 'w') as stream:
                    stream.write(str(value + 1))
                done += 1
                if fail:
                    raise KeyError
        except KeyError:
            pass
        assert not lock.is_locked()
    print(done, flush=True)
'''

_children: list = []


def children(n):
    while len(_children) < n:
        _children.append(subprocess.Popen(
            [sys.executable, '-c', CHILD,
             os.path.join(env.REPO, 'zcollection')],
            stdin=subprocess.PIPE, stdout=subprocess.PIPE,
            stderr=subprocess.DEVNULL, text=True, cwd=env.scratch()))
    return _children[:n]


def run_processes(case, ctx):
    from zcollection import sync
    folder = tempfile.mkdtemp(dir=env.scratch())
    path = os.path.join(folder, 'lock')
    lock = sync.ProcessSync(path)
    assert not lock.is_locked(), 'locked before use'
    with lock:
        assert lock.is_locked(), 'not locked inside'
    assert not lock.is_locked(), 'locked after use'
    copied = pickle.loads(pickle.dumps(lock))
    counter = pathlib.Path(folder) / 'counter'
    counter.write_text('0')
    procs = children(len(case))
    # All wait for the lock at first.
    job = dict(lock=pickle.dumps(copied).hex(), path=str(counter))
    with lock:
        for proc, turns in zip(procs, case):
            proc.stdin.write(json.dumps({**job, 'turns': turns}) + '\n')
            proc.stdin.flush()
        time.sleep(0.01)
        assert counter.read_text() == '0', 'changed while locked'
    total = 0
    for proc in procs:
        line = proc.stdout.readline()
        if not line.strip():
            _children.remove(proc)
            proc.kill()
            raise AssertionError('a process failed')
        total += int(line)
    want = sum(len(turns) for turns in case)
    assert total == want, f'{total} turns out of {want}'
    assert int(counter.read_text()) == want, \
        f'{counter.read_text()} increments out of {want}'
    assert not lock.is_locked(), 'locked at the end'
    ctx.nt(len(case) > 1 and want > len(case))


process_cases = st.lists(
    st.lists(st.tuples(st.sampled_from([0, 0, 1, 3]),
                       st.sampled_from([0, 0, 1])).map(list),
             min_size=1, max_size=6), min_size=2, max_size=4)

SUBS = [Sub('processes', process_cases, run_processes, 8, 300),
        Sub('transactions', cases(), run, 25, 400),
        Sub('writers', writer_cases(), run_writers, 10, 200)]
