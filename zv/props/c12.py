"""C12: a failed insert never damages stored data."""
import json
import time

import numpy
from hypothesis import strategies as st

from .. import env, failcodec, gen, model, spyfs
from ..core import Sub
from ..world import World

RULE = ('insert: a case is a collection with 0-4 partitions (with or without '
        'variables that are not partitioned), the insert of a batch that '
        'creates and replaces partitions (no merge function, or one keeping '
        'the longest version), in memory or lazy, and 1-4 failures tried one '
        'after the other from the same state: a storage error before the k-th '
        'modification of the file system (creation, write, removal, renaming; '
        'k generated over all the modifications made by an undisturbed '
        'insert), an encoding that fails, a merge function that raises. '
        'After each one: the error reached the caller, or everything was '
        'inserted; every stored partition is still listed and is its '
        'complete previous or new content; a listed new partition is '
        'complete; no other visible directory exists; the same insert '
        'repeated gives what an undisturbed insert gives, also when '
        'reopened. addvar: the same for a variable addition; after the '
        'failure files and metadata are as before. Non-trivial: the failure '
        'occurred while at least one partition was stored.')
ASSUMPTIONS = ['a single failure, without effect on the storage, per insert',
               'hidden directories may be left at the root of the collection',
               'the merge function is idempotent']


@st.composite
def cases(draw):
    schema = draw(gen.schemas(max_vars=2, immutable=draw(st.booleans()),
                              codecs=False, min_vars=1,
                              fs=('memory', 'local')))
    schema['vars'][0]['comp'] = 'fail'
    return dict(schema=schema,
                first=draw(gen.batches(max_parts=3, max_part=4, max_rows=3)),
                empty=draw(st.integers(0, 3)) == 0,
                batch=draw(gen.batches(max_parts=3, max_part=4, max_rows=3)),
                merge=draw(st.booleans()), delayed=draw(st.booleans()),
                np=draw(st.sampled_from([None, 1, 2])),
                threads=draw(st.sampled_from([1, 1, 1, 2])),
                faults=draw(st.lists(st.one_of(
                    st.integers(0, 999), st.integers(0, 999),
                    st.sampled_from(['merge 0', 'merge 1', 'codec 0',
                                     'codec 1', 'codec 3'])),
                    min_size=1, max_size=4)))


class Fault:
    """Counts the modifications, raises before the chosen one."""

    def __init__(self):
        self.total = 0
        self.at = None
        self.fired = None

    def arm(self, at):
        self.total, self.at, self.fired = 0, at, None

    def __call__(self, op, path):
        if self.total == self.at:
            self.fired = f'{op} {path}'
        self.total += 1
        if self.fired is not None and self.total - 1 == self.at:
            raise OSError(5, 'injected', path)


_merges = [None, 0]


def longest(existing, inserted, axis, dim):
    if _merges[0] is not None:
        if _merges[0] == 0:
            _merges[0] = None
            _merges[1] += 1
            raise RuntimeError('merge refused')
        _merges[0] -= 1
    if existing.dimensions[dim] > inserted.dimensions[dim]:
        return existing
    return inserted


def _quick(seconds):
    _real_sleep(min(seconds, 0.002))


_real_sleep = time.sleep


def run(case, ctx):
    with env.cluster(1, case['threads']):
        run_one(case, ctx)


def run_one(case, ctx):
    place = spyfs.SpyPlace(case['schema']['fs'])
    time.sleep = _quick
    try:
        with World(case['schema'], case['first'], place=place,
                   insert=not case['empty']) as w:
            body(w, case, ctx)
    finally:
        time.sleep = _real_sleep
        failcodec.countdown = None
        _merges[:] = [None, 0]
        place.close()


def body(w, case, ctx):
    place = w.place
    batch = [[p, o, r + 1000] for p, o, r in case['batch']]
    before = place.snapshot(w.base)
    old = dict(w.parts)
    new = w.new_parts(batch)
    if case['merge']:
        new = {k: old[k] if k in old and
               len(old[k]['time']) > len(v['time']) else v
               for k, v in new.items()}
    imm, written = dict(w.imm), w.written
    if not written:
        w.note_insert(batch)
        imm = dict(w.imm)

    def insert():
        return w.col.insert(
            w.dataset(batch, delayed=case['delayed']),
            npartitions=case['np'],
            merge_callable=longest if case['merge'] else None)

    fault = Fault()
    with spyfs.watching(fault):
        fault.arm(None)
        insert()
    total = fault.total
    w.parts, w.imm = {**old, **new}, imm
    w.check('undisturbed', lazy=False)
    for number, item in enumerate(case['faults']):
        place.restore(before, w.base)
        w.col = w.reopen('w')
        w.parts = dict(old)
        where = f'fault {number} ({item})'
        fault.arm(None)
        failcodec.countdown, _merges[:] = None, [None, 0]
        armed = True
        if isinstance(item, int):
            fault.arm(item * total // 1000)
            where = f'fault {number} (operation {fault.at} of {total})'
        elif item.startswith('merge'):
            _merges[0] = int(item[6:])
        else:
            failcodec.countdown = int(item[6:])
        raised = None
        with spyfs.watching(fault):
            try:
                insert()
            except Exception as exc:  # noqa: BLE001
                raised = exc
        happened = (fault.fired is not None if isinstance(item, int) else
                    _merges[1] > 0 if item.startswith('merge') else
                    failcodec.countdown is None)
        where += f' {fault.fired or ""} {type(raised).__name__}'
        fault.arm(None)
        failcodec.countdown, _merges[:] = None, [None, 0]
        if not happened:
            if raised is not None:
                raise raised
            w.parts = {**old, **new}
            w.check(where, lazy=False)
            continue
        ctx.label('storage' if isinstance(item, int) else item[:5])
        ctx.nt(bool(old))
        if raised is None:
            # Nothing was lost: everything was inserted.
            ctx.label('harmless')
            w.parts = {**old, **new}
            w.check(where, lazy=False)
        else:
            intact(w, old, new, where)
        insert()
        w.parts = {**old, **new}
        w.check(f'{where}, repeated', lazy=False)
        w.check(f'{where}, repeated and reopened', col=w.reopen('r'))


def intact(w, old, new, where):
    got = list(w.col.partitions())
    paths = {w.path(k): k for k in {**old, **new}}
    assert set(got) <= set(paths), f'{where}: unknown partitions {got}'
    lost = [k for k in old if w.path(k) not in got]
    assert not lost, f'{where}: lost {lost}'
    assert got == [w.path(k) for k in sorted(paths[p] for p in got)], \
        f'{where}: listed {got}'
    found = {}
    for path in got:
        key = paths[path]
        zds = w.col.load(delayed=False, filters=w.only([key]))
        error = None
        for version in (new.get(key), old.get(key)):
            if version is None:
                continue
            try:
                w.compare(zds, f'{where} partition {key}',
                          expected={**version, **w.imm})
                found[key] = version
                break
            except AssertionError as exc:
                error = exc
        if key not in found:
            raise error
    w.parts = found
    w.check(f'{where} all', lazy=False)
    first = {model.key_dir(w.part, k).split('/')[0] for k in paths.values()}
    stray = [d for d in w.place.dirs(w.base)
             if d not in first and not d.startswith('.')]
    assert not stray, f'{where}: stray directories {stray}'


# --------------------------------------------------------------------------


@st.composite
def add_cases(draw):
    return dict(schema=draw(gen.schemas(max_vars=2, codecs=False,
                                        immutable=draw(st.booleans()),
                                        fs=('memory', 'local'))),
                first=draw(gen.batches(max_parts=4, max_part=5, max_rows=3)),
                var=draw(gen.variables('new', ['?']).filter(
                    lambda v: v['fill'] is not None)),
                like=draw(st.integers(0, 4)),
                faults=draw(st.lists(st.integers(0, 999), min_size=1,
                                     max_size=4)))


def normal(snapshot):
    """Files, the consolidated metadata being compared as JSON."""
    return {k: json.loads(v) if k.endswith(('.zmetadata', '.zcollection'))
            else v for k, v in snapshot.items()}


def run_add(case, ctx):
    env.client()
    place = spyfs.SpyPlace(case['schema']['fs'])
    time.sleep = _quick
    try:
        with World(case['schema'], case['first'], place=place) as w:
            used = [d for d in w.dims.values() if w.dim in d]
            var = dict(case['var'], dims=list(used[case['like'] % len(used)]),
                       vix=w.count)
            before = place.snapshot(w.base)
            conf = w.col.metadata.get_config()
            fault = Fault()
            with spyfs.watching(fault):
                fault.arm(None)
                w.col.add_variable(gen.meta_variable(var))
                total = fault.total
                for item in case['faults']:
                    fault.arm(None)
                    place.restore(before, w.base)
                    w.col = w.reopen('w')
                    at = item * total // 1000
                    fault.arm(at)
                    try:
                        w.col.add_variable(gen.meta_variable(var))
                    except Exception as exc:  # noqa: BLE001
                        where = f'fault {at} of {total} ({fault.fired}) ' \
                            f'{exc}'
                    else:
                        raise AssertionError(
                            f'error {at} of {total} ({fault.fired}) hidden')
                    fault.arm(None)
                    ctx.nt()
                    assert w.col.metadata.get_config() == conf, \
                        f'{where}: metadata changed'
                    after = place.snapshot(w.base)
                    assert normal(after) == normal(before), \
                        f'{where}: files changed ' + str(sorted(
                            k for k in set(after) | set(before)
                            if after.get(k) != before.get(k)))
                    w.check(where, lazy=False)
                    w.check(f'{where} reopened', col=w.reopen('r'),
                            lazy=False)
                w.col.add_variable(gen.meta_variable(var))
            w.schema['vars'].append(var)
            fill = w.fills['new']
            for key in w.keys:
                sizes = {**w.schema['extra'], w.dim: w.size(key)}
                w.parts[key] = {**w.parts[key], 'new': numpy.full(
                    [sizes[d] for d in var['dims']], fill,
                    numpy.dtype(var['dtype']))}
            w.check('added at last')
    finally:
        time.sleep = _real_sleep
        place.close()


SUBS = [Sub('insert', cases(), run, 20, 500),
        Sub('addvar', add_cases(), run_add, 15, 200)]
