"""C15: a copied collection is an independent, equal collection."""
import copy
import json

import numpy
from hypothesis import strategies as st

from .. import env, gen
from ..core import Sub
from ..world import World

RULE = ('A case is a collection built by 1-2 insertions (0-6 partitions, '
        'with or without variables that are not partitioned, a variable '
        'added afterwards or not), a copy of it (all partitions, a filter '
        'function, a filter expression, nothing selected; in the same or '
        'another file system; any number of partitions copied at once; with '
        'or without a trailing slash; source opened for reading or writing), '
        'then 1-4 operations on either collection (insert, update, drop '
        'partitions, add or drop a variable). The copy, as returned and '
        'reopened, has the configuration of the source and the content of '
        'the model restricted to the selection, file by file the bytes of '
        'the source, and the source does not change; after each later '
        'operation both collections have the content of their own model '
        'and the files of the other one are unchanged. Non-trivial: at '
        'least two partitions are copied or left out and an operation '
        'follows.')
ASSUMPTIONS = ['the target does not exist',
               'one in-process Dask worker with two threads']


@st.composite
def cases(draw):
    ops = st.one_of(
        st.fixed_dictionaries(dict(op=st.just('insert'), side=st.booleans(),
                                   batch=gen.batches(max_parts=3,
                                                     max_rows=3))),
        st.fixed_dictionaries(dict(
            op=st.sampled_from(['update', 'drop', 'delvar', 'add']),
            side=st.booleans(), mask=st.integers(0, 63))))
    return dict(schema=draw(gen.schemas(
        max_vars=2, immutable=draw(st.booleans()))),
        batches=draw(st.lists(gen.batches(max_parts=5, max_rows=3),
                              max_size=2)),
        add=draw(st.booleans()),
        mask=draw(st.one_of(st.none(), st.integers(0, 255))),
        expression=draw(st.booleans()),
        target=draw(st.sampled_from(['same', 'memory', 'local'])),
        npartitions=draw(st.sampled_from([None, None, 1, 2, 3, 20])),
        slash=draw(st.sampled_from([False, False, True])),
        mode=draw(st.sampled_from(['r', 'w'])),
        ops=draw(st.lists(ops, max_size=3)))


def new_variable(w, name='added'):
    var = dict(name=name, dtype='int16', dims=[w.dim], fill=-7,
               attrs={'k': 'v'}, vix=w.count)
    w.count += 1
    w.col.add_variable(gen.meta_variable(var))
    w.schema['vars'].append(var)
    for key in w.keys:
        w.parts[key] = {**w.parts[key],
                        name: numpy.full(w.size(key), -7, 'int16')}


def config(col):
    return json.dumps([col.axis, col.metadata.get_config(),
                       col.partitioning.get_config()], sort_keys=True,
                      default=str)


def run(case, ctx):
    with env.cluster(1, 2):
        run_one(case, ctx)


def run_one(case, ctx):
    schema = case['schema']
    first = case['batches'][0] if case['batches'] else [[0, [0], 0]]
    with World(schema, first, insert=bool(case['batches'])) as w:
        for ix, batch in enumerate(case['batches'][1:]):
            w.insert([[p, o, r + 1000 * (ix + 1)] for p, o, r in batch],
                     version=1)
        if case['add']:
            new_variable(w)
        keys = w.keys if case['mask'] is None else w.pick(case['mask'])
        filters = None
        if case['mask'] is not None:
            filters = w.only(keys)
            if case['expression']:
                filters = ' or '.join(
                    '(' + ' and '.join(f'{n} == {v}'
                                       for n, v in w.labelled(k)) + ')'
                    for k in keys) or 'False'
        other = w.place if case['target'] == 'same' else env.Place(
            case['target'])
        try:
            before = w.place.snapshot(w.base)
            target = other.path('sub', 'target') + '/' * case['slash']
            kwargs = {} if case['target'] == 'same' else {
                'filesystem': other.fs}
            source = w.col if case['mode'] == 'w' else w.reopen('r')
            got = source.copy(target, filters=filters,
                              npartitions=case['npartitions'], **kwargs)
            target = target.rstrip('/')
            assert w.place.snapshot(w.base) == before, 'source changed'
            two = twin(w, keys, other, target, got)
            files = other.snapshot(target)
            gone = [w.path(k)[len(w.base):] + '/' for k in w.keys
                    if k not in keys]
            want = {n: b for n, b in before.items()
                    if not any(n.startswith(g) for g in gone)}
            assert set(files) == set(want), \
                f'files {sorted(set(files) ^ set(want))[:4]}'
            assert files == want, 'files of the copy differ'
            assert config(got) == config(w.col), 'configuration of the copy'
            two.check('copy', lazy=True)
            again = two.reopen('w')
            assert config(again) == config(w.col), 'configuration reopened'
            two.check('copy reopened', col=again, lazy=False)
            two.col = again
            if case['mask'] is not None:
                ctx.label('expression' if case['expression'] else 'function')
            ctx.label(case['target'])
            for step, op in enumerate(case['ops']):
                this, that = (w, two) if op['side'] else (two, w)
                keep = that.place.snapshot(that.base)
                where = f"step {step} {op['op']} on the " + (
                    'source' if op['side'] else 'copy')
                apply(this, op, step)
                assert that.place.snapshot(that.base) == keep, \
                    f'{where}: the other collection changed'
                w.check(f'{where}: source', lazy=False)
                two.check(f'{where}: copy', lazy=False)
            ctx.nt(len(w.keys) > 1 and bool(case['ops']))
        finally:
            if other is not w.place:
                other.close()


def twin(w, keys, place, base, col):
    """Model of the copy."""
    two = copy.copy(w)
    two.schema = copy.deepcopy(w.schema)
    two.place, two.base, two.col = place, base, col
    two.own = False
    two.parts = {k: dict(w.parts[k]) for k in keys}
    two.imm = dict(w.imm)
    return two


def apply(w, op, step):
    if op['op'] == 'insert':
        w.insert([[p, o, r + 5000 * (step + 1)] for p, o, r in op['batch']],
                 version=7)
    elif op['op'] == 'drop':
        keys = w.pick(op['mask'])
        w.col.drop_partitions(filters=w.only(keys))
        for key in keys:
            del w.parts[key]
    elif op['op'] == 'add':
        new_variable(w, f'other{step}')
    else:
        names = [v['name'] for v in w.schema['vars'] if w.dim in v['dims']]
        if not names:
            return
        name = names[op['mask'] % len(names)]
        if op['op'] == 'delvar':
            w.col.drop_variable(name)
            w.schema['vars'] = [v for v in w.schema['vars']
                                if v['name'] != name]
            for key in w.keys:
                w.parts[key] = {k: v for k, v in w.parts[key].items()
                                if k != name}
            return
        if not w.parts:
            return

        def func(zds, name=name):
            return {name: numpy.full(zds[name].shape, 1).astype(
                zds[name].dtype)}

        w.col.update(func)
        for key in w.keys:
            old = w.parts[key][name]
            w.parts[key] = {**w.parts[key], name: numpy.full(
                old.shape, 1).astype(old.dtype)}


SUBS = [Sub('copy', cases(), run, 100, 2000)]
