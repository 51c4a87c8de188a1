"""C13: reading never modifies storage, read-only refuses writes."""
import io
import pickle
import warnings

import numpy
from hypothesis import strategies as st

from .. import env, gen, spyfs
from ..core import Sub
from ..world import World
from .c09 import plain
from .c11 import RunIndexer

RULE = ('A case is a collection (0-5 partitions, some possibly damaged) '
        'opened read-only (by mode, by default, then possibly pickled) or '
        'for writing, and 2-8 operations: every reading operation (opening, '
        'listing, loading with and without filters, variables, indexer, '
        'mapping, overlapping mapping, iterating over the stored groups, '
        'variables(), copying elsewhere, validating without repair, creating '
        'and using a view of it, building, querying and updating an index of '
        'it), and, when read-only, every modifying one (insert, update, '
        'partition drop, variable addition and removal, validation with '
        'repair), which must raise io.UnsupportedOperation. After every '
        'operation the collection directory is byte for byte what it was, '
        'and the file system reported no modification below it. Non-trivial: '
        'a modifying operation was requested, or at least two reading '
        'operations were executed on a collection with partitions.')
ASSUMPTIONS = ['one in-process Dask worker with one thread']

READ = ('open', 'open w', 'list', 'load', 'lazy', 'indexer', 'map', 'overlap',
        'iterate', 'variables', 'copy', 'validate', 'view', 'index', 'str')
WRITE = ('insert', 'update', 'drop', 'add', 'delvar', 'repair')


@st.composite
def cases(draw):
    readonly = draw(st.sampled_from(['r', 'r', None, 'w']))
    kinds = READ + (WRITE + WRITE if readonly != 'w' else ())
    return dict(schema=draw(gen.schemas(max_vars=2,
                                        immutable=draw(st.booleans()))),
                batch=draw(gen.batches(max_parts=4, max_part=6, max_rows=3)),
                mode=readonly, pickled=draw(st.booleans()),
                damaged=draw(st.sampled_from([None, None, 0, 1])),
                ops=draw(st.lists(st.tuples(
                    st.sampled_from(kinds), st.one_of(
                        st.none(), st.integers(0, 31))).map(list),
                    min_size=2, max_size=8)))


class Watch:

    def __init__(self, base):
        self.base = base
        self.seen: list = []

    def __call__(self, op, path):
        if path == self.base or path.startswith(self.base + '/'):
            self.seen.append(f'{op} {path}')


def run(case, ctx):
    env.client()
    place = spyfs.SpyPlace(case['schema']['fs'])
    try:
        with World(case['schema'], case['batch'], place=place) as w:
            damaged = None
            if case['damaged'] is not None:
                damaged = w.keys[case['damaged'] % len(w.keys)]
                place.fs.pipe_file(w.path(damaged) + '/time/.zarray', b'{')
                place.fs.pipe_file(w.path(damaged) + '/.zmetadata', b'{')
            before = place.snapshot(w.base)
            kwargs = {} if case['mode'] is None else {'mode': case['mode']}
            import zcollection
            watch = Watch(w.base)
            with spyfs.watching(watch):
                col = zcollection.open_collection(
                    w.base, filesystem=place.fs, **kwargs)
                assert col.is_readonly() == (case['mode'] != 'w')
                if case['pickled']:
                    col = pickle.loads(pickle.dumps(col))
                reads = 0
                for step, (op, mask) in enumerate(case['ops']):
                    where = f'step {step} {op}'
                    if op in WRITE:
                        refused(w, col, op, where)
                        ctx.nt()
                        ctx.label(op)
                    elif read(w, col, op, mask, damaged, step):
                        reads += 1
                        ctx.label(op)
                    assert not watch.seen, f'{where}: {watch.seen[:3]}'
                    assert place.snapshot(w.base) == before, \
                        f'{where}: files changed'
            ctx.nt(reads > 1)
    finally:
        place.close()


def refused(w, col, op, where):
    other = [v['name'] for v in w.schema['vars'] if w.dim in v['dims']]
    name = other[0] if other else 'time'
    calls = dict(
        insert=lambda: col.insert(w.dataset([[0, [1, 2], 500]])),
        update=lambda: col.update(lambda zds: {name: zds[name].values}),
        drop=lambda: col.drop_partitions(),
        add=lambda: col.add_variable(gen.meta_variable(dict(
            name='new', dtype='int8', dims=[w.dim], fill=0))),
        delvar=lambda: col.drop_variable(name),
        repair=lambda: col.validate_partitions(fix=True))
    try:
        calls[op]()
    except io.UnsupportedOperation:
        return
    raise AssertionError(f'{where}: not refused')


def read(w, col, op, mask, damaged, step):
    import zcollection
    keys = w.keys if mask is None else w.pick(mask)
    filters = None if mask is None else w.only(keys)
    if op == 'open':
        zcollection.open_collection(w.base, filesystem=w.place.fs)
        return True
    if op == 'open w':
        zcollection.open_collection(w.base, filesystem=w.place.fs, mode='w')
        return True
    if op == 'list':
        got = list(col.partitions(filters=filters, lock=step % 2 == 0))
        assert got == [w.path(k) for k in keys]
        return True
    if op == 'str':
        return bool(str(col))
    if op == 'validate':
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            got = col.validate_partitions(filters=filters)
        assert got == [w.path(k) for k in keys if k == damaged], got
        return True
    if op == 'copy':
        col.copy(w.place.path(f'copy{step}'), filters=filters)
        return True
    if damaged is not None and damaged in keys or not keys:
        return False
    if op in ('load', 'lazy'):
        zds = col.load(delayed=op == 'lazy', filters=filters)
        w.compare(zds, op, keys)
        # What is done with the loaded data stays in memory.
        for var in zds.variables.values():
            if op == 'load' and var.array.flags.writeable:
                var.array[...] = numpy.zeros_like(var.array)
        return True
    if op == 'indexer':
        zds = col.load(delayed=False, filters=filters, indexer=[
            (w.labelled(k), slice(0, 1)) for k in keys])
        assert zds is not None
        return True
    if op == 'map':
        assert len(col.map(plain, filters=filters).compute()) == len(keys)
        return True
    if op == 'overlap':
        assert len(col.map_overlap(plain, depth=1, filters=filters,
                                   delayed=False).compute()) == len(keys)
        return True
    if damaged is not None:
        return False
    if op == 'iterate':
        assert [p for p, _ in col.iterate_on_records()] == [
            w.path(k) for k in w.keys]
        return True
    if op == 'variables':
        assert {v.name for v in col.variables()} == set(w.dims)
        return True
    if op == 'view':
        view = zcollection.create_view(
            w.place.path(f'view{step}'),
            zcollection.view.ViewReference(w.base, w.place.fs),
            filesystem=w.place.fs, filters=filters)
        view.add_variable(gen.meta_variable(dict(
            name='own', dtype='int64', dims=[w.dim], fill=-1)))
        view.update(lambda zds: {'own': numpy.arange(
            zds.dimensions[w.dim])})
        view.load(delayed=False)
        view.sync()
        view.drop_variable('own')
        return True
    if op == 'index':
        index = RunIndexer.create(w.place.path(f'index{step}.parquet'), col,
                                  filesystem=w.place.fs)
        index.update(col)
        index.query({'value': 0})
        index.update(col)
        return True
    raise AssertionError(op)


SUBS = [Sub('operations', cases(), run, 150, 2500)]
