"""C01: loading returns exactly the records that were inserted."""
from hypothesis import strategies as st

from .. import env, gen, model
from ..core import Sub

RULE = ('A case is a schema (partitioning scheme, dtypes, dimension orders, '
        'fill values, codecs, chunk sizes, file system) plus a batch of '
        'records spread over 1-6 partitions, inserted in memory, lazily or '
        'through xarray, then loaded lazily and eagerly, fully and with a '
        'selection of variables, and compared with the raw numpy arrays. '
        'Non-trivial: at least two partitions, or a variable whose stored '
        'chunks are smaller than the partition. Part large: up to 12 '
        'partitions of up to 900 records.')
ASSUMPTIONS = ['local and in-memory fsspec file systems stand for all',
               'one in-process Dask worker with one thread']


@st.composite
def cases(draw):
    schema = draw(gen.schemas(dtypes=draw(st.sampled_from(
        [None, None, None, gen.OTHERS]))))
    batch = draw(gen.batches(max_parts=5, max_rows=5))
    return dict(schema=schema,
                batch=batch,
                delayed=draw(st.booleans()),
                chunk=draw(st.sampled_from([None, 1, 2, 3])),
                how=draw(st.sampled_from(['zc', 'zc', 'zc', 'xr'])),
                select=draw(
                    st.lists(st.integers(0, 5), max_size=3, unique=True)))


def run(case, ctx):
    schema, batch = case['schema'], case.get('batch')
    if batch is None:
        # Part large: number of records of each partition.
        rid, batch = 0, []
        for part, size in enumerate(case['sizes']):
            batch.append([part, [ix * 7 % 997 for ix in range(size)], rid])
            rid += size
    data = model.arrays(schema, batch)
    dims, fills = model.var_dims(schema), model.var_fill(schema)
    with env.Place(schema['fs']) as place:
        zds = gen.build(schema, data, case['delayed'], case['chunk'])
        col = gen.create(schema, zds, place)
        if case['how'] == 'xr':
            if schema['unit'] != 'ns' or any(
                    v['dtype'] in ('M8[ms]', 'm8[s]') or
                    v['fill'] is not None for v in schema['vars']):
                # xarray only holds nanosecond dates, and replaces fill
                # values by NaN.
                case = dict(case, how='zc')
        if case['how'] == 'xr':
            ctx.label('xarray')
            col.insert(zds.to_xarray())
        else:
            col.insert(zds)
        parts = model.split(schema, batch, data)
        want = model.content(schema, parts)
        names = [place.path('col') + '/' + model.key_dir(schema['part'], key)
                 for key in sorted(parts)]
        assert list(col.partitions()) == names, list(col.partitions())
        for delayed in (True, False):
            model.compare(col.load(delayed=delayed), want, dims, fills,
                          f'load(delayed={delayed})', delayed)
        chosen = sorted({sorted(want)[i % len(want)] for i in case['select']})
        if chosen:
            ctx.label('selection')
            for delayed in (True, False):
                got = col.load(delayed=delayed, selected_variables=chosen)
                model.compare(got, {k: want[k] for k in chosen}, dims, fills,
                              'load(selected)', delayed)
        # Each partition alone holds its own records.
        for key in sorted(parts)[:3]:
            scheme = model.key_dict(schema['part'], key)
            got = col.load(delayed=False, filters=lambda k: k == scheme)
            model.compare(got, parts[key], dims, fills, f'partition {key}')
        biggest = max(len(item[1]) for item in batch)
        small = schema['chunks'].get(schema['dim'], -1)
        small = small == 'auto' or 0 < small < biggest
        ctx.nt(len(batch) > 1 or small)
        if small:
            ctx.label('chunked')
        if len(batch) > 1:
            ctx.label('several-partitions')
        ctx.label(schema['fs'], schema['part']['kind'],
                  'lazy' if case['delayed'] else 'eager')


@st.composite
def large_cases(draw):
    case = draw(cases())
    del case['batch']
    case['schema'] = draw(gen.schemas(max_vars=2))
    chunks = case['schema']['chunks']
    for name in chunks:
        if chunks[name] != 'auto':
            chunks[name] = draw(st.sampled_from([-1, 10, 64, 100, 1000]))
    if case['schema']['block']:
        case['schema']['block'] = draw(st.sampled_from([1000, 20000]))
    case['chunk'] = draw(st.sampled_from([None, 10, 64, 333]))
    case['sizes'] = draw(st.lists(st.integers(1, 900), min_size=1,
                                  max_size=12))
    return case


SUBS = [Sub('roundtrip', cases(), run, 35, 500),
        Sub('large', large_cases(), run, 5, 100)]
