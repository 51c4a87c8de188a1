"""C02: every record in the partition of its own key, unsorted data refused."""
import dask.array
import numpy
from hypothesis import strategies as st

from .. import env, gen, model
from ..core import Sub

RULE = ('split: a sequence of record keys (dates in any unit around and far '
        'from period boundaries, or integer tuples of any integer dtype; '
        'sorted by construction two times out of three) in memory or lazy '
        'with any chunking; the slices are compared with the runs of equal '
        'keys computed record by record, or a refusal is required when the '
        'keys decrease somewhere. stored: the same through insert, reading '
        'each partition back. large: the same for runs of up to 65537 records. '
        'Non-trivial: at least two distinct keys.')
ASSUMPTIONS = ['datasets have at least one record',
               'uint64 keys are not mixed with signed ones']

DATE_STEPS = {
    'Y': 300 * 86400, 'M': 11 * 86400, 'D': 5 * 3600, 'h': 17 * 60, 'm': 13,
    's': 1
}
PER = {'ns': 10**9, 'us': 10**6, 'ms': 1000, 's': 1}


@st.composite
def split_cases(draw):
    kind = draw(st.sampled_from(['date', 'seq', 'seq']))
    n = draw(st.integers(1, 12))
    ordered = draw(st.sampled_from([True, True, False]))
    case = dict(kind=kind,
                delayed=draw(st.booleans()),
                chunk=draw(st.sampled_from([None, 1, 2, 3, 5])))
    if kind == 'date':
        case['res'] = draw(st.sampled_from(model.RES))
        case['unit'] = draw(st.sampled_from(['ns', 'us', 'ms', 's']))
        case['base'] = draw(
            st.sampled_from([0, 951_782_400, 1_356_998_390, -86_400 * 800]))
        ticks = draw(
            st.lists(st.integers(-10, 12), min_size=n, max_size=n))
        fine = draw(st.lists(st.integers(-1, 1), min_size=n, max_size=n))
        step = DATE_STEPS[case['res']]
        times = [(case['base'] + t * step) * PER[case['unit']] + f
                 for t, f in zip(ticks, fine)]
        case['times'] = sorted(times) if ordered else times
    else:
        k = draw(st.integers(1, 3))
        signed = draw(st.booleans())
        names = ['cycle', 'pass_number', 'seg'][:k]
        dtypes = []
        for _ in range(k):
            dtypes.append(
                draw(
                    st.sampled_from(['int8', 'int16', 'int32', 'int64'] if
                                    signed else ['uint8', 'uint16', 'uint32',
                                                 'uint64'])))
        low = draw(st.sampled_from([-2, 0, 9, 99] if signed else [0, 9, 99]))
        rows = draw(
            st.lists(st.lists(st.integers(0, 2), min_size=k, max_size=k),
                     min_size=n,
                     max_size=n))
        rows = [[low + v for v in row] for row in rows]
        case.update(names=names,
                    dtypes=dtypes,
                    rows=sorted(rows) if ordered else rows)
    return case


def dataset_of(case):
    from zcollection import dataset, partitioning
    if case['kind'] == 'date':
        values = numpy.array(case['times'], 'int64').view(f"M8[{case['unit']}]")
        part = partitioning.Date(('time', ), case['res'])
        cols = {'time': values}
        keys = [model.date_key(v, case['res']) for v in values]
        names = model.UNITS[:model.RES.index(case['res']) + 1]
        labels = [
            tuple(f'{a}={b:02d}' for a, b in zip(names, key)) for key in keys
        ]
    else:
        rows = case['rows']
        cols = {
            name: numpy.array([row[ix] for row in rows], case['dtypes'][ix])
            for ix, name in enumerate(case['names'])
        }
        part = partitioning.Sequence(tuple(case['names']))
        keys = [tuple(row) for row in rows]
        labels = [
            tuple(f'{a}={b}' for a, b in zip(case['names'], key))
            for key in keys
        ]
    count = len(keys)
    cls = dataset.DelayedArray if case['delayed'] else dataset.Array
    arrays = []
    for name, arr in list(cols.items()) + [('rid', numpy.arange(count))]:
        if case['delayed']:
            chunk = min(case['chunk'] or count, count)
            arr = dask.array.from_array(arr, chunks=(chunk, ))
        arrays.append(cls(name, arr, ('num_lines', )))
    return part, dataset.Dataset(arrays), keys, labels


def runs(labels):
    out = []
    start = 0
    for ix in range(1, len(labels) + 1):
        if ix == len(labels) or labels[ix] != labels[start]:
            out.append((labels[start], (start, ix)))
            start = ix
    return out


def run_split(case, ctx):
    env.client()
    part, zds, keys, labels = dataset_of(case)
    ordered = all(a <= b for a, b in zip(keys, keys[1:]))
    ctx.label('ordered' if ordered else 'unordered',
              'lazy' if case['delayed'] else 'eager', case['kind'])
    ctx.nt(len(set(keys)) > 1)
    try:
        got = [(tuple(label), {
            k: (int(s.start), int(s.stop), s.step)
            for k, s in index.items()
        }) for label, index in part.split_dataset(zds, 'num_lines')]
    except ValueError:
        assert not ordered, f'sorted keys refused: {keys}'
        return
    assert ordered, f'unsorted keys accepted: {keys} -> {got}'
    want = [(label, {'num_lines': (lo, hi, None)})
            for label, (lo, hi) in runs(labels)]
    assert got == want, f'{got} != {want}'
    # the same slices, keyed by decoded partition
    schemes = [
        (tuple(scheme), (int(s.start), int(s.stop)))
        for scheme, s in part.index_dataset(zds)
    ]
    assert [s for _, s in schemes] == [s for _, s in runs(labels)]


def run_stored(case, ctx):
    """Through insert: each partition holds exactly the records of its key."""
    import zcollection
    from zcollection import meta
    env.client()
    part, zds, keys, labels = dataset_of(case)
    ordered = all(a <= b for a, b in zip(keys, keys[1:]))
    ctx.label('ordered' if ordered else 'unordered',
              'lazy' if case['delayed'] else 'eager')
    ctx.nt(len(set(keys)) > 1)
    with env.Place('memory') as place:
        axis = 'time' if case['kind'] == 'date' else 'rid'
        col = zcollection.create_collection(axis, zds, part, place.path('c'),
                                            filesystem=place.fs)
        try:
            col.insert(zds)
        except ValueError:
            assert not ordered, f'sorted keys refused: {keys}'
            assert list(col.partitions()) == []
            return
        assert ordered, f'unsorted keys accepted: {keys}'
        want = {}
        for ix, label in enumerate(labels):
            want.setdefault('/'.join(label), []).append(ix)
        got = {}
        for path in col.partitions(relative=True):
            ds = zcollection.storage.open_zarr_group(
                place.path('c', path), place.fs, delayed=False)
            got[path] = ds['rid'].values.tolist()
        assert got == want, f'{got} != {want}'


@st.composite
def large_cases(draw):
    """Runs of equal keys: [increase of the key, number of records]."""
    return dict(kind=draw(st.sampled_from(['date', 'seq', 'pair'])),
                delayed=draw(st.booleans()),
                chunk=draw(st.sampled_from([None, 1000, 65536, 99999])),
                first=draw(st.integers(0, 300)),
                runs=draw(st.lists(st.tuples(
                    st.sampled_from([1, 1, 1, 2, 300, 400]),
                    st.sampled_from([1, 2, 255, 256, 257, 32768, 65535,
                                     65536, 65537])).map(list),
                    min_size=2, max_size=5)),
                back=draw(st.sampled_from([None, None, 0, 1, 2])))


def run_large(case, ctx):
    """Long datasets: the positions exceed those of the small cases."""
    from zcollection import dataset, partitioning
    env.client()
    steps = [item[0] for item in case['runs']]
    if case['back'] is not None:
        # one of the runs has a smaller key than the one before
        ix = 1 + case['back'] % (len(steps) - 1)
        steps[ix] = -steps[ix]
    values = 700 + case['first'] + numpy.cumsum(steps)
    counts = [item[1] for item in case['runs']]
    ordered = case['back'] is None
    cls = dataset.DelayedArray if case['delayed'] else dataset.Array
    if case['kind'] == 'date':
        part = partitioning.Date(('time', ), 'D')
        moments = values.astype('M8[D]')
        cols = {'time': numpy.repeat(moments, counts).astype('M8[ns]')}
        cols['time'] += numpy.concatenate(
            [numpy.arange(n) for n in counts]).astype('m8[ns]')
        labels = [tuple(f'{a}={b:02d}' for a, b in zip(
            model.UNITS, model.date_key(v, 'D'))) for v in moments]
    elif case['kind'] == 'seq':
        part = partitioning.Sequence(('cycle', ))
        cols = {'cycle': numpy.repeat(values, counts)}
        labels = [(f'cycle={v}', ) for v in values]
    else:
        part = partitioning.Sequence(('cycle', 'track'))
        cols = {'cycle': numpy.repeat(values // 5, counts),
                'track': numpy.repeat(values % 5, counts)}
        labels = [(f'cycle={v // 5}', f'track={v % 5}') for v in values]
    zds = dataset.Dataset([cls(name, dask.array.from_array(
        arr, chunks=case['chunk'] or -1) if case['delayed'] else arr, ('n', ))
        for name, arr in cols.items()])
    ctx.nt()
    ctx.label('ordered' if ordered else 'unordered',
              'lazy' if case['delayed'] else 'eager', case['kind'])
    try:
        got = [(tuple(label), int(index['n'].start), int(index['n'].stop))
               for label, index in part.split_dataset(zds, 'n')]
    except ValueError:
        assert not ordered, 'sorted keys refused'
        return
    assert ordered, f'unsorted keys accepted: {got}'
    stops = numpy.cumsum(counts).tolist()
    want = list(zip(labels, [0] + stops[:-1], stops))
    assert got == want, f'{got} != {want}'


@st.composite
def invalid_cases(draw):
    return dict(kind=draw(st.sampled_from(['2d', 'float', 'notdate'])),
                delayed=draw(st.booleans()),
                n=draw(st.integers(1, 5)))


def run_invalid(case, ctx):
    from zcollection import dataset, partitioning
    env.client()
    cls = dataset.DelayedArray if case['delayed'] else dataset.Array
    n = case['n']
    wrap = (lambda a: dask.array.from_array(a)) if case['delayed'] else (
        lambda a: a)
    if case['kind'] == '2d':
        zds = dataset.Dataset(
            [cls('k', wrap(numpy.arange(n * 2).reshape(n, 2)), ('x', 'y'))])
        part, exc = partitioning.Sequence(('k', )), ValueError
    elif case['kind'] == 'float':
        zds = dataset.Dataset([cls('k', wrap(numpy.arange(float(n))), ('x', ))])
        part, exc = partitioning.Sequence(('k', )), TypeError
    else:
        zds = dataset.Dataset([cls('k', wrap(numpy.arange(n)), ('x', ))])
        part, exc = partitioning.Date(('k', ), 'D'), TypeError
    ctx.nt()
    try:
        got = list(part.split_dataset(zds, 'x'))
    except exc:
        return
    assert False, f'accepted: {got}'


SUBS = [
    Sub('split', split_cases(), run_split, 350, 6000,
        examples=(
            dict(kind='seq', delayed=False, chunk=None, names=['cycle'],
                 dtypes=['int64'], rows=[[1], [2], [1]]),
            dict(kind='date', delayed=False, chunk=None, res='D', unit='s',
                 base=0, times=[0, 86400, 1]),
        )),
    Sub('stored', split_cases(), run_stored, 30, 400),
    Sub('large', large_cases(), run_large, 20, 300),
    Sub('invalid', invalid_cases(), run_invalid, 10, 20),
]
