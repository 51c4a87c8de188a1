"""C05: the time-series merge keeps every record not superseded."""
import dask.array
import numpy
from hypothesis import strategies as st

from .. import env, gen, model
from ..core import Sub
from ..world import World

RULE = ('direct: two time-ordered series of 1-8 records on a grid of a few '
        'ticks (duplicates included), any unit, lazy or eager, with or '
        'without tolerance, merged by merge_time_series and compared record '
        'by record with the set definition. stored: a history of inserts '
        'with that strategy into partitions of any scheme, compared after '
        'each insert and again after reading back. Non-trivial: the two '
        'series interleave (some stored records are kept and some '
        'superseded, or kept on both sides).')
ASSUMPTIONS = ['stored and inserted series are each in time order']

UNITS = ['ns', 'us', 'ms', 's', 'm', 'h', 'D']


def runs_of(times, tolerance):
    """[(first, last)] of the runs of inserted records."""
    if tolerance is None:
        return [(times[0], times[-1])]
    out = [[times[0], times[0]]]
    for value in times[1:]:
        if value - out[-1][1] > tolerance:
            out.append([value, value])
        else:
            out[-1][1] = value
    return [tuple(item) for item in out]


def merged(existing, inserted, tolerance):
    """Indices [(source, row)] of the expected result (plain integers)."""
    spans = runs_of(inserted, tolerance)
    rows = [(t, 0, ix) for ix, t in enumerate(existing)
            if all(t < lo or t > hi for lo, hi in spans)]
    rows += [(t, 1, ix) for ix, t in enumerate(inserted)]
    return [(src, ix) for _, src, ix in sorted(rows, key=lambda r: r[0])]


@st.composite
def direct_cases(draw):
    span = draw(st.sampled_from([4, 8, 20]))
    ticks = st.lists(st.integers(0, span), min_size=1, max_size=8)
    return dict(existing=sorted(draw(ticks)),
                inserted=sorted(draw(ticks)),
                shift=draw(st.integers(-6, 6)),
                unit=draw(st.sampled_from(UNITS)),
                base=draw(st.sampled_from([0, -7, 10_000])),
                tolerance=draw(st.one_of(st.none(), st.integers(0, 6))),
                delayed=draw(st.booleans()),
                chunk=draw(st.sampled_from([1, 3, 100])),
                width=draw(st.integers(0, 2)))


def run_direct(case, ctx):
    from zcollection import dataset
    from zcollection.merging import merge_time_series
    env.client()
    existing = case['existing']
    inserted = [t + case['shift'] for t in case['inserted']]
    sets = []
    cls = dataset.DelayedArray if case['delayed'] else dataset.Array
    for src, times in enumerate((existing, inserted)):
        n = len(times)
        time = (numpy.array(times, 'int64') + case['base']).view(
            f"M8[{case['unit']}]")
        rid = numpy.arange(n, dtype='int64') + 1000 * src
        arrays = {'time': (time, ('x', )), 'rid': (rid, ('x', ))}
        if case['width']:
            arrays['wide'] = (numpy.stack(
                [rid * 10 + k for k in range(case['width'])]), ('y', 'x'))
        sets.append(
            dataset.Dataset([
                cls(
                    name,
                    dask.array.from_array(arr, chunks=case['chunk'])
                    if case['delayed'] else arr, dims)
                for name, (arr, dims) in arrays.items()
            ]))
    kwargs = {}
    if case['tolerance'] is not None:
        kwargs['tolerance'] = numpy.timedelta64(case['tolerance'],
                                                case['unit'])
    got = merge_time_series(sets[0], sets[1], 'time', 'x', **kwargs)
    want = merged(existing, inserted, case['tolerance'])
    rid = numpy.array([1000 * src + ix for src, ix in want])
    assert got['rid'].values.tolist() == rid.tolist(), \
        f"{got['rid'].values.tolist()} != {rid.tolist()}"
    times = [(existing, inserted)[src][ix] + case['base'] for src, ix in want]
    assert got['time'].values.view('int64').tolist() == times
    assert got['time'].values.dtype == numpy.dtype(f"M8[{case['unit']}]")
    if case['width']:
        assert got['wide'].values.tolist() == [
            (rid * 10 + k).tolist() for k in range(case['width'])
        ]
    assert got.dimensions['x'] == len(want)
    kept = sum(1 for src, _ in want if src == 0)
    ctx.nt(0 < kept < len(existing)
           or (kept and 0 < [s for s, _ in want].index(1) < kept))
    ctx.label('lazy' if case['delayed'] else 'eager')
    if case['tolerance'] is not None:
        ctx.label('tolerance')
        if len(runs_of(inserted, case['tolerance'])) > 1:
            ctx.label('several runs')


@st.composite
def stored_cases(draw):
    schema = draw(
        gen.schemas(max_vars=2, min_vars=1,
                    resolutions=('Y', 'M', 'D', 'h', 'm')))
    steps = draw(
        st.lists(st.fixed_dictionaries(
            dict(batch=gen.batches(max_parts=3, max_part=3, max_rows=6,
                                   span=12),
                 delayed=st.booleans(),
                 tolerance=st.one_of(st.none(), st.integers(0, 5)),
                 np=st.sampled_from([None, 1, 2]))),
                 min_size=1, max_size=3))
    return dict(schema=schema,
                first=draw(
                    gen.batches(max_parts=3, max_part=3, max_rows=6,
                                span=12)),
                steps=steps)


def run_stored(case, ctx):
    from zcollection.merging import merge_time_series
    with World(case['schema'], case['first']) as w:
        axis = w.schema['axis']
        for step, op in enumerate(case['steps']):
            rid0 = (step + 1) * 1000
            batch = [[p, o, r + rid0] for p, o, r in op['batch']]
            new = w.new_parts(batch)
            kwargs = {}
            if op['tolerance'] is not None:
                kwargs['tolerance'] = numpy.timedelta64(
                    op['tolerance'], w.schema['unit'])
            w.col.insert(w.dataset(batch, delayed=op['delayed']),
                         merge_callable=merge_time_series,
                         npartitions=op['np'], **kwargs)
            for key, rows in new.items():
                old = w.parts.get(key)
                if old is None:
                    w.parts[key] = rows
                    continue
                plan = merged(old[axis].view('int64').tolist(),
                              rows[axis].view('int64').tolist(),
                              op['tolerance'])
                both = {}
                shift = len(old[axis])
                index = [ix + shift * src for src, ix in plan]
                for name in old:
                    full = model.concat([old[name], rows[name]], w.dims[name],
                                        w.dim)
                    both[name] = model.take(full, w.dims[name], w.dim, index)
                w.parts[key] = both
                kept = sum(1 for src, _ in plan if src == 0)
                ctx.nt(0 < kept < shift)
                ctx.label('merged')
            w.check(f'step {step}', lazy=step % 2 == 0)


SUBS = [
    Sub('direct', direct_cases(), run_direct, 250, 5000),
    Sub('stored', stored_cases(), run_stored, 20, 300),
]
