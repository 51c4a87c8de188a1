"""C06: a user merge strategy sees and decides exactly the touched partitions."""
import numpy
from hypothesis import strategies as st

from .. import gen, model
from ..core import Sub
from ..world import World

RULE = ('A case is a schema, stored records and a batch that overlaps some '
        'of the stored partitions, inserted with a recording merge function '
        'that returns the stored records, the inserted ones, both '
        'concatenated in either order, or part of them. The recorded calls '
        '(one per existing touched partition, with complete stored records, '
        'the inserted records of that partition, axis, dimension and the '
        'extra arguments) and the resulting content are compared with the '
        'model. Non-trivial: at least one partition is merged and at least '
        'one is new or untouched.')
ASSUMPTIONS = ['one in-process Dask worker with one thread']

CALLS: list = []
MODES = ('existing', 'inserted', 'both', 'reverse', 'first', 'even')


def raw_of(zds):
    out = {}
    for name, var in zds.variables.items():
        arr = var.array
        out[name] = numpy.asarray(
            arr.compute() if hasattr(arr, 'compute') else arr)
    return out


def strategy(existing_ds, inserted_ds, axis, partitioning_dim, **kwargs):
    CALLS.append((raw_of(existing_ds), raw_of(inserted_ds), axis,
                  partitioning_dim, dict(kwargs)))
    mode = kwargs.get('mode')
    if mode == 'existing':
        return existing_ds
    if mode == 'inserted':
        return inserted_ds
    if mode == 'both':
        return existing_ds.concat(inserted_ds, partitioning_dim)
    if mode == 'reverse':
        return inserted_ds.concat(existing_ds, partitioning_dim)
    if mode == 'first':
        return existing_ds.isel({partitioning_dim: slice(0, 1)})
    return existing_ds.concat(inserted_ds, partitioning_dim).isel(
        {partitioning_dim: slice(0, None, 2)})


def expected(mode, old, new, dims, dim):
    out = {}
    for name in old:
        d = dims[name]
        if mode == 'existing':
            out[name] = old[name]
        elif mode == 'inserted':
            out[name] = new[name]
        elif mode == 'both':
            out[name] = model.concat([old[name], new[name]], d, dim)
        elif mode == 'reverse':
            out[name] = model.concat([new[name], old[name]], d, dim)
        elif mode == 'first':
            out[name] = model.take(old[name], d, dim, slice(0, 1))
        else:
            out[name] = model.take(
                model.concat([old[name], new[name]], d, dim), d, dim,
                slice(0, None, 2))
    return out


@st.composite
def cases(draw):
    return dict(schema=draw(gen.schemas(max_vars=2, min_vars=1,
                                        immutable=False)),
                first=draw(gen.batches(max_parts=4, max_part=5, max_rows=4)),
                steps=draw(
                    st.lists(st.fixed_dictionaries(
                        dict(batch=gen.batches(max_parts=4, max_part=5,
                                               max_rows=4),
                             mode=st.sampled_from(MODES),
                             skip=st.integers(0, 3),
                             extra=st.booleans(),
                             delayed=st.booleans(),
                             chunk=st.sampled_from([None, 1, 2]),
                             np=st.sampled_from([None, 1, 2, 3]))),
                             min_size=1, max_size=2)))


def run(case, ctx):
    with World(case['schema'], case['first']) as w:
        for step, op in enumerate(case['steps']):
            where = f'step {step}'
            batch = [[p, o, r + (step + 1) * 1000] for p, o, r in op['batch']]
            skip = w.skippable(op['skip'])
            new = w.new_parts(batch, skip)
            kwargs = {'mode': op['mode']}
            if op['extra']:
                kwargs.update(weight=3, names=['a', 'b'])
            CALLS.clear()
            w.col.insert(
                w.dataset(batch, delayed=op['delayed'], chunk=op['chunk'],
                          skip=skip),
                merge_callable=strategy, npartitions=op['np'], **kwargs)
            calls = list(CALLS)
            touched = sorted(set(new) & set(w.parts))
            assert len(calls) == len(touched), \
                f'{where}: {len(calls)} calls for {len(touched)} partitions'
            left = list(touched)
            for old_raw, new_raw, axis, dim, extra in calls:
                assert axis == w.schema['axis'] and dim == w.dim, \
                    f'{where}: axis {axis}, dim {dim}'
                assert extra == kwargs, f'{where}: arguments {extra}'
                match = [
                    k for k in left
                    if same(old_raw, w.parts[k]) and same(new_raw, new[k])
                ]
                assert match, (f'{where}: called with stored {old_raw} and '
                               f'inserted {new_raw}, expected one of '
                               f'{[(w.parts[k], new[k]) for k in left]}')
                left.remove(match[0])
            untouched = set(w.parts) - set(new)
            for key, rows in new.items():
                w.parts[key] = expected(op['mode'], w.parts[key], rows,
                                        w.dims, w.dim) \
                    if key in touched else rows
            w.check(where, lazy=False, each=True)
            ctx.nt(bool(touched) and (bool(untouched)
                                      or len(new) > len(touched)))
            ctx.label(op['mode'])


def same(got, want):
    return set(got) == set(want) and all(
        model.same(got[k], want[k]) for k in want)


SUBS = [Sub('strategy', cases(), run, 25, 400)]
