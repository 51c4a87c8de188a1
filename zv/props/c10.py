"""C10: loading through an indexer."""
import numpy
from hypothesis import strategies as st

from .. import gen, model
from ..core import Sub
from ..viewworld import ViewWorld
from ..world import World
from .c09 import chosen
from .c17 import update, view_variables

RULE = ('A case is a collection, a list of (partition, slice) in any order '
        'with several slices per partition (full, partial, strided, '
        'reversed bounds, empty), a partition filter, a selection of '
        'variables, eager or lazy. The loaded dataset must be the '
        'concatenation, in partition order, of the slices applied to the '
        'reference model. part map: the indexer is computed by '
        'Collection.map as documented. part view: the same through a view '
        'with its own variables, including selections made only of view '
        'variables. Non-trivial: at least two slices or a filter.')
ASSUMPTIONS = ['the indexer designates existing partitions',
               'one in-process Dask worker with one thread']


def indexers(max_part=9):
    number = st.one_of(st.none(), st.integers(-3, 5))
    return st.lists(st.tuples(st.integers(0, max_part), number, number,
                              st.sampled_from([None, None, None, 2])).map(
                                  list), min_size=1, max_size=6)


@st.composite
def cases(draw):
    schema = draw(gen.schemas(max_vars=3, immutable=draw(st.sampled_from(
        [False, False, True]))))
    return dict(schema=schema,
                batch=draw(gen.batches(max_parts=5, max_part=9, max_rows=5)),
                indexer=draw(indexers()),
                mask=draw(st.one_of(st.none(), st.none(),
                                    st.integers(0, 31))),
                select=draw(st.one_of(st.none(), st.integers(0, 31))),
                delayed=draw(st.booleans()),
                generator=draw(st.booleans()))


def resolve(w, items):
    """[(key, slice)] in the given order; partitions by position."""
    return [(w.keys[ix % len(w.keys)], slice(a, b, c))
            for ix, a, b, c in items]


def expected(w, pairs, keys, data=None, dims=None, names=None):
    """Plain concatenation of the slices, {} when nothing is selected."""
    data = data or w.parts
    dims = dims or w.dims
    pieces = []
    for key in sorted({k for k, _ in pairs if k in keys}):
        for this, where in pairs:
            if this == key:
                pieces.append({
                    n: model.take(a, dims[n], w.dim, where)
                    for n, a in data[key].items()
                    if names is None or n in names
                })
    if not pieces:
        return {}
    return {
        n: model.concat([p[n] for p in pieces], dims[n], w.dim)
        for n in pieces[0]
    }


def run(case, ctx):
    with World(case['schema'], case['batch'], delayed=case['delayed']) as w:
        pairs = resolve(w, case['indexer'])
        keys = w.keys if case['mask'] is None else w.pick(case['mask'])
        select = chosen(w, case['select'])
        indexer = [(w.labelled(k), s) for k, s in pairs]
        want = expected(w, pairs, keys, names=select)
        if want:
            want.update({n: a for n, a in w.imm.items()
                         if select is None or n in select})
        got = w.col.load(
            delayed=case['delayed'],
            filters=None if case['mask'] is None else w.only(keys),
            indexer=iter(indexer) if case['generator'] else indexer,
            selected_variables=select)
        w.compare(got, 'indexer', expected=want)
        ctx.nt(len(pairs) > 1 or case['mask'] is not None)
        if not want:
            ctx.label('nothing selected')
        if len({k for k, _ in pairs}) < len(pairs):
            ctx.label('several slices of a partition')
        if case['mask'] is not None:
            ctx.label('filter')


@st.composite
def map_cases(draw):
    schema = draw(gen.schemas(max_vars=2))
    return dict(schema=schema,
                batch=draw(gen.batches(max_parts=5, max_part=9, max_rows=5)),
                start=draw(st.integers(0, 3)), size=draw(st.integers(0, 3)),
                delayed=draw(st.booleans()))


def run_map(case, ctx):
    start, stop = case['start'], case['start'] + case['size']
    with World(case['schema'], case['batch'], delayed=case['delayed']) as w:

        dim = w.dim

        def where(zds):
            return slice(min(start, zds.dimensions[dim]),
                         min(stop, zds.dimensions[dim]))

        indexer = w.col.map(where).compute()
        got = w.col.load(delayed=case['delayed'], indexer=indexer)
        want = expected(w, [(k, slice(start, stop)) for k in w.keys], w.keys)
        w.compare(got, 'indexer from map', expected=want)
        ctx.nt(len(w.keys) > 1)


@st.composite
def view_cases(draw):
    schema = draw(gen.schemas(max_vars=2, codecs=False,
                              immutable=draw(st.sampled_from(
                                  [False, False, True]))))
    return dict(schema=schema,
                batch=draw(gen.batches(max_parts=4, max_part=6, max_rows=5)),
                view=draw(st.one_of(st.none(), st.integers(1, 15))),
                variables=draw(st.lists(view_variables(), min_size=1,
                                        max_size=2)),
                indexer=draw(indexers(6)),
                mask=draw(st.one_of(st.none(), st.none(),
                                    st.integers(0, 15))),
                select=draw(st.sampled_from(['all', 'all', 'view', 'one',
                                             'reference', 'axis', 'imm'])),
                delayed=draw(st.booleans()))


def run_view(case, ctx):
    with ViewWorld(case['schema'], case['batch'], select=case['view'],
                   delayed=case['delayed']) as w:
        shapes = sorted({tuple(d) for d in w.dims.values() if w.dim in d})
        for ix, spec in enumerate(case['variables']):
            w.add(dict(spec, name=f'view{ix}',
                       dims=list(shapes[spec['like'] % len(shapes)])))
            update(w, ['update', ix, None, 0, True, False, False, ix + 3,
                       None])
        pairs = resolve(w, case['indexer'])
        keys = w.keys if case['mask'] is None else w.pick(case['mask'])
        keys = [k for k in keys if k in w.seen]
        select = {'all': None, 'view': list(w.vvars), 'one': ['view0'],
                  'reference': list(w.dims),
                  'axis': [w.schema['axis'], 'view0'],
                  'imm': list(w.imm) or None}[case['select']]
        data = {k: {**w.parts[k], **w.vparts[k]} for k in w.seen}
        want = expected(w, pairs, keys, data, w.alldims, select)
        if want or (case['select'] == 'imm' and w.imm and any(
                k in keys for k, _ in pairs)):
            want.update({n: a for n, a in w.imm.items()
                         if select is None or n in select})
        got = w.view.load(
            delayed=case['delayed'],
            filters=None if case['mask'] is None else w.only(keys),
            indexer=[(w.labelled(k), s) for k, s in pairs],
            selected_variables=select)
        w.vcompare(got, 'view indexer', expected=want)
        ctx.nt(len(pairs) > 1 or case['mask'] is not None)
        ctx.label(case['select'])


SUBS = [Sub('indexer', cases(), run, 50, 700),
        Sub('view', view_cases(), run_view, 25, 300),
        Sub('map', map_cases(), run_map, 8, 80)]
