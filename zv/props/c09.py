"""C09: map and overlapping map."""
import numpy
from hypothesis import strategies as st

from .. import gen, model
from ..core import Sub
from ..world import World

RULE = ('A case is a collection (with or without variables outside the '
        'partitioned dimension), a filter, an overlap depth, a selection of '
        'variables, bag sizes, eager or lazy loading, and a function that '
        'reports everything it receives: raw arrays of every variable, '
        'partition_info, positional and keyword arguments. The bag is '
        'compared with the same calls made on the reference model, and all '
        'stored bytes must be unchanged. Non-trivial: at least two '
        'partitions.')
ASSUMPTIONS = ['one in-process Dask worker with one thread']


@st.composite
def cases(draw):
    schema = draw(gen.schemas(max_vars=3, immutable=draw(st.sampled_from(
        [False, False, True]))))
    return dict(schema=schema,
                batch=draw(gen.batches(max_parts=6, max_part=9, max_rows=4)),
                mask=draw(st.one_of(st.none(), st.none(),
                                    st.integers(0, 127))),
                depth=draw(st.sampled_from([None, None, 0, 1, 1, 2, 3, 7])),
                info=draw(st.booleans()),
                delayed=draw(st.booleans()),
                select=draw(st.one_of(st.none(), st.integers(0, 31))),
                bag=draw(st.sampled_from([None, ['size', 1], ['size', 2],
                                          ['n', 1], ['n', 2], ['n', 5]])),
                extra=draw(st.booleans()))


def report(zds, args, kwargs):
    out = {}
    for name, var in zds.variables.items():
        arr = var.array
        lazy = hasattr(arr, 'compute')
        arr = numpy.asarray(arr.compute() if lazy else arr)
        out[name] = (arr, tuple(var.dimensions), lazy)
    return dict(vars=out, dims=dict(zds.dimensions), args=args,
                kwargs=dict(kwargs))


def plain(zds, *args, **kwargs):
    return report(zds, args, kwargs)


def informed(zds, *args, partition_info=None, **kwargs):
    out = report(zds, args, kwargs)
    out['info'] = partition_info
    return out


def check_report(got, expected, dims, delayed, args, kwargs, where):
    names = set(expected)
    assert set(got['vars']) == names, \
        f"{where}: variables {sorted(got['vars'])} != {sorted(names)}"
    sizes: dict = {}
    for name, arr in expected.items():
        raw, these, lazy = got['vars'][name]
        assert these == tuple(dims[name]), f'{where}/{name}: {these}'
        assert lazy == delayed, f'{where}/{name}: lazy {lazy}'
        assert model.same(raw, arr), \
            f'{where}/{name}: {model.describe(raw)} != {model.describe(arr)}'
        sizes.update(zip(these, raw.shape))
    assert got['dims'] == sizes, f"{where}: {got['dims']} != {sizes}"
    assert got['args'] == args and got['kwargs'] == kwargs, \
        f"{where}: arguments {got['args']} {got['kwargs']}"


def chosen(w, mask):
    """Names selected by a bit mask; the axis is always kept."""
    if mask is None:
        return None
    names = list(w.dims)
    return [w.schema['axis']] + [
        n for ix, n in enumerate(names)
        if n != w.schema['axis'] and mask >> (ix % 5) & 1]


def run(case, ctx):
    with World(case['schema'], case['batch'], delayed=case['delayed']) as w:
        keys = w.keys if case['mask'] is None else w.pick(case['mask'])
        filters = None if case['mask'] is None else w.only(keys)
        select = chosen(w, case['select'])
        args = (3, 'a') if case['extra'] else ()
        kwargs = {'scale': 2.5} if case['extra'] else {}
        options = dict(delayed=case['delayed'], filters=filters,
                       selected_variables=select)
        depth = case['depth']
        if case['bag']:
            name, value = case['bag']
            options['partition_size' if name == 'size' else
                    'npartition' if depth is not None else
                    'npartitions'] = value
        before = w.place.snapshot(w.base)
        if not keys:
            # C07 covers empty selections.
            return
        func = informed if case['info'] else plain
        if depth is None:
            bag = w.col.map(func, *args, **options, **kwargs)
            depth = 0
        else:
            bag = w.col.map_overlap(func, *args, depth=depth, **options,
                                    **kwargs)
        result = bag.compute()
        assert [k for k, _ in result] == [w.labelled(k) for k in keys], \
            f'labels {[k for k, _ in result]}'
        for ix, key in enumerate(keys):
            around = keys[max(0, ix - depth):ix + depth + 1]
            got = result[ix][1]
            check_report(got, w.expected(around, select), w.dims,
                         case['delayed'], args, kwargs, f'{key}')
            if case['info'] and case['depth'] is not None:
                start = sum(w.size(k) for k in around if k < key)
                name, where = got['info']
                assert name == w.dim and range(10**6)[where] == range(
                    start, start + w.size(key)), f"info {got['info']}"
        assert w.place.snapshot(w.base) == before, 'storage changed'
        ctx.nt(len(keys) > 1)
        ctx.label('map' if case['depth'] is None else f'depth {depth}')
        if w.imm:
            ctx.label('immutable')


SUBS = [Sub('map', cases(), run, 50, 700)]
