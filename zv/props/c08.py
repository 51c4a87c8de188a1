"""C08: update applies the function to each selected partition, nothing else."""
import copy

import dask.array
import numpy
from hypothesis import strategies as st

from .. import gen, model
from ..core import Sub
from ..world import World

RULE = ('A case is a collection, a subset of its partitions, an overlap depth '
        '0-3 with or without trimming, and an update function that rewrites '
        '1-2 variables from the records it receives (values depending on '
        'neighbouring records and on the number of records received), '
        'returning numpy, masked or dask arrays, with or without '
        'partition_info, selected variables, named variables and extra '
        'arguments. The expected content is computed on plain arrays; files '
        'of the variables and partitions not concerned must keep their bytes. '
        'refused: functions returning unknown variables. Non-trivial: at '
        'least two partitions selected or some not selected.')
ASSUMPTIONS = ['functions return arrays of the shape of the variable',
               'one in-process Dask worker with one thread']


@st.composite
def cases(draw):
    schema = draw(gen.schemas(max_vars=3, min_vars=1,
                              immutable=draw(st.sampled_from(
                                  [False, False, True]))))
    return dict(schema=schema,
                batch=draw(gen.batches(max_parts=5, max_part=6, max_rows=4)),
                mask=draw(st.one_of(st.none(), st.integers(0, 63))),
                depth=draw(st.sampled_from([0, 0, 1, 1, 2, 3])),
                trim=draw(st.booleans()),
                info=draw(st.booleans()),
                targets=draw(st.lists(st.integers(0, 4), min_size=1,
                                      max_size=2, unique=True)),
                source=draw(st.sampled_from(['self', 'time'])),
                kind=draw(st.sampled_from(['numpy', 'masked', 'dask', 'dask masked'])),
                delayed=draw(st.booleans()),
                select=draw(st.sampled_from(['none', 'self', 'time'])),
                named=draw(st.booleans()),
                extra=draw(st.booleans()),
                np=draw(st.sampled_from([None, 1, 2, 3])))


def new_values(var, dims, dim, sizes, time, own, shift):
    """What the function computes for one variable (raw), all records seen."""
    axis = dims.index(dim)
    n = len(time)
    if own is not None:
        out = numpy.roll(own, 1, axis)
        return out
    code = numpy.roll(time.view('int64') // 3, 1) + n * 5 + shift
    shape = [1] * len(dims)
    shape[axis] = n
    full = [n if d == dim else sizes[d] for d in dims]
    dtype = numpy.dtype(var['dtype'])
    code = numpy.broadcast_to((code % 97).reshape(shape), full)
    if dtype.kind == 'b':
        return code % 2 == 0
    if dtype.kind in 'mM':
        return code.astype('int64').view(dtype)
    return code.astype(dtype)


def raw(array):
    if hasattr(array, 'compute'):
        array = array.compute()
    return numpy.asarray(array)


def masked_of(arr, fill):
    """Positions the function masks: one out of three, whatever the value."""
    pos = numpy.arange(arr.size).reshape(arr.shape) % 3 == 1
    return pos


def run(case, ctx):
    with World(case['schema'], case['batch'], delayed=case['delayed']) as w:
        keys = w.keys if case['mask'] is None else w.pick(case['mask'])
        if not keys:
            keys = w.keys[:1]
        variables = [v for v in w.schema['vars'] if w.dim in v['dims']]
        targets = sorted({ix % len(variables) for ix in case['targets']})
        targets = [variables[ix] for ix in targets]
        names = [v['name'] for v in targets]
        sizes, dim, dims, fills = (w.schema['extra'], w.dim, w.dims, w.fills)
        axis = w.schema['axis']
        trim = case['trim'] or case['depth'] == 0 or not case['info']
        # With an overlap, partitions are updated one after the other: a
        # function that reads what it writes sees neighbours already updated
        # (known finding).
        own = case['source'] == 'self' and case['depth'] == 0
        kind = case['kind']
        masking = kind in ('masked', 'dask masked')

        def compute(get, n_time, shift):
            out = {}
            for var in targets:
                name = var['name']
                out[name] = new_values(var, dims[name], dim, sizes, n_time,
                                       get(name) if own else None, shift)
            return out

        def wrap(out, indices):
            res = {}
            for name, arr in out.items():
                if indices is not None and not trim:
                    arr = model.take(arr, dims[name], dim, indices)
                if masking and fills[name] is not None:
                    arr = numpy.ma.array(arr, mask=masked_of(arr, None))
                if kind.startswith('dask'):
                    arr = dask.array.from_array(arr, chunks=2)
                res[name] = arr
            return res

        def func(zds, shift=0, scale=1, partition_info=None):
            if not case['info'] and partition_info is not None:
                raise AssertionError('unexpected partition_info')
            out = compute(lambda name: raw(zds[name].array),
                          raw(zds[axis].array), shift * scale)
            return wrap(out, partition_info[1] if partition_info else None)

        if not case['info']:

            def func(zds, shift=0, scale=1):  # noqa: F811
                out = compute(lambda name: raw(zds[name].array),
                              raw(zds[axis].array), shift * scale)
                return wrap(out, None)

        args = (7, ) if case['extra'] else ()
        kwargs = {'scale': 2} if case['extra'] else {}
        selected = {
            'none': None,
            'self': [axis] + names,
            'time': [axis] + (names if own else []),
        }[case['select']]
        given = copy.deepcopy(selected)
        before = w.place.snapshot(w.base)
        w.col.update(func, *args, delayed=case['delayed'],
                     depth=case['depth'],
                     filters=None if case['mask'] is None and len(keys) ==
                     len(w.keys) else w.only(keys),
                     npartitions=case['np'], selected_variables=given,
                     trim=trim, variables=names if case['named'] else None,
                     **kwargs)
        assert given == selected, f'selected_variables became {given}'
        shift = 14 if case['extra'] else 0
        result = {}
        for ix, key in enumerate(keys):
            around = keys[max(0, ix - case['depth']):ix + case['depth'] + 1]
            seen = model.content(w.schema, w.parts, around)
            out = compute(lambda name: seen[name], seen[axis], shift)
            start = sum(w.size(k) for k in around if k < key)
            where = slice(start, start + w.size(key))
            result[key] = dict(w.parts[key])
            for name, arr in out.items():
                fill = fills[name]
                if masking and fill is not None:
                    # masked before trimming when the library trims
                    if trim:
                        arr = numpy.where(masked_of(arr, None), fill,
                                          arr).astype(arr.dtype)
                        arr = model.take(arr, dims[name], dim, where)
                    else:
                        arr = model.take(arr, dims[name], dim, where)
                        arr = numpy.where(masked_of(arr, None), fill,
                                          arr).astype(arr.dtype)
                else:
                    arr = model.take(arr, dims[name], dim, where)
                result[key][name] = arr
        w.parts.update(result)
        w.check('updated', lazy=True, each=len(keys) < 3)
        # Nothing else was touched.
        after = w.place.snapshot(w.base)
        allowed = tuple(f'/{model.key_dir(w.part, k)}/{name}/' for k in keys
                        for name in names)
        for path in set(before) | set(after):
            if not path.startswith(allowed):
                assert before.get(path) == after.get(path), \
                    f'{path} was modified'
        ctx.nt(len(keys) > 1 or len(keys) < len(w.keys))
        ctx.label(f"depth {case['depth']}", kind)
        if len(keys) < len(w.keys):
            ctx.label('subset')


@st.composite
def refused_cases(draw):
    schema = draw(gen.schemas(max_vars=2, min_vars=1, codecs=False))
    return dict(schema=schema,
                batch=draw(gen.batches(max_parts=3, max_part=4, max_rows=2)),
                also=draw(st.booleans()),
                depth=draw(st.integers(0, 1)),
                delayed=draw(st.booleans()),
                what=draw(st.sampled_from(['unknown', 'named', 'notcallable',
                                           'depth'])))


def run_refused(case, ctx):
    with World(case['schema'], case['batch']) as w:
        name = w.schema['vars'][0]['name']
        before = w.place.snapshot(w.base)

        def func(zds):
            out = {'nope': numpy.zeros(3)}
            if case['also']:
                out[name] = numpy.zeros_like(raw(zds[name].array))
            return out

        def good(zds):
            return {name: numpy.zeros_like(raw(zds[name].array))}

        try:
            if case['what'] == 'unknown':
                w.col.update(func, depth=case['depth'],
                             delayed=case['delayed'])
            elif case['what'] == 'named':
                w.col.update(good, variables=['nope'], depth=case['depth'],
                             delayed=case['delayed'])
            elif case['what'] == 'depth':
                w.col.update(good, variables=[name], depth=-1,
                             delayed=case['delayed'])
            else:
                w.col.update({name: 1})
        except (ValueError, TypeError):
            pass
        else:
            assert False, f"{case['what']} accepted"
        assert w.place.snapshot(w.base) == before, 'storage changed'
        ctx.nt()
        ctx.label(case['what'])


SUBS = [
    Sub('update', cases(), run, 30, 450),
    Sub('refused', refused_cases(), run_refused, 6, 60),
]
