"""C20: fill values and masks are interpreted consistently everywhere."""
import pickle

import dask
import dask.array
import numpy
from hypothesis import strategies as st

from .. import env, gen, model
from ..core import Sub

RULE = ('A case is a variable (any dtype, 1-3 dimensions, none to all values '
        'equal to the fill value, fill value zero, one, negative, extreme, '
        'NaN, NaT, or none, given as Python or NumPy scalar), in memory or '
        'lazy. variable: values, data, compute, numpy conversion, items '
        '(integers, slices, masks), isel, duplicate, pickle, persist, then '
        'assignments of plain and masked arrays (with anything under the '
        'mask), fill, and refused assignments; each time the raw array is '
        'the expected one and the mask is exactly "equal to the fill value". '
        'stored: the same variable written, opened lazily and eagerly, '
        'overwritten by masked, plain and dask arrays. Non-trivial: the '
        'variable has a fill value and masks some but not all values.')
ASSUMPTIONS = ['a NaN (or NaT) fill value masks nothing, as NaN is not equal '
               'to itself',
               'a masked array is written over a stored variable having a '
               'fill value']


@st.composite
def specs(draw):
    var = draw(gen.variables('v', draw(st.sampled_from(
        [['n'], ['n', 'x'], ['x', 'n', 'y']])), codecs=False))
    if var['fill'] is not None and numpy.dtype(var['dtype']).kind in 'fmM' \
            and draw(st.integers(0, 5)) == 0:
        var['fill'] = 'nan' if numpy.dtype(var['dtype']).kind == 'f' else \
            'NaT'
    return var


@st.composite
def cases(draw):
    return dict(var=draw(specs()),
                sizes=dict(n=draw(st.integers(1, 6)),
                           x=draw(st.integers(1, 3)),
                           y=draw(st.integers(1, 2))),
                chunk=draw(st.integers(1, 4)),
                delayed=draw(st.booleans()),
                index=draw(st.lists(st.one_of(
                    st.integers(0, 5),
                    st.tuples(st.integers(-4, 4), st.integers(-4, 6),
                              st.sampled_from([1, 1, 2, 3])).map(list)),
                    min_size=1, max_size=3)),
                ops=draw(st.lists(st.tuples(
                    st.sampled_from(['plain', 'masked', 'masked', 'dask',
                                     'fill', 'persist', 'pickle',
                                     'duplicate', 'bad fill', 'bad ndim']),
                    st.integers(0, 2**16)).map(list),
                    min_size=1, max_size=4)))


def fill_value(var):
    if var.get('fill') in ('nan', 'NaT'):
        dtype = numpy.dtype(var['dtype'])
        return dtype.type('nan') if dtype.kind == 'f' else numpy.array(
            'NaT', dtype)[()]
    return model.decode_fill(var['dtype'], var.get('fill'))


def given(var, fill):
    if fill is not None and var.get('pyfill') and numpy.dtype(
            var['dtype']).kind in 'iufb':
        return fill.item()
    return fill


def raw_values(case, seed):
    var = dict(case['var'])
    if var.get('fill') in ('nan', 'NaT'):
        var = dict(var, fill=None)
    sizes = case['sizes']
    shape = [sizes[d] for d in var['dims']]
    arr = numpy.ascontiguousarray(model.values_for(
        var, 1, numpy.arange(shape[0]) + seed * 37, tuple(shape[1:])))
    if case['var'].get('fill') in ('nan', 'NaT'):
        arr.reshape(-1)[::2] = fill_value(case['var'])
    return arr


def expect(values, raw, fill, where):
    """values is what reading gives, raw the underlying data."""
    if isinstance(values, dask.array.Array):
        values = values.compute()
    want = numpy.zeros(raw.shape, bool) if fill is None else raw == fill
    mask = numpy.ma.getmaskarray(values)
    assert mask.shape == want.shape and numpy.array_equal(mask, want), \
        f'{where}: mask {mask.tolist()} expected {want.tolist()}'
    if raw.ndim == 0 and bool(want):
        return  # the "masked" constant, whatever its type
    data = numpy.asarray(numpy.ma.getdata(values))
    assert data.dtype == raw.dtype, f'{where}: {data.dtype} not {raw.dtype}'
    assert model.same(data[~want], raw[~want]), \
        f'{where}: {data.tolist()} expected {raw.tolist()}'


def look(var, raw, fill, where, key=None):
    got = var.array
    if isinstance(got, dask.array.Array):
        got = got.compute()
    # Under a mask the array may hold a masked array: same raw content.
    if isinstance(got, numpy.ma.MaskedArray):
        got = got.data
    assert model.same(got, raw), \
        f'{where}: array {got.tolist()} expected {raw.tolist()}'
    if fill is None:
        assert var.fill_value is None, f'{where}: {var.fill_value!r}'
    expect(var.values, raw, fill, f'{where} values')
    expect(var.data, raw, fill, f'{where} data')
    expect(var.compute(), raw, fill, f'{where} compute')
    got = numpy.ma.asanyarray(var.__array__())
    expect(got, raw, fill, f'{where} __array__')
    expect(var[...], raw, fill, f'{where} [...]')
    if key is not None:
        expect(var[key], raw[key], fill, f'{where} [{key}]')
        if all(isinstance(k, slice) for k in key):
            sub = var.isel(key)
            expect(sub.values, raw[key], fill, f'{where} isel')
    one = raw == raw.reshape(-1)[0]
    if one.ndim == 1:
        expect(var[one], raw[one], fill, f'{where} mask index')


def make(case, raw, fill):
    from zcollection import dataset
    var = case['var']
    kwargs = dict(fill_value=given(var, fill))
    if case['delayed']:
        return dataset.DelayedArray(
            'v', dask.array.from_array(raw.copy(), chunks=tuple(
                min(case['chunk'], s) for s in raw.shape)),
            var['dims'], **kwargs)
    return dataset.Array('v', raw.copy(), var['dims'], **kwargs)


def masked_of(raw, bits, fill):
    """Masked array with its data, and what is to be stored."""
    mask = (numpy.arange(raw.size) * 7 + bits) % 5 < bits % 4
    mask = mask.reshape(raw.shape)
    arr = numpy.ma.array(raw.copy(), mask=mask, fill_value=fill)
    want = raw.copy()
    want[mask] = arr.fill_value
    return arr, want


def run(case, ctx):
    with dask.config.set(scheduler='synchronous'):
        body(case, ctx)


def body(case, ctx):
    fill = fill_value(case['var'])
    raw = raw_values(case, 0)
    key = tuple(k % s if isinstance(k, int) else slice(*k)
                for k, s in zip(case['index'], raw.shape))
    var = make(case, raw, fill)
    look(var, raw, fill, 'created', key)
    if fill is not None and (raw == fill).any() and not (raw == fill).all():
        ctx.nt()
    for step, (op, bits) in enumerate(case['ops']):
        where = f'step {step} {op}'
        other = raw_values(case, step + 1)
        before = fill
        if op == 'plain':
            var.values = other
            raw = other
        elif op == 'dask':
            var.values = dask.array.from_array(other, chunks=2) \
                if case['delayed'] else other
            raw = other
        elif op in ('masked', 'duplicate'):
            # Without fill value, the variable adopts the one of the array.
            if fill is None:
                fill = numpy.array(bits % 2, 'int8').astype(raw.dtype)[()] \
                    if raw.dtype.kind not in 'mM' else numpy.array(
                        bits % 2, 'int64').view(raw.dtype)[()]
            arr, want = masked_of(other, bits, fill)
            if case['delayed'] and bits % 2:
                arr = dask.array.from_array(arr, chunks=2)
            if op == 'masked':
                var.values = arr
            else:
                old = var
                var = var.duplicate(arr)
                look(old, raw, before, f'{where} operand')
            raw = want
        elif op == 'fill':
            assert var.fill() is var
            if fill is not None:
                raw = numpy.full_like(raw, fill)
        elif op == 'persist':
            assert var.persist() is var
        elif op == 'pickle':
            var = pickle.loads(pickle.dumps(var))
        elif op == 'bad fill':
            if fill is None or fill != fill or raw.dtype.kind == 'b':
                continue
            arr = numpy.ma.array(other, mask=False)
            seven, eight = numpy.array([7, 8], 'int64').astype(arr.dtype) \
                if arr.dtype.kind not in 'mM' else numpy.array(
                    [7, 8], 'int64').view(arr.dtype)
            arr.fill_value = seven if fill != seven else eight
            if arr.dtype.kind == 'f' and bits % 2:
                # The nearest other value is not the fill value either.
                arr.fill_value = numpy.nextafter(arr.dtype.type(fill),
                                                  arr.fill_value)
            for func in (lambda: setattr(var, 'values', arr),
                         lambda: var.duplicate(arr)):
                try:
                    func()
                except ValueError:
                    pass
                else:
                    raise AssertionError(f'{where}: accepted')
        elif op == 'bad ndim':
            for bad in (other[None], other[0]):
                for func in (lambda: setattr(var, 'values', bad),
                             lambda: var.duplicate(bad)):
                    try:
                        func()
                    except ValueError:
                        pass
                    else:
                        raise AssertionError(f'{where}: accepted')
        ctx.label(op)
        look(var, raw, fill, where, key)
        meta = var.metadata()
        assert meta.dtype == raw.dtype and meta.dimensions == tuple(
            case['var']['dims'])


@st.composite
def stored_cases(draw):
    case = draw(cases())
    case['fs'] = draw(st.sampled_from(['memory', 'local']))
    case['zchunk'] = draw(st.integers(1, 4))
    case['ops'] = draw(st.lists(st.tuples(
        st.sampled_from(['plain', 'masked', 'masked', 'dask', 'dask masked']),
        st.integers(0, 2**16)).map(list), max_size=3))
    return case


def run_stored(case, ctx):
    with dask.config.set(scheduler='synchronous'):
        stored(case, ctx)


def stored(case, ctx):
    from zcollection import dataset, storage, sync
    fill = fill_value(case['var'])
    raw = raw_values(case, 0)
    with env.Place(case['fs']) as place:
        path = place.path('zds')
        var = make(case, raw, fill)
        zds = dataset.Dataset([var], chunks=[
            dataset.Dimension('n', case['zchunk'])])
        storage.write_zarr_group(zds, path, place.fs, sync.NoSync(),
                                 distributed=False)

        def reload(where):
            for delayed in (True, False):
                got = storage.open_zarr_group(path, place.fs, delayed=delayed)
                look(got.variables['v'], raw, fill, f'{where} lazy={delayed}')

        reload('written')
        for step, (op, bits) in enumerate(case['ops']):
            other = raw_values(case, step + 1)
            if 'masked' in op:
                if fill is None:
                    continue
                # The fill value of the mask itself does not matter.
                arr, _ = masked_of(other, bits, None)
                raw = other.copy()
                raw[numpy.ma.getmaskarray(arr)] = fill
                if op == 'dask masked':
                    arr = dask.array.from_array(arr, chunks=2)
            else:
                raw = other
                arr = dask.array.from_array(other, chunks=2) \
                    if op == 'dask' else other
            storage.update_zarr_array(path + '/v', arr, place.fs)
            reload(f'step {step} {op}')
            ctx.label(op)
    ctx.nt(fill is not None and bool((raw == fill).any()) and
           not (raw == fill).all())


SUBS = [Sub('variable', cases(), run, 900, 20000),
        Sub('stored', stored_cases(), run_stored, 350, 8000)]
