"""C21: xarray, dictionaries and pickles preserve the dataset."""
import pickle

import cloudpickle
import dask
import dask.array
import numpy
import xarray
from hypothesis import strategies as st

from .. import env, gen, model
from ..core import Sub
from .c19 import ATTRS, SHAPES, M, build, check, data_for

RULE = ('A case is a dataset (0-4 variables over dimensions n, x, y in any '
        'order or none, any dtype, fill value, codecs, attributes, chunk '
        'settings, a variable possibly named like its dimension) held in '
        'memory and lazily with arbitrary chunks. part convert: pickle (all '
        'protocols, cloudpickle) gives a dataset with the same variables, '
        'types, dimensions, fill values, masks, codecs, attributes, chunk '
        'sizes and block limit; to_dict (all or some variables) gives the '
        'masked values of each variable; compute too; to_xarray gives '
        'variables with the same dimensions and attributes, missing exactly '
        'at the masked positions and equal elsewhere; back with from_xarray '
        '(in memory and lazy) the variables without fill value are '
        'identical. part xarray: an xarray dataset (NumPy or Dask arrays, '
        'coordinates, encoded codecs and fill values, attributes) converted '
        'with from_xarray, compared with the arrays it was made of. '
        'part group: to_zarr (in parallel or not) writes a group that, read '
        'back, holds the same variables. '
        'Non-trivial: at least two variables, or one with masked values.')
ASSUMPTIONS = ['dates and durations are representable in nanoseconds',
               'attribute names are not CF decoding directives',
               'identity through xarray is required of variables without '
               'fill value only: xarray decodes fill values']


@st.composite
def variable_list(draw, low=0):
    out = []
    for ix in range(draw(st.integers(low, 4))):
        var = draw(gen.variables(f'v{ix}', draw(st.sampled_from(
            SHAPES + [[]]))))
        var['attrs'] = draw(ATTRS)
        if len(var['dims']) == 1 and draw(st.integers(0, 3)) == 0 and \
                all(v['name'] != var['dims'][0] for v in out):
            var['name'] = var['dims'][0]
        out.append(var)
    return out


def sizes():
    return st.fixed_dictionaries(dict(n=st.integers(1, 6),
                                      x=st.integers(1, 3),
                                      y=st.integers(1, 2)))


@st.composite
def cases(draw):
    return dict(vars=draw(variable_list()), sizes=draw(sizes()),
                chunk=draw(st.integers(1, 4)), attrs=draw(ATTRS),
                chunks=draw(st.booleans()), pick=draw(st.integers(0, 15)),
                protocol=draw(st.integers(2, 5)))


def same_xarray(got, spec, arr, where):
    """got: xarray variable made from a raw array."""
    fill = model.decode_fill(spec['dtype'], spec.get('fill'))
    assert got.dims == tuple(spec['dims']), f'{where}: {got.dims}'
    attrs = {k: v for k, v in got.attrs.items() if k != '_FillValue'}
    assert attrs == (spec.get('attrs') or {}), f'{where}: {got.attrs}'
    data = got.values
    assert data.shape == arr.shape, f'{where}: {data.shape}'
    kind = arr.dtype.kind
    if fill is None:
        if kind not in 'mM':
            assert data.dtype == arr.dtype, f'{where}: {data.dtype}'
            assert data.tobytes() == arr.tobytes(), f'{where}: values'
        else:
            ok = (data == arr) | (numpy.isnat(data) & numpy.isnat(arr))
            assert data.dtype.kind == kind and ok.all(), f'{where}: values'
        return
    missing = arr == fill
    null = got.isnull().values
    if kind == 'f':
        # NaN that were there are missing too.
        assert (null == (missing | numpy.isnan(arr))).all(), \
            f'{where}: missing {null} expected {missing}'
    else:
        assert (null == missing).all(), \
            f'{where}: missing {null} expected {missing}'
    keep = ~null
    if kind in 'mM':
        assert (data[keep] == arr[keep]).all(), f'{where}: values'
    else:
        want = arr[keep].astype(data.dtype)
        assert (data[keep] == want).all(), f'{where}: values'


def same_values(got, spec, arr, where):
    """got: (masked) array of the values of a variable."""
    fill = model.decode_fill(spec['dtype'], spec.get('fill'))
    assert got.dtype == arr.dtype, f'{where}: {got.dtype}'
    assert got.shape == arr.shape, f'{where}: {got.shape}'
    if fill is None:
        assert not isinstance(got, numpy.ma.MaskedArray), where
        assert numpy.asarray(got).tobytes() == arr.tobytes(), where
        return False
    mask = numpy.ma.getmaskarray(got)
    want = arr == fill
    assert (mask == want).all(), f'{where}: mask {mask} expected {want}'
    raw = numpy.ma.getdata(got)
    assert raw[~mask].tobytes() == arr[~want].tobytes(), f'{where}: values'
    return bool(want.any())


def run(case, ctx):
    with dask.config.set(scheduler='synchronous'):
        convert(case, ctx)


def convert(case, ctx):
    from zcollection import dataset
    items = {}
    for vix, spec in enumerate(case['vars']):
        items[spec['name']] = [spec, data_for(spec, vix, case['sizes'], 0)]
    m = M(items, case['attrs'])
    masked = False
    for delayed in (False, True):
        where = f'lazy={delayed}'
        zds = build(m, delayed, case['chunk'], case['chunks'])
        for name, copy in (
                ('pickle', pickle.loads(pickle.dumps(
                    zds, protocol=case['protocol']))),
                ('cloudpickle', pickle.loads(cloudpickle.dumps(zds)))):
            check(copy, m, f'{where} {name}', delayed)
            assert copy.chunks == zds.chunks == (
                {'n': 3} if case['chunks'] else {}), f'{where} {name}: chunks'
            assert copy.dimensions == zds.dimensions, f'{where} {name}'
            assert copy.metadata() == zds.metadata(), f'{where} {name}'
            assert copy.delayed == zds.delayed, f'{where} {name}: delayed'
        names = [n for ix, n in enumerate(items) if case['pick'] >> ix & 1]
        for pick in (None, names or None, tuple(names) or None):
            got = zds.to_dict(pick)
            want = set(items) if pick is None else set(pick)
            assert set(got) == want, f'{where} to_dict: {set(got)}'
            for name, data in got.items():
                masked |= same_values(data, *items[name],
                                      f'{where} to_dict {name}')
        for name, var in zds.variables.items():
            same_values(var.compute(), *items[name],
                        f'{where} compute {name}')
            same_values(var.values, *items[name], f'{where} values {name}')
            same_values(var.data.compute(), *items[name],
                        f'{where} data {name}')
        got = zds.to_xarray()
        assert dict(got.attrs) == m.attrs, f'{where} to_xarray: {got.attrs}'
        assert set(got.variables) == set(items), f'{where} to_xarray'
        for name, (spec, arr) in items.items():
            same_xarray(got.variables[name], spec, arr,
                        f'{where} to_xarray {name}')
        check(zds, m, f'{where} after the conversions', delayed)
        plain = {n: v for n, v in items.items() if v[0].get('fill') is None}
        for lazy in (False, True):
            if not plain:
                continue
            sub = dataset.Dataset.from_xarray(
                got.drop_vars([n for n in items if n not in plain]),
                delayed=lazy)
            assert sub.delayed is lazy
            assert set(sub.variables) == set(plain), 'from_xarray'
            expect = {}
            for name, (spec, arr) in plain.items():
                if arr.dtype.kind in 'mM':
                    arr = arr.astype(f'{arr.dtype.kind}8[ns]')
                    spec = dict(spec, dtype=str(arr.dtype))
                    seen = sub[name].values
                    if seen.dtype != arr.dtype:
                        spec = dict(spec, dtype=str(seen.dtype))
                        arr = arr.astype(seen.dtype)
                expect[name] = [spec, arr]
            sub.block_size_limit = 2**20
            check(sub, M(expect, m.attrs), f'{where} back lazy={lazy}', lazy)
    ctx.nt(masked or len(items) > 1)
    ctx.label('masked' if masked else 'not masked')


# -- datasets made by xarray ------------------------------------------------


@st.composite
def xr_cases(draw):
    return dict(vars=draw(variable_list(1)), sizes=draw(sizes()),
                chunk=draw(st.sampled_from([None, None, 1, 2, 3])),
                attrs=draw(ATTRS), coords=draw(st.integers(0, 15)))


def run_xr(case, ctx):
    from zcollection import dataset
    with dask.config.set(scheduler='synchronous'):
        items = {}
        variables = {}
        for vix, spec in enumerate(case['vars']):
            arr = data_for(spec, vix, case['sizes'], 0)
            if arr.dtype.kind in 'mM':
                # The only unit of xarray.
                arr = arr.astype(f'{arr.dtype.kind}8[ns]')
                spec = dict(spec, dtype=str(arr.dtype))
            items[spec['name']] = [spec, arr]
            encoding = {}
            if spec.get('comp'):
                encoding['compressor'] = model.compressor(spec['comp'])
            if spec.get('filt'):
                encoding['filters'] = model.filters(spec['filt'],
                                                    spec['dtype'])
            if spec.get('fill') is not None:
                encoding['_FillValue'] = gen.fill_of(spec)
            data = arr if case['chunk'] is None else dask.array.from_array(
                arr, chunks=case['chunk'])
            variables[spec['name']] = xarray.Variable(
                spec['dims'], data, attrs=spec['attrs'], encoding=encoding)
        coords = [n for ix, n in enumerate(items) if case['coords'] >> ix & 1]
        xds = xarray.Dataset(variables, attrs=case['attrs']).set_coords(
            coords)
        m = M(items, case['attrs'])
        for lazy in (False, True):
            zds = dataset.Dataset.from_xarray(xds, delayed=lazy)
            zds.block_size_limit = 2**20
            check(zds, m, f'from_xarray lazy={lazy}', lazy)
        for spec, arr in items.values():
            same = xds.variables[spec['name']].values
            assert same.tobytes() == arr.tobytes(), 'source changed'
        ctx.nt(len(items) > 1)
        ctx.label('dask' if case['chunk'] else 'numpy')


# -- datasets written to a Zarr group ----------------------------------------


def run_group(case, ctx):
    from zcollection import storage
    if not case['vars']:
        return
    sizes_ = {k: max(v, 1) for k, v in case['sizes'].items()}
    items = {}
    for vix, spec in enumerate(case['vars']):
        items[spec['name']] = [spec, data_for(spec, vix, sizes_, 0)]
    m = M(items, case['attrs'])
    env.client()
    with env.Place(case['fs']) as place:
        zds = build(m, True, case['chunk'], case['chunks'])
        with place.fs.open(place.path('near'), 'wb') as stream:
            stream.write(b'near')
        zds.to_zarr(place.path('group'), place.fs, parallel=case['parallel'])
        check(zds, m, 'after to_zarr', True)
        assert place.fs.cat_file(place.path('near')) == b'near'
        # Zarr does not compress scalars.
        back = M({n: [spec if spec['dims'] else dict(spec, comp=None), arr]
                  for n, (spec, arr) in items.items()}, case['attrs'])
        for lazy in (False, True):
            got = storage.open_zarr_group(place.path('group'), place.fs,
                                          delayed=lazy)
            got.block_size_limit = 2**20
            check(got, back, f'to_zarr lazy={lazy}', lazy)
    ctx.nt(len(items) > 1)
    ctx.label('parallel' if case['parallel'] else 'sequential', case['fs'])


@st.composite
def group_cases(draw):
    return dict(draw(cases()), parallel=draw(st.booleans()),
                fs=draw(st.sampled_from(['memory', 'local'])))


SUBS = [Sub('group', group_cases(), run_group, 25, 400),
        Sub('convert', cases(), run, 250, 6000),
        Sub('xarray', xr_cases(), run_xr, 150, 4000)]
