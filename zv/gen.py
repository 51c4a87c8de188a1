"""Hypothesis strategies producing JSON cases, and builders of real objects."""
from __future__ import annotations

import dask.array
import numpy
from hypothesis import strategies as st

from . import env, model

# --------------------------------------------------------------------------
# strategies

INTS = ('int8', 'int16', 'int32', 'int64', 'uint8', 'uint16', 'uint32')
FLOATS = ('float32', 'float64')
OTHERS = ('uint64', 'float16', 'complex64', 'complex128', 'S4', 'U5')


@st.composite
def fill_values(draw, dtype: str):
    kind = numpy.dtype(dtype).kind
    if kind == 'b':
        return draw(st.sampled_from([None, False, True]))
    if kind in 'iu':
        info = numpy.iinfo(dtype)
        return draw(
            st.sampled_from([
                None, 0, 1, int(info.max), int(info.min) if kind == 'i' else 5,
                100
            ]))
    if kind == 'f':
        return draw(st.sampled_from([None, 0.0, -1.0, 9999.0,
                                     1e30 if dtype != 'float16' else 1e4,
                                     0.5]))
    if kind == 'c':
        return draw(st.sampled_from([None, 0, 1.5]))
    if kind in 'SU':
        return draw(st.sampled_from([None, '', 'r3', 'none']))
    return draw(st.sampled_from([None, 0, 1, 2**40]))


@st.composite
def variables(draw, name: str, dims, dtypes=None, codecs=True):
    dtype = draw(
        st.sampled_from(dtypes or (INTS + FLOATS + FLOATS +
                                   ('bool', 'M8[ns]', 'm8[s]', 'M8[ms]'))))
    var = dict(name=name, dtype=dtype, dims=list(dims))
    var['fill'] = draw(fill_values(dtype))
    if var['fill'] is not None:
        var['pyfill'] = draw(st.booleans())
        var['mask'] = draw(st.sampled_from([0, 1, 2, 3, 5]))
    kind = numpy.dtype(dtype).kind
    if kind == 'f':
        var['special'] = draw(st.booleans())
    if codecs:
        var['comp'] = draw(
            st.sampled_from([None, None, 'zlib', 'zstd', 'blosc', 'lz4', 'bz2']))
        if kind in 'iu':
            var['filt'] = draw(st.sampled_from([[], [], ['delta'],
                                                ['shuffle']]))
        elif kind == 'f':
            var['filt'] = draw(st.sampled_from([[], [], ['shuffle']]))
    return var


@st.composite
def partitionings(draw, kinds=('date', 'seq'), resolutions=model.RES):
    kind = draw(st.sampled_from(kinds))
    if kind == 'date':
        return dict(kind='date',
                    res=draw(st.sampled_from(resolutions)),
                    base=draw(
                        st.sampled_from([
                            '1999-11-28T22:58:58', '2000-02-27T22:59:59',
                            '2012-12-30T23:58:57', '1969-10-30T21:59:58',
                            '2022-09-08T00:00:00'
                        ])))
    n = draw(st.integers(1, 3))
    names = ['cycle', 'pass_number', 'seg'][:n]
    return dict(kind='seq',
                vars=names,
                radix=draw(st.sampled_from([2, 3, 4])),
                low=draw(st.sampled_from([0, 1, 8, 98])))


@st.composite
def schemas(draw,
            kinds=('date', 'seq'),
            resolutions=model.RES,
            max_vars=3,
            min_vars=0,
            immutable=False,
            dtypes=None,
            codecs=True,
            fs=('memory', 'memory', 'local'),
            dims=('num_lines', 'time', 'x'),
            units=('ns', 'ns', 'us', 'ms', 's')):
    dim = draw(st.sampled_from(dims))
    axis = 'time'
    extra = dict(nx=draw(st.integers(1, 3)), ny=draw(st.integers(1, 2)))
    shapes = [[dim], [dim, 'nx'], ['nx', dim], [dim, 'nx', 'ny'],
              ['ny', dim, 'nx']]
    count = draw(st.integers(min_vars, max_vars))
    varlist = [
        draw(
            variables(f'var{ix}',
                      draw(st.sampled_from(shapes)),
                      dtypes=dtypes,
                      codecs=codecs)) for ix in range(count)
    ]
    if immutable:
        for ix in range(draw(st.integers(1, 2))):
            varlist.append(
                draw(
                    variables(f'imm{ix}',
                              draw(
                                  st.sampled_from([['nx'], ['nx', 'ny'],
                                                   ['ny'], []])),
                              dtypes=dtypes,
                              codecs=codecs)))
    used = {d for var in varlist for d in var['dims']}
    extra = {k: v for k, v in extra.items() if k in used}
    chunks = {}
    for name in sorted({dim} | set(extra)):
        if draw(st.booleans()):
            chunks[name] = draw(st.sampled_from([1, 2, 3, 4, 1, 2, 3, 4, -1,
                                                 'auto']))
    block = draw(st.sampled_from([None, 16, 100])) if 'auto' in \
        chunks.values() else None
    return dict(axis=axis,
                dim=dim,
                unit=draw(st.sampled_from(units)),
                part=draw(partitionings(kinds, resolutions)),
                vars=varlist,
                extra=extra,
                chunks=chunks,
                block=block,
                fs=draw(st.sampled_from(fs)))


@st.composite
def batches(draw,
            max_parts=5,
            max_part=7,
            max_rows=4,
            rid0=0,
            span=40,
            min_parts=1):
    """Records over distinct partitions, in order."""
    parts = sorted(
        draw(
            st.sets(st.integers(0, max_part),
                    min_size=min_parts,
                    max_size=max_parts)))
    out = []
    rid = rid0
    for p in parts:
        offsets = draw(
            st.lists(st.integers(-3, span), min_size=1, max_size=max_rows))
        out.append([p, offsets, rid])
        rid += len(offsets)
    return out


def rows(batch) -> int:
    return sum(len(item[1]) for item in batch)


# --------------------------------------------------------------------------
# builders


def partitioning(part: dict):
    from zcollection import partitioning as zp
    if part['kind'] == 'date':
        return zp.Date(('time', ), part['res'])
    return zp.Sequence(tuple(part['vars']), part.get('dtype'))


def fill_of(var: dict):
    """Fill value as given to the code: NumPy or Python scalar."""
    fill = model.decode_fill(var['dtype'], var.get('fill'))
    if var.get('pyfill') and numpy.dtype(var['dtype']).kind in 'iufb':
        return fill.item()
    return fill


def _attrs(items):
    from zcollection import dataset
    return tuple(dataset.Attribute(k, v) for k, v in (items or {}).items())


def variable(var: dict, data, delayed: bool, chunk=None):
    from zcollection import dataset
    kwargs = dict(attrs=_attrs(var.get('attrs')),
                  compressor=model.compressor(var.get('comp')),
                  fill_value=fill_of(var),
                  filters=model.filters(var.get('filt'), var['dtype']))
    if delayed:
        chunks = tuple(min(chunk or 2**30, max(s, 1)) for s in data.shape)
        return dataset.DelayedArray(
            var['name'], dask.array.from_array(data, chunks=chunks),
            tuple(var['dims']), **kwargs)
    return dataset.Array(var['name'], data, tuple(var['dims']), **kwargs)


def plain_var(schema: dict, name: str, arr) -> dict:
    return dict(name=name, dtype=str(arr.dtype), dims=[schema['dim']])


def build(schema: dict,
          data: dict,
          delayed: bool = False,
          chunk=None,
          skip=(),
          attrs=None,
          with_chunks=True):
    """zcollection.Dataset of the raw arrays."""
    from zcollection import dataset
    specs = {var['name']: var for var in schema['vars']}
    variables_ = []
    for name, arr in data.items():
        if name in skip:
            continue
        spec = specs.get(name) or plain_var(schema, name, arr)
        variables_.append(variable(spec, arr, delayed, chunk))
    return dataset.Dataset(
        variables_,
        attrs=_attrs(attrs),
        chunks=[
            dataset.Dimension(k, v) for k, v in schema['chunks'].items()
        ] if with_chunks and schema['chunks'] else None,
        block_size_limit=schema.get('block') if with_chunks else None,
        delayed=delayed)


def meta_variable(var: dict):
    from zcollection import meta
    return meta.Variable(
        var['name'],
        numpy.dtype(var['dtype']),
        dimensions=tuple(var['dims']),
        attrs=_attrs(var.get('attrs')),
        compressor=model.compressor(var.get('comp')),
        fill_value=fill_of(var),
        filters=model.filters(var.get('filt'), var['dtype']))


def create(schema: dict, zds, place: env.Place, name='col', **kwargs):
    import zcollection
    env.client()
    return zcollection.create_collection(schema['axis'],
                                         zds,
                                         partitioning(schema['part']),
                                         place.path(name),
                                         filesystem=place.fs,
                                         **kwargs)
