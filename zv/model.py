"""Reference model: datasets as plain numpy arrays, collections as a dict."""
from __future__ import annotations

import numpy
import numcodecs
import dask.array

UNITS = ('year', 'month', 'day', 'hour', 'minute', 'second')
RES = ('Y', 'M', 'D', 'h', 'm', 's')

# --------------------------------------------------------------------------
# values


def decode_fill(dtype: str, fill):
    """JSON fill value -> numpy scalar (None stays None)."""
    if fill is None:
        return None
    kind = numpy.dtype(dtype)
    if kind.kind in 'mM':
        return numpy.array(fill, 'int64').view(kind)[()] if isinstance(
            fill, int) else kind.type(fill)
    if kind.kind in 'SU':
        return numpy.array(fill).astype(kind)[()]
    return kind.type(fill)


def values_for(var: dict, vix: int, rids, shape_rest) -> numpy.ndarray:
    """Deterministic raw values, one row per record id, axis 0 = records."""
    dtype = numpy.dtype(var['dtype'])
    size = int(numpy.prod(shape_rest)) if shape_rest else 1
    rid = numpy.asarray(rids, 'int64').reshape(-1, 1)
    j = numpy.arange(size, dtype='int64').reshape(1, -1)
    code = rid * 131 + vix * 17 + j * 7 + 3
    if dtype.kind == 'f':
        out = (rid * 8 + j * 0.25 + vix * 1000 - 5).astype(dtype)
        if var.get('special'):
            out = numpy.where((rid + j) % 5 == 2, numpy.nan, out)
            out = numpy.where((rid + j) % 7 == 3, numpy.inf, out)
            out = numpy.where((rid + j) % 11 == 4, -0.0, out).astype(dtype)
    elif dtype.kind == 'c':
        out = (rid * 8 + j * 0.25 + vix * 1j).astype(dtype)
    elif dtype.kind in 'SU':
        out = numpy.char.add('r', (code % 100).astype('U2')).astype(dtype)
    elif dtype.kind == 'b':
        out = (code // 3) % 2 == 0
    elif dtype.kind in 'mM':
        out = (code * 1009).view(dtype)
    elif dtype.kind == 'u':
        info = numpy.iinfo(dtype)
        out = (code % min(int(info.max) + 1, 2**40)).astype(dtype)
    else:
        info = numpy.iinfo(dtype)
        span = min(int(info.max), 2**40)
        out = (code % (2 * span + 1) - span).astype(dtype)
    fill = decode_fill(var['dtype'], var.get('fill'))
    if fill is not None:
        mod = var.get('mask', 0)
        if mod:
            out = numpy.where((rid + j + vix) % mod == 0, fill,
                              out).astype(dtype)
    return out.reshape((len(rids), ) + tuple(shape_rest))


def raw(var: dict, vix: int, rids, dim: str, extra: dict) -> numpy.ndarray:
    """Raw array of a variable with its dimensions in the declared order."""
    rest = [d for d in var['dims'] if d != dim]
    arr = values_for(var, vix, rids, tuple(extra[d] for d in rest))
    return numpy.ascontiguousarray(
        numpy.moveaxis(arr, 0, var['dims'].index(dim)))


def constant(var: dict, vix: int, version: int, extra: dict) -> numpy.ndarray:
    """Raw array of a variable without the partitioned dimension."""
    shape = tuple(extra[d] for d in var['dims'])
    arr = values_for(var, vix, [version], shape)
    return numpy.ascontiguousarray(arr[0])


# --------------------------------------------------------------------------
# codecs


def compressor(name):
    if name == 'fail':
        from .failcodec import FailCodec
        return FailCodec()
    return {
        None: None,
        'zlib': numcodecs.Zlib(level=1),
        'zstd': numcodecs.Zstd(level=1),
        'blosc': numcodecs.Blosc(cname='lz4', clevel=3, shuffle=1),
        'lz4': numcodecs.LZ4(),
        'bz2': numcodecs.BZ2(level=1),
        'gzip': numcodecs.GZip(level=1),
    }[name]


def filters(names, dtype):
    result = []
    for name in names or ():
        if name == 'delta':
            result.append(numcodecs.Delta(dtype=dtype))
        elif name == 'shuffle':
            result.append(
                numcodecs.Shuffle(elementsize=numpy.dtype(dtype).itemsize))
    return tuple(result)


# --------------------------------------------------------------------------
# partition keys, computed independently of the code under test


def date_key(value: numpy.datetime64, res: str) -> tuple[int, ...]:
    """(year, month, ...) of a datetime64 down to the resolution."""
    result = []
    for unit in RES[:RES.index(res) + 1]:
        this = value.astype(f'M8[{unit}]').astype('int64')
        if unit == 'Y':
            result.append(int(this) + 1970)
        elif unit == 'M':
            result.append(int(this) % 12 + 1)
        elif unit == 'D':
            first = value.astype('M8[M]').astype('M8[D]').astype('int64')
            result.append(int(this - first) + 1)
        else:
            result.append(int(this) % {'h': 24, 'm': 60, 's': 60}[unit])
    return tuple(result)


def key_names(part: dict) -> tuple[str, ...]:
    if part['kind'] == 'date':
        return UNITS[:RES.index(part['res']) + 1]
    return tuple(part['vars'])


def key_dir(part: dict, key) -> str:
    """Relative directory of a partition."""
    if part['kind'] == 'date':
        return '/'.join(f'{n}={v:02d}' for n, v in zip(key_names(part), key))
    return '/'.join(f'{n}={v}' for n, v in zip(key_names(part), key))


def key_dict(part: dict, key) -> dict:
    return dict(zip(key_names(part), key))


def labelled(part: dict, key):
    return tuple(zip(key_names(part), key))


# --------------------------------------------------------------------------
# records
#
# A batch of records is a list of [p, [offset, ...], rid0]: partition number,
# offsets inside the partition, id of the first record.


def partition_start(part: dict, unit: str, p: int) -> numpy.datetime64:
    base = numpy.datetime64(part.get('base', '1999-11-28T22:58:58'), part['res'])
    return (base + p).astype(f'M8[{unit}]')


def seq_key(part: dict, p: int) -> tuple[int, ...]:
    """p-th key of an integer scheme, in increasing order."""
    n = len(part['vars'])
    radix = part.get('radix', 3)
    digits = []
    for _ in range(n - 1):
        digits.append(p % radix)
        p //= radix
    digits.append(p)
    low = part.get('low', 8)
    return tuple(low + d for d in reversed(digits))


def expand(schema: dict, batch) -> dict:
    """Batch -> {'time': M8 array, 'keys': [key per record], 'rids': [...]}"""
    part, unit = schema['part'], schema['unit']
    times, keys, rids = [], [], []
    for p, offsets, rid0 in batch:
        if part['kind'] == 'date':
            start = partition_start(part, unit, p)
            stop = partition_start(part, unit, p + 1)
            span = int((stop - start).astype('int64'))
            ticks = sorted((o % span) for o in offsets)
            these = [start + numpy.timedelta64(o, unit) for o in ticks]
            key = date_key(start, part['res'])
        else:
            start = numpy.datetime64('2001-02-03', 'D').astype(f'M8[{unit}]')
            these = [
                start + numpy.timedelta64(p * 1000 + o % 1000, unit)
                for o in sorted(o % 1000 for o in offsets)
            ]
            key = seq_key(part, p)
        times += these
        keys += [key] * len(these)
        rids += list(range(rid0, rid0 + len(these)))
    return dict(time=numpy.array(times, dtype=f'M8[{unit}]'),
                keys=keys,
                rids=rids)


def arrays(schema: dict, batch, imm_version: int = 0) -> dict:
    """Raw arrays of every variable for a batch (variables of the schema)."""
    ex = expand(schema, batch)
    dim, extra = schema['dim'], schema['extra']
    out = {schema['axis']: ex['time']}
    part = schema['part']
    if part['kind'] == 'seq':
        for ix, name in enumerate(part['vars']):
            dtype = (part.get('kdtype') or {}).get(name, 'int64')
            out[name] = numpy.array([k[ix] for k in ex['keys']], dtype)
    for vix, var in enumerate(schema['vars']):
        vix = var.get('vix', vix)
        if dim in var['dims']:
            out[var['name']] = raw(var, vix, ex['rids'], dim, extra)
        else:
            out[var['name']] = constant(var, vix, imm_version, extra)
    return out


def var_dims(schema: dict) -> dict:
    out = {schema['axis']: (schema['dim'], )}
    if schema['part']['kind'] == 'seq':
        for name in schema['part']['vars']:
            out[name] = (schema['dim'], )
    for var in schema['vars']:
        out[var['name']] = tuple(var['dims'])
    return out


def var_fill(schema: dict) -> dict:
    out = {name: None for name in var_dims(schema)}
    for var in schema['vars']:
        out[var['name']] = decode_fill(var['dtype'], var.get('fill'))
    return out


def split(schema: dict, batch, data: dict) -> dict:
    """Raw arrays -> {key: {var: raw rows}} for the partitioned variables."""
    ex = expand(schema, batch)
    dims = var_dims(schema)
    out: dict = {}
    bounds: dict = {}
    for ix, key in enumerate(ex['keys']):
        lo, _ = bounds.get(key, (ix, ix))
        bounds[key] = (lo, ix + 1)
    for key, (lo, hi) in bounds.items():
        out[key] = {
            name: take(arr, dims[name], schema['dim'], slice(lo, hi))
            for name, arr in data.items() if schema['dim'] in dims[name]
        }
    return out


def take(arr, dims, dim, index):
    sel = [slice(None)] * len(dims)
    sel[tuple(dims).index(dim)] = index
    return arr[tuple(sel)]


def concat(parts, dims, dim):
    return numpy.concatenate(parts, axis=tuple(dims).index(dim))


def content(schema: dict, parts: dict, keys=None, names=None) -> dict:
    """Expected raw arrays of a load of the given keys, in key order."""
    dims = var_dims(schema)
    keys = sorted(parts if keys is None else keys)
    if not keys:
        return {}
    names = names or [n for n in parts[keys[0]]]
    return {
        name: concat([parts[k][name] for k in keys], dims[name], schema['dim'])
        for name in names
    }


# --------------------------------------------------------------------------
# comparison


def same(a, b) -> bool:
    """Equality of raw arrays: dtype, shape, values (NaN = NaN, NaT = NaT)."""
    a, b = numpy.asarray(a), numpy.asarray(b)
    if a.dtype != b.dtype or a.shape != b.shape:
        return False
    if a.dtype.kind == 'f':
        # -0.0 is 0.0: a chunk full of -0.0 with a fill value of 0.0 is not
        # stored, all its values are masked anyway.
        return bool(numpy.array_equal(a, b, equal_nan=True))
    if a.dtype.kind in 'mM':
        return bool(numpy.array_equal(a.view('int64'), b.view('int64')))
    return bool(numpy.array_equal(a, b))


def describe(a) -> str:
    if isinstance(a, dask.array.Array):
        a = a.compute()
    return f'{a.dtype}{list(a.shape)} {a.tolist()!r}'[:400]


def compare_variable(var, expected, dims, fill, where: str) -> None:
    """Raw content, dtype, dimensions, fill value and mask of a variable."""
    got = var.array
    if isinstance(got, dask.array.Array):
        got = got.compute()
    got = numpy.asarray(got)
    assert tuple(var.dimensions) == tuple(dims), \
        f'{where}: dimensions {var.dimensions} != {dims}'
    assert same(got, expected), \
        f'{where}: got {describe(got)} expected {describe(expected)}'
    if fill is None:
        assert var.fill_value is None, f'{where}: fill {var.fill_value!r}'
    else:
        assert same(numpy.array(var.fill_value, expected.dtype),
                    numpy.array(fill, expected.dtype)), \
            f'{where}: fill {var.fill_value!r} != {fill!r}'
    vals = var.values
    mask = numpy.ma.getmaskarray(vals)
    want = numpy.zeros(expected.shape, bool) if fill is None else (
        expected == fill)
    assert mask.shape == want.shape and numpy.array_equal(mask, want), \
        f'{where}: mask {mask.tolist()} != {want.tolist()}'
    keep = ~want
    assert same(numpy.asarray(numpy.ma.getdata(vals))[keep],
                expected[keep]), f'{where}: unmasked values differ'


def compare(zds, expected: dict, dims: dict, fills: dict, where: str,
            delayed=None) -> None:
    """A loaded dataset against expected raw arrays, all variables."""
    if not expected:
        assert zds is None, f'{where}: expected nothing, got {zds}'
        return
    assert zds is not None, f'{where}: nothing loaded'
    assert set(zds.variables) == set(expected), \
        f'{where}: variables {sorted(zds.variables)} != {sorted(expected)}'
    for name, arr in expected.items():
        compare_variable(zds.variables[name], arr, dims[name],
                         fills.get(name), f'{where}/{name}')
    sizes: dict = {}
    for name, arr in expected.items():
        sizes.update(zip(dims[name], arr.shape))
    assert dict(zds.dimensions) == sizes, \
        f'{where}: dimensions {zds.dimensions} != {sizes}'
    if delayed is not None:
        for name in expected:
            lazy = isinstance(zds.variables[name].array, dask.array.Array)
            assert lazy == delayed, f'{where}/{name}: delayed={lazy}'
