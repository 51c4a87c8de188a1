"""C22: in-memory compression is transparent."""
import pickle

import dask
import dask.array
import numpy
from hypothesis import strategies as st

from .. import env, gen, model
from ..core import Sub
from ..world import World
from . import c19

RULE = ('part array: a compressed array (any dtype, shape of 0-3 dimensions, '
        'fill value or none, chunk sizes, codec) and a program of 1-6 '
        'operations: reading, indexing (integers, slices, ellipsis), '
        'properties, arithmetic and comparisons with scalars, arrays and '
        'other compressed arrays (other fill values) on either side, '
        'reductions, NumPy functions, reshape, astype, rechunk, copy, pickle, '
        'assignment of scalars, arrays and masked arrays, use as blocks of a '
        'Dask array (compute, slice, concatenate, rechunk, arithmetic, '
        'reductions). Oracle: the same operation on the plain (masked) '
        'array. part dataset: the programs of C19 on lazy datasets persisted '
        'with compression at least once. part collection: a lazily loaded '
        'dataset is persisted with compression, compared, and inserted in '
        'another collection. Non-trivial: a value is masked or at least two '
        'operations are executed.')
ASSUMPTIONS = ['fill values are values of the data type, NaN excluded',
               'one in-process Dask worker for the part collection']

TYPES = ('int8', 'int16', 'int32', 'int64', 'uint8', 'uint32', 'float32',
         'float64', 'float64', 'bool', 'M8[ns]', 'm8[s]')
BINARY = ('add', 'subtract', 'multiply', 'maximum', 'less', 'equal',
          'not_equal', 'greater_equal')
UNARY = ('negative', 'absolute', 'square', 'sign')
REDUCE = ('sum', 'min', 'max', 'any', 'mean')


@st.composite
def operations(draw):
    kind = draw(st.sampled_from(
        ['read', 'get', 'get', 'props', 'binary', 'binary', 'unary',
         'reduce', 'func', 'reshape', 'astype', 'rechunk', 'copy', 'pickle',
         'set', 'set', 'set masked', 'dask', 'dask', 'dask binary']))
    index = st.lists(st.one_of(
        st.integers(-3, 3), st.just('...'),
        st.tuples(st.one_of(st.none(), st.integers(-3, 3)),
                  st.one_of(st.none(), st.integers(-3, 3)),
                  st.sampled_from([None, 1, 2])).map(list)), max_size=3)
    return dict(op=kind, index=draw(index), a=draw(st.integers(0, 20)),
                b=draw(st.integers(0, 20)), fill=draw(st.sampled_from(
                    [None, 0, 1, 2])))


@st.composite
def cases(draw):
    dtype = draw(st.sampled_from(TYPES))
    return dict(dtype=dtype, shape=draw(st.lists(st.integers(1, 4),
                                                 max_size=3)),
                fill=draw(st.sampled_from([None, None, 0, 1, 2])),
                seed=draw(st.integers(0, 50)),
                chunk=draw(st.sampled_from([None, 1, 2, 3])),
                comp=draw(st.sampled_from([None, 'zlib', 'blosc', 'zstd'])),
                ops=draw(st.lists(operations(), min_size=1, max_size=6)))


def values(dtype, shape, seed, low=0):
    size = int(numpy.prod(shape)) if shape else 1
    data = (numpy.arange(size) * 7 + seed) % 5 + low
    dtype = numpy.dtype(dtype)
    if seed % 3 == 2 and dtype.itemsize > 1:
        # Values which collide once cast to a narrower type.
        data = data + 256 * (numpy.arange(size) % 2)
    if dtype.kind in 'mM':
        out = data.astype('int64').view(dtype)
    else:
        out = data.astype(dtype)
    return out.reshape(shape)


def scalar(dtype, value):
    return None if value is None else values(dtype, (1, ), value % 5)[0]


def plain(arr, fill):
    return arr.copy() if fill is None else numpy.ma.masked_equal(arr, fill)


def same(got, want, where, masked=True):
    """Same dtype, shape, mask and unmasked values."""
    got = numpy.asanyarray(got)
    want = numpy.asanyarray(want)
    assert got.shape == want.shape, f'{where}: {got.shape} != {want.shape}'
    if masked:
        one, two = (numpy.ma.getmaskarray(i) for i in (got, want))
        assert (one == two).all(), f'{where}: mask {one} expected {two}'
        keep = ~two
        got, want = numpy.ma.getdata(got)[keep], numpy.ma.getdata(want)[keep]
    assert got.dtype == want.dtype, f'{where}: {got.dtype} {want.dtype}'
    assert model.same(numpy.asarray(got), numpy.asarray(want)), \
        f'{where}: {got} expected {want}'


def compressed(arr, fill, chunk, comp):
    from zcollection.compressed_array import CompressedArray
    kwargs = dict(fill_value=fill, compressor=model.compressor(comp))
    if chunk and arr.ndim:
        kwargs['chunks'] = chunk
    return CompressedArray(arr, **kwargs)


def attempt(func):
    """(value, None) or (None, exception type)."""
    try:
        return func(), None
    except Exception as exc:  # noqa: BLE001
        return None, type(exc)


def both(got, want, where):
    """Both sides compute the same thing; what NumPy refuses is ignored."""
    expect, error = attempt(want)
    if error is not None:
        return
    same(got(), expect, where)


def index_of(spec, ndim):
    out = []
    for item in spec:
        if item == '...':
            if Ellipsis not in out:
                out.append(Ellipsis)
        elif isinstance(item, list):
            out.append(slice(*item))
        else:
            out.append(item)
    return tuple(out)[:max(ndim, 1)]


def run(case, ctx):
    with dask.config.set(scheduler='synchronous'):
        program(case, ctx)


def program(case, ctx):
    from zcollection.compressed_array import CompressedArray
    dtype, shape = case['dtype'], tuple(case['shape'])
    fill = scalar(dtype, case['fill'])
    ref = values(dtype, shape, case['seed'])
    arr = compressed(ref.copy(), fill, case['chunk'], case['comp'])
    masked = fill is not None and bool((ref == fill).any())
    ctx.nt(masked or len(case['ops']) > 1)
    for step, op in enumerate(case['ops']):
        kind = op['op']
        where = f'step {step} {kind}'
        want = plain(ref, fill)
        ctx.label(kind)
        if kind in ('binary', 'dask binary', 'unary') and not ref.ndim:
            # NumPy promotes arrays without dimension like scalars.
            continue
        if kind == 'read':
            same(numpy.asanyarray(arr), want, where)
            same(arr.__array__(), want, where)
            same(arr[...], want, where)
        elif kind == 'props':
            assert arr.shape == ref.shape and arr.ndim == ref.ndim, where
            assert arr.size == ref.size and arr.dtype == ref.dtype, where
            assert arr.nbytes == ref.nbytes, where
            assert (arr.fill_value is None) == (fill is None), where
            assert fill is None or arr.fill_value == fill, where
        elif kind == 'get':
            index = index_of(op['index'], ref.ndim)
            expect, error = attempt(lambda: ref[index])
            if error is None:
                same(arr[index], plain(numpy.asarray(expect), fill), where)
        elif kind in ('binary', 'dask binary'):
            name = BINARY[op['a'] % len(BINARY)]
            func = getattr(numpy, name)
            other = scalar(dtype, op['fill'])
            second = values(dtype, shape, op['b'])
            pick = op['b'] % 4
            if pick == 0 and ref.dtype.kind in 'iuf':
                number = int(op['a'] % 3)
                mine, theirs = number, number
            elif pick == 1:
                mine = theirs = second
            else:
                mine = compressed(second.copy(), other, 2, 'zlib')
                theirs = plain(second, other)
            where = f'{where} {name} {type(mine).__name__}'
            if kind == 'binary':
                both(lambda: func(arr, mine), lambda: func(want, theirs),
                     where)
                if not isinstance(mine, numpy.ndarray):
                    both(lambda: func(mine, arr), lambda: func(theirs, want),
                         f'{where} reversed')
            else:
                left = dask.array.from_array(ref, chunks=2).map_blocks(
                    CompressedArray, fill_value=fill, dtype=ref.dtype)
                right = mine
                if isinstance(mine, CompressedArray):
                    right = dask.array.from_array(
                        second, chunks=2).map_blocks(
                            CompressedArray, fill_value=other,
                            dtype=ref.dtype)
                both(lambda: func(left, right).compute(),
                     lambda: func(want, theirs), where)
        elif kind == 'unary':
            func = getattr(numpy, UNARY[op['a'] % len(UNARY)])
            both(lambda: func(arr), lambda: func(want), where)
            if ref.dtype.kind in 'iuf':
                both(lambda: arr * 2, lambda: want * 2, where)
                both(lambda: 2 - arr, lambda: 2 - want, where)
        elif kind == 'reduce':
            axis = op['b'] % ref.ndim if ref.ndim and op['b'] % 2 else None
            both(lambda: numpy.add.reduce(arr, axis=axis),
                 lambda: numpy.add.reduce(want, axis=axis), where)
            name = REDUCE[op['a'] % len(REDUCE)]
            both(lambda: getattr(numpy, name)(arr, axis=axis),
                 lambda: getattr(numpy, name)(want, axis=axis),
                 f'{where} {name}')
        elif kind == 'func':
            if ref.ndim:
                both(lambda: numpy.concatenate([arr, arr]),
                     lambda: numpy.concatenate([want, want]),
                     f'{where} concatenate')
            both(lambda: numpy.transpose(arr), lambda: numpy.transpose(want),
                 f'{where} transpose')
            both(lambda: numpy.ravel(arr), lambda: numpy.ravel(want),
                 f'{where} ravel')
        elif kind == 'reshape':
            same(arr.reshape(ref.size), want.reshape(ref.size), where)
        elif kind == 'astype':
            to = ('float64', 'int64', 'complex128', 'int8', 'uint8',
                  'bool')[op['a'] % 6]
            if ref.dtype.kind in 'iufb':
                same(arr.astype(to), want.astype(to), where)
                same(arr.__array__(to), want.astype(to), where)
        elif kind == 'rechunk':
            if ref.ndim:
                arr = arr.rechunk(tuple(1 + (op['a'] + i) % 3
                                        for i in range(ref.ndim)))
                same(arr[...], want, where)
        elif kind == 'copy':
            same(CompressedArray(arr)[...], want, where)
        elif kind == 'pickle':
            arr = pickle.loads(pickle.dumps(arr))
            same(arr[...], want, where)
        elif kind in ('set', 'set masked'):
            index = index_of(op['index'], ref.ndim)
            if not ref.ndim:
                index = Ellipsis
            target, error = attempt(lambda: ref[index])
            if error is not None:
                continue
            if kind == 'set':
                new = values(dtype, numpy.shape(target), op['a'])
                if op['b'] % 2:
                    new = scalar(dtype, op['a'])
                ref[index] = new
                arr[index] = new
            elif fill is not None:
                # Masked positions hold anything.
                data = values(dtype, numpy.shape(target), op['a'])
                hide = (numpy.arange(data.size) % 2 == op['b'] % 2).reshape(
                    data.shape)
                ref[index] = numpy.where(hide, fill, data)
                arr[index] = numpy.ma.array(data, mask=hide)
            same(arr[...], plain(ref, fill), where)
        elif kind == 'dask':
            lazy_operations(ref, fill, want, op, where)


def lazy_operations(ref, fill, want, op, where):
    from zcollection.compressed_array import CompressedArray
    base = dask.array.from_array(ref, chunks=1 + op['a'] % 3)
    lazy = base.map_blocks(CompressedArray, fill_value=fill, dtype=ref.dtype)
    if op['b'] % 3 == 0:
        lazy = lazy.persist()
    same(lazy.compute(), want, where)
    if not ref.ndim:
        return
    part = slice(op['a'] % 2, None, 1 + op['b'] % 2)
    same(lazy[part].compute(), want[part], f'{where} slice')
    join = numpy.concatenate if fill is None else numpy.ma.concatenate
    same(dask.array.concatenate([lazy, lazy[part]]).compute(),
         join([want, want[part]]), f'{where} concatenate')
    same(lazy.rechunk(2).compute(), want, f'{where} rechunk')
    if ref.dtype.kind in 'iuf':
        same((lazy + 1).compute(), want + 1, f'{where} + 1')
        got, expect = lazy.sum().compute(), want.sum()
        assert (got is numpy.ma.masked) == (expect is numpy.ma.masked) or \
            numpy.ma.getdata(got) == numpy.ma.getdata(expect), where
        if expect is not numpy.ma.masked:
            assert numpy.ma.getdata(got) == expect, f'{where} sum {got}'
            for name in ('min', 'max'):
                got = getattr(lazy, name)().compute()
                assert got == getattr(want, name)(), f'{where} {name} {got}'
            got, expect = lazy.mean().compute(), want.mean()
            assert numpy.isclose(got, expect), f'{where} mean {got}'


# -- datasets ---------------------------------------------------------------


@st.composite
def dataset_cases(draw):
    case = draw(c19.cases())
    at = draw(st.integers(0, len(case['ops'])))
    case['ops'].insert(at, ['persist'])
    case['compress'] = True
    return case


@st.composite
def collection_cases(draw):
    return dict(schema=draw(gen.schemas(max_vars=3, min_vars=1,
                                        immutable=draw(st.booleans()))),
                batch=draw(gen.batches(max_rows=4)),
                chunk=draw(st.sampled_from([None, 1, 2])),
                cluster=draw(st.booleans()))


def run_collection(case, ctx):
    env.client()
    with World(case['schema'], case['batch']) as w:
        zds = w.col.load(delayed=True)
        if case['chunk'] and not w.imm:
            zds = zds.rechunk(chunks=case['chunk'])
        # The tasks writing the collections run outside the cluster: they need
        # data persisted in the process, not in the memory of the workers.
        got = zds.persist(compress=True,
                          **({} if case['cluster'] else
                             {'scheduler': 'synchronous'}))
        w.compare(got, 'persisted')
        w.compare(got.compute(), 'computed')
        for name, arr in got.to_dict().items():
            want = plain(w.expected()[name], w.fills[name])
            same(arr, want, f'to_dict {name}')
        ctx.nt(len(w.keys) > 1)
        if case['cluster']:
            return
        other = World(case['schema'], case['batch'], name='other',
                      place=w.place, insert=False)
        other.col.insert(got)
        other.note_insert(case['batch'])
        other.check('inserted')


SUBS = [Sub('array', cases(), run, 500, 12000),
        Sub('dataset', dataset_cases(), c19.run, 120, 3000),
        Sub('collection', collection_cases(), run_collection, 30, 400)]
