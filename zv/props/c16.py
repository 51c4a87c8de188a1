"""C16: reopening restores exactly the saved configuration."""
import json
import math

import numcodecs
import numpy
from hypothesis import strategies as st

import zcollection
from zcollection import meta
from zcollection import partitioning as zp

from .. import env, gen
from ..core import Sub
from ..world import World

RULE = ('part reopen: a collection (any schema, attributes, codecs, chunks, '
        'block limit, Sequence types, empty or filled), reopened by path '
        '(with or without trailing slash) in both modes: axis, partitioning, '
        'variables (type, dimensions in order, fill value, compressor, '
        'filters, attributes), attributes, chunks and block limit are those '
        'given at creation, compared field by field with the case; then the '
        'same insert/update/add/drop history is applied to a collection kept '
        'open and to a twin reopened before every operation: their files '
        'are byte for byte equal. part refused: creations over an existing '
        'path, unknown axis or key, invalid mode, attributes that cannot be '
        'saved, openings of missing collections: refused, the files and '
        'directories are unchanged. part meta: metadata of datasets with any '
        'type (text, bytes, complex, dates), fill value (NaN, infinities, '
        'NaT, extremes), codecs and JSON attributes, and partitioning '
        'configurations, through JSON. Non-trivial: at least one variable '
        'with attributes, codecs or a fill value, or a refused request.')
ASSUMPTIONS = ['attribute values are JSON values, NumPy scalars or NumPy '
               'arrays of numbers']


# -- description ------------------------------------------------------------

TEXT = st.text(st.characters(codec='utf-8', exclude_categories=['Cs']),
               max_size=6)
JSON = st.recursive(
    st.one_of(st.none(), st.booleans(), st.integers(-2**70, 2**70),
              st.floats(allow_nan=False), TEXT),
    lambda inner: st.one_of(st.lists(inner, max_size=3),
                            st.dictionaries(TEXT, inner, max_size=2)),
    max_leaves=5)
ATTRS = st.dictionaries(st.one_of(st.sampled_from(
    ['units', 'long_name', 'a', 'é']), TEXT), JSON, max_size=3)

CODECS = [
    lambda: numcodecs.Zlib(level=1), lambda: numcodecs.Zlib(level=9),
    lambda: numcodecs.Blosc(cname='zstd', clevel=7, shuffle=2),
    lambda: numcodecs.Blosc(cname='lz4hc', clevel=1, shuffle=0,
                            blocksize=4096),
    lambda: numcodecs.Zstd(level=4), lambda: numcodecs.GZip(level=2),
    lambda: numcodecs.BZ2(level=3), lambda: numcodecs.LZ4(acceleration=3),
    lambda: numcodecs.LZMA(preset=2)
]
FILTERS = [
    lambda dtype: numcodecs.Delta(dtype=dtype),
    lambda dtype: numcodecs.Shuffle(elementsize=4),
    lambda dtype: numcodecs.FixedScaleOffset(offset=1.5, scale=10,
                                             dtype='f8', astype='i4'),
    lambda dtype: numcodecs.Quantize(digits=3, dtype='f8'),
    lambda dtype: numcodecs.BitRound(keepbits=10)
]
TYPES = ['int8', 'uint8', 'int16', '>i4', 'int64', 'uint64', 'float32',
         '>f8', 'float64', 'bool', 'M8[ns]', 'M8[us]', 'M8[D]', 'm8[s]',
         'm8[ms]', 'complex128', 'S3', 'U4']


@st.composite
def fills(draw, dtype):
    kind = numpy.dtype(dtype).kind
    if draw(st.integers(0, 3)) == 0:
        return None
    if kind == 'b':
        return draw(st.booleans())
    if kind in 'iu':
        info = numpy.iinfo(dtype)
        return draw(st.integers(int(info.min), int(info.max)))
    if kind == 'f':
        return draw(st.one_of(
            st.sampled_from(['nan', 'inf', '-inf', '-0.0']),
            st.floats(width=32 if numpy.dtype(dtype).itemsize == 4 else 64,
                      allow_nan=False, allow_infinity=False)))
    if kind in 'mM':
        return draw(st.one_of(st.just('nat'), st.integers(-2**62, 2**62)))
    if kind == 'c':
        return draw(st.sampled_from(['1.5', 'nan', '-inf']))
    if kind == 'S':
        return draw(st.sampled_from(['', 'a', 'ab', 'abc']))
    return draw(st.sampled_from(['', 'é', 'abcd']))


def fill_of(dtype, fill):
    """Fill value in memory."""
    if fill is None:
        return None
    dtype = numpy.dtype(dtype)
    if dtype.kind in 'mM':
        return numpy.array(numpy.iinfo('int64').min if fill == 'nat' else
                           fill, 'int64').view(dtype)[()]
    if dtype.kind == 'f':
        return dtype.type(float(fill))
    if dtype.kind == 'c':
        return dtype.type(complex(float(fill), 2.0))
    if dtype.kind == 'S':
        return numpy.array(fill.encode(), dtype)[()]
    return numpy.array(fill, dtype)[()]


def same_fill(got, want, dtype):
    """Same bits: NaN, NaT and the sign of zero included."""
    if want is None or got is None:
        return want is None and got is None
    got = numpy.array(got).astype(dtype)
    want = numpy.array(want).astype(dtype)
    return got.tobytes() == want.tobytes() or (
        got.dtype.kind in 'fc' and bool(numpy.isnan(got)) and
        bool(numpy.isnan(want)))


def same(got, want):
    """Equality of JSON values, without confusing 1, 1.0 and True."""
    if type(got) is not type(want):
        return False
    if isinstance(want, dict):
        return set(got) == set(want) and all(
            same(got[k], v) for k, v in want.items())
    if isinstance(want, list):
        return len(got) == len(want) and all(map(same, got, want))
    if isinstance(want, float):
        return math.copysign(1, got) == math.copysign(1, want) and \
            got == want
    return got == want


def check_attrs(got, want, where):
    seen = {a.name: a.value for a in got}
    assert len(got) == len(want), f'{where}: attributes {got}'
    assert same(seen, dict(want)), f'{where}: {seen} expected {want}'


# -- metadata ---------------------------------------------------------------


@st.composite
def meta_cases(draw):
    dims = draw(st.lists(st.sampled_from(['x', 'y', 'z', 'time', 'é']),
                         unique=True, min_size=1, max_size=4))
    out = []
    for ix in range(draw(st.integers(0, 4))):
        dtype = draw(st.sampled_from(TYPES))
        out.append(dict(
            name=f'v{ix}' if draw(st.booleans()) else f'Ü{ix}',
            dtype=dtype, fill=draw(fills(dtype)),
            dims=draw(st.lists(st.sampled_from(dims), unique=True)),
            attrs=draw(ATTRS),
            comp=draw(st.one_of(st.none(),
                                st.integers(0, len(CODECS) - 1))),
            filt=draw(st.lists(st.integers(0, len(FILTERS) - 1),
                               max_size=3))))
    return dict(dims=dims, vars=draw(st.permutations(out)),
                attrs=draw(ATTRS),
                chunks=draw(st.lists(st.tuples(
                    st.sampled_from(dims), st.integers(1, 10**6)).map(list),
                    unique_by=lambda i: i[0])),
                block=draw(st.one_of(st.none(), st.integers(1, 2**40))))


def run_meta(case, ctx):
    def attributes(items):
        return [meta.Attribute(k, v) for k, v in items.items()]

    variables = [
        meta.Variable(v['name'], numpy.dtype(v['dtype']),
                      dimensions=v['dims'], attrs=attributes(v['attrs']),
                      compressor=None if v['comp'] is None else
                      CODECS[v['comp']](),
                      fill_value=fill_of(v['dtype'], v['fill']),
                      filters=[FILTERS[f](v['dtype']) for f in v['filt']])
        for v in case['vars']
    ]
    zds = meta.Dataset(case['dims'], variables,
                       attrs=attributes(case['attrs']),
                       chunks=[meta.Dimension(*c) for c in case['chunks']],
                       block_size_limit=case['block'])
    text = json.dumps(zds.get_config())
    back = meta.Dataset.from_config(json.loads(text))
    assert back == zds or 'nan' in text.lower(), 'not equal'
    assert json.dumps(back.get_config()) == text, 'configuration differs'
    assert back.dimensions == tuple(case['dims'])
    assert [list(c.get_config()) for c in back.chunks] == case['chunks']
    assert back.block_size_limit == (case['block'] or meta.BLOCK_SIZE_LIMIT)
    check_attrs(back.attrs, case['attrs'], 'dataset')
    assert set(back.variables) == {v['name'] for v in case['vars']}
    for spec in case['vars']:
        var = back.variables[spec['name']]
        where = f'variable {spec}'
        assert var.name == spec['name']
        assert var.dtype == numpy.dtype(spec['dtype']), where
        assert var.dimensions == tuple(spec['dims']), where
        comp = None if spec['comp'] is None else CODECS[spec['comp']]()
        assert var.compressor == comp, where
        assert list(var.filters) == [FILTERS[f](spec['dtype'])
                                     for f in spec['filt']], where
        assert same_fill(var.fill_value, fill_of(spec['dtype'],
                                                 spec['fill']),
                         spec['dtype']), f'{where}: {var.fill_value!r}'
        check_attrs(var.attrs, spec['attrs'], where)
        if spec['attrs'] or spec['filt'] or spec['fill'] is not None:
            ctx.nt()
        if spec['fill'] in ('nan', 'inf', '-inf', 'nat', '-0.0'):
            ctx.label('special fill')


# -- partitioning -----------------------------------------------------------


@st.composite
def part_cases(draw):
    if draw(st.booleans()):
        return dict(kind='date', res=draw(st.sampled_from('YMDhms')))
    names = draw(st.lists(st.sampled_from(['a', 'b', 'c', 'cycle']),
                          unique=True, min_size=1, max_size=4))
    return dict(kind='seq', vars=names, dtype=draw(st.one_of(
        st.none(), st.lists(st.sampled_from(
            ['int8', 'int16', 'int32', 'int64', 'uint8', 'uint16', 'uint32',
             'uint64']), min_size=len(names), max_size=len(names)))),
        values=draw(st.lists(st.lists(st.integers(0, 100),
                                      min_size=len(names),
                                      max_size=len(names)),
                             min_size=1, max_size=6)))


def run_part(case, ctx):
    if case['kind'] == 'date':
        part = zp.Date(('time', ), case['res'])
        data = {'time': numpy.arange(0, 10**9, 12345678,
                                     dtype='int64').view('M8[s]')}
    else:
        part = zp.Sequence(tuple(case['vars']),
                           case['dtype'] and tuple(case['dtype']))
        rows = sorted(case['values'])
        data = {n: numpy.array([r[ix] for r in rows], 'int64')
                for ix, n in enumerate(case['vars'])}
    back = zp.get_codecs(json.loads(json.dumps(part.get_config())))
    assert type(back) is type(part)
    assert tuple(back.variables) == tuple(part.variables)
    assert [tuple(i) for i in back.dtype()] == [
        tuple(i) for i in part.dtype()]
    if case['kind'] == 'seq':
        want = case['dtype'] or ['int64'] * len(case['vars'])
        assert [tuple(i) for i in back.dtype()] == list(
            zip(case['vars'], want)), back.dtype()
        ctx.nt(case['dtype'] is not None)
    else:
        ctx.nt()
    first = list(part.split_dataset(make(data), 'x'))
    again = list(back.split_dataset(make(data), 'x'))
    assert first == again, 'splits differ'
    paths = ['/'.join(item) for item, _ in first]
    for key in map(part.parse, paths):
        assert back.join(key, '/') == part.join(key, '/')
        assert back.parse(part.join(key, '/')) == part.parse(
            part.join(key, '/'))
        assert back.encode(key) == part.encode(key)
        assert back.decode(part.encode(key)) == part.decode(part.encode(key))


def make(data):
    from zcollection import dataset
    return dataset.Dataset([
        dataset.Array(n, a, ('x', )) for n, a in data.items()])


# -- collections ------------------------------------------------------------


def history():
    return st.lists(st.one_of(
        st.fixed_dictionaries(dict(op=st.just('insert'),
                                   batch=gen.batches(max_parts=3,
                                                     max_rows=3))),
        st.fixed_dictionaries(dict(
            op=st.sampled_from(['update', 'drop', 'add', 'delvar']),
            var=st.integers(0, 5)))), max_size=3)


@st.composite
def cases(draw):
    schema = draw(gen.schemas(max_vars=3, immutable=draw(st.booleans())))
    for var in schema['vars']:
        var['attrs'] = draw(ATTRS)
    if schema['part']['kind'] == 'seq' and draw(st.booleans()):
        schema['part']['dtype'] = [
            draw(st.sampled_from(['int16', 'int32', 'uint16', 'int64']))
            for _ in schema['part']['vars']]
    return dict(schema=schema, batch=draw(gen.batches(max_rows=3)),
                attrs=draw(ATTRS), empty=draw(st.booleans()),
                block=draw(st.one_of(st.none(), st.integers(1, 2**34))),
                slash=draw(st.booleans()), ops=draw(history()))


def create(case, place, name):
    from .. import model
    schema = case['schema']
    data = model.arrays(schema, case['batch'])
    zds = gen.build(schema, data, attrs=case['attrs'])
    if case['block']:
        zds.block_size_limit = case['block']
    return zds, gen.create(schema, zds, place, name)


def run(case, ctx):
    schema = case['schema']
    place = env.Place(schema['fs'])
    try:
        zds, col = create(case, place, 'one')
        _, twin = create(case, place, 'two')
        if not case['empty']:
            col.insert(zds)
            twin.insert(zds)
        for mode in ('r', 'w', None):
            path = place.path('one') + '/' * case['slash']
            got = zcollection.open_collection(path, mode=mode,
                                              filesystem=place.fs)
            assert got.mode == (mode or 'r')
            check(case, col, got, place)
        ctx.nt(any(v['attrs'] or v.get('fill') is not None
                   for v in schema['vars']))
        names = [v['name'] for v in schema['vars']
                 if schema['dim'] in v['dims']]
        for step, op in enumerate(case['ops']):
            twin = zcollection.open_collection(
                place.path('two'), mode='w', filesystem=place.fs)
            for this in (col, twin):
                apply(case, this, op, step, list(names))
            if op['op'] == 'delvar' and names:
                names.remove(names[op['var'] % len(names)])
            elif op['op'] == 'add':
                names.append(f'new{step}')
            one, two = (place.snapshot(place.path(n))
                        for n in ('one', 'two'))
            assert one == two, f'step {step} {op["op"]}: files differ ' + str(
                [k for k in set(one) | set(two)
                 if one.get(k) != two.get(k)][:3])
            ctx.label(op['op'])
    finally:
        place.close()


def apply(case, col, op, step, names):
    schema = case['schema']
    if op['op'] == 'insert':
        from .. import model
        batch = [[p, o, r + 100 * step + 100] for p, o, r in op['batch']]
        full = {v['name'] for v in schema['vars']}
        zds = gen.build(schema, model.arrays(schema, batch), skip=[
            n for n in full if n.startswith('var') and n not in names])
        col.insert(zds)
    elif op['op'] == 'drop':
        paths = list(col.partitions())
        if paths:
            key = dict(col.partitioning.parse(paths[op['var'] % len(paths)]))
            col.drop_partitions(filters=lambda keys: keys == key)
    elif op['op'] == 'add':
        col.add_variable(gen.meta_variable(dict(
            name=f'new{step}', dtype='int32', dims=[schema['dim']], fill=3,
            comp='zlib', filt=['delta'], attrs={'é': [1, 'a']})))
    elif names:
        name = names[op['var'] % len(names)]
        if op['op'] == 'delvar':
            col.drop_variable(name)
        elif list(col.partitions()):
            col.update(lambda zds: {name: numpy.full(
                zds[name].shape, 1).astype(zds[name].dtype)})


def check(case, col, got, place):
    from .. import model
    schema = case['schema']
    assert got.axis == schema['axis']
    assert got.partition_properties == col.partition_properties
    assert got.partition_properties.dim == schema['dim']
    assert got.partition_properties.dir == place.path('one')
    part = schema['part']
    assert tuple(got.partitioning.variables) == (
        ('time', ) if part['kind'] == 'date' else tuple(part['vars']))
    if part['kind'] == 'date':
        assert got.partitioning.resolution == part['res']
    else:
        assert [tuple(i) for i in got.partitioning.dtype()] == list(zip(
            part['vars'], part.get('dtype') or ['int64'] * 9))
    meta_ = got.metadata
    check_attrs(meta_.attrs, case['attrs'], 'collection')
    assert {c.name: c.value for c in meta_.chunks} == schema['chunks']
    assert meta_.block_size_limit == (
        case['block'] or schema['block'] or meta.BLOCK_SIZE_LIMIT)
    dims = model.var_dims(schema)
    assert set(meta_.variables) == set(dims)
    assert set(meta_.dimensions) == {d for v in dims.values() for d in v}
    assert meta_ == col.metadata, 'metadata differ'
    for var in schema['vars']:
        this = meta_.variables[var['name']]
        where = f"variable {var['name']}"
        assert this.dtype == numpy.dtype(var['dtype']), where
        assert this.dimensions == tuple(var['dims']), where
        assert this.compressor == model.compressor(var.get('comp')), where
        assert this.filters == model.filters(var.get('filt'),
                                             var['dtype']), where
        assert same_fill(this.fill_value,
                         model.decode_fill(var['dtype'], var.get('fill')),
                         var['dtype']), where
        check_attrs(this.attrs, var['attrs'], where)
    assert got.immutable == any(schema['dim'] not in d
                                for d in dims.values())


# -- refused requests -------------------------------------------------------

REFUSED = ('exists', 'dir', 'file', 'axis', 'key', 'missing', 'mode',
           'openmode', 'attr', 'varattr', 'addattr', 'nested')


@st.composite
def bad_cases(draw):
    return dict(schema=draw(gen.schemas(max_vars=2, codecs=False)),
                batch=draw(gen.batches(max_parts=3, max_rows=2)),
                bad=draw(st.lists(st.sampled_from(REFUSED), min_size=1,
                                  max_size=4)),
                slash=draw(st.booleans()))


def tree(place):
    """Files and directories."""
    return sorted(place.fs.find(place.root, withdirs=True))


def run_bad(case, ctx):
    schema = case['schema']
    with World(schema, case['batch']) as w:
        place = w.place
        place.fs.makedirs(place.path('empty'), exist_ok=True)
        place.fs.pipe_file(place.path('file'), b'content')
        before, dirs = place.snapshot(), tree(place)
        good = w.dataset(case['batch'])

        def create(path, axis='time', part=None, zds=None, **kwargs):
            zcollection.create_collection(
                axis, zds or good, part or gen.partitioning(schema['part']),
                place.path(path) + '/' * case['slash'],
                filesystem=place.fs, **kwargs)

        def odd(value, where='zds'):
            from zcollection import dataset
            attr = dataset.Attribute('odd', value)
            if where == 'zds':
                return dataset.Dataset(list(good.variables.values()),
                                       attrs=[attr])
            return dataset.Dataset(list(good.variables.values()) + [
                dataset.Array('odd', good['time'].array, (schema['dim'], ),
                              attrs=[attr])])

        calls = dict(
            exists=lambda: create('col'),
            dir=lambda: create('empty'),
            file=lambda: create('file'),
            axis=lambda: create('other', axis='nothing'),
            key=lambda: create('other', part=zp.Sequence(('nothing', ))),
            missing=lambda: zcollection.open_collection(
                place.path('other') + '/' * case['slash'],
                filesystem=place.fs, mode='w'),
            mode=lambda: zcollection.collection.Collection(
                'time', good.metadata(), gen.partitioning(schema['part']),
                place.path('other'), mode='x', filesystem=place.fs),
            openmode=lambda: zcollection.open_collection(
                w.base, mode='a', filesystem=place.fs),
            attr=lambda: create('other', zds=odd(b'bytes')),
            nested=lambda: create('other', zds=odd({'a': {1, 2}})),
            varattr=lambda: create('other', zds=odd(
                numpy.array(['2000-01-01'], 'M8[D]'), 'var')),
            addattr=lambda: w.col.add_variable(meta.Variable(
                'odd', numpy.dtype('int8'), dimensions=[schema['dim']],
                attrs=[meta.Attribute('odd', b'bytes')], fill_value=0)))
        for bad in case['bad']:
            try:
                calls[bad]()
            except (ValueError, TypeError):
                pass
            else:
                raise AssertionError(f'{bad}: accepted')
            ctx.label(bad)
            ctx.nt()
            assert place.snapshot() == before, f'{bad}: files changed'
            assert tree(place) == dirs, f'{bad}: directories changed'
        w.check('afterwards', lazy=False)
        w.check('reopened', col=w.reopen('r'), lazy=False)


SUBS = [
    Sub('reopen', cases(), run, 50, 1000),
    Sub('refused', bad_cases(), run_bad, 50, 800),
    Sub('meta', meta_cases(), run_meta, 400, 20000),
    Sub('partitioning', part_cases(), run_part, 100, 2000),
]
