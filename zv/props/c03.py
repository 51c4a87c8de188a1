"""C03: partition keys, names and listings round-trip and stay ordered."""
import json

from hypothesis import strategies as st

from .. import env, gen, model
from ..core import Sub

RULE = ('codec: a scheme and keys drawn over the whole range of the key '
        'types; parse(join(key)) and decode(encode(key)) must be the '
        'identity, also below an arbitrary base directory. listing: an '
        'arbitrary set of partition directories plus root files and hidden '
        'directories is laid out below an arbitrary base directory; the '
        'collection must list exactly the partitions in numeric order. '
        'config: the saved configuration rebuilds an equivalent scheme. '
        'Non-trivial: at least two keys.')
ASSUMPTIONS = ['key names are distinct identifiers; years 1 to 9999']

BASES = [
    'col', 'a/b/col', 'year=2020/col', 'x=1/col', 'cycle=7/pass_number=3/c',
    'month=05', 'data.v1/col', 'seg/col', 'max_cycle=5/col', 'cycle=9', 'é à'
]
BITS = {'8': 8, '16': 16, '32': 32, '64': 64}


@st.composite
def schemes(draw):
    if draw(st.booleans()):
        return dict(kind='date', res=draw(st.sampled_from(model.RES)))
    names = draw(
        st.lists(st.sampled_from(
            ['cycle', 'pass_number', 'seg', 'a', 'b', 'x', 'year', 'xx']),
                 min_size=1,
                 max_size=3,
                 unique=True))
    dtype = draw(
        st.one_of(
            st.none(),
            st.lists(st.sampled_from([
                'int8', 'int16', 'int32', 'int64', 'uint8', 'uint16',
                'uint32', 'uint64'
            ]), min_size=len(names), max_size=len(names))))
    return dict(kind='seq', vars=names, dtype=dtype)


def build(scheme):
    from zcollection import partitioning
    if scheme['kind'] == 'date':
        return partitioning.Date(('time', ), scheme['res'])
    return partitioning.Sequence(tuple(scheme['vars']), scheme['dtype'])


@st.composite
def keys_for(draw, scheme, years=(1, 9999)):
    if scheme['kind'] == 'date':
        n = model.RES.index(scheme['res']) + 1
        key = [draw(st.integers(*years)), draw(st.integers(1, 12)),
               draw(st.integers(1, 28)), draw(st.integers(0, 23)),
               draw(st.integers(0, 59)), draw(st.integers(0, 59))]
        return key[:n]
    out = []
    for ix, _ in enumerate(scheme['vars']):
        dtype = (scheme['dtype'] or ['int64'] * 3)[ix]
        bits = int(dtype.lstrip('uint'))
        lo, hi = (0, 2**bits - 1) if dtype[0] == 'u' else (-2**(bits - 1),
                                                           2**(bits - 1) - 1)
        out.append(
            draw(st.one_of(st.integers(max(lo, 0), min(hi, 120)),
                           st.integers(lo, hi))))
    return out


@st.composite
def codec_cases(draw):
    scheme = draw(schemes())
    return dict(scheme=scheme,
                keys=draw(
                    st.lists(keys_for(scheme, years=(1000, 9999)), min_size=1,
                             max_size=4)),
                base=draw(st.sampled_from(BASES)),
                sep=draw(st.sampled_from(['/', '\\', '/'])))


def run_codec(case, ctx):
    scheme = case['scheme']
    part = build(scheme)
    names = model.key_names(scheme)
    ctx.nt(len({tuple(k) for k in case['keys']}) > 1)
    seen = {}
    for key in case['keys']:
        label = tuple(zip(names, key))
        text = part.join(label, case['sep'])
        assert text == model.key_dir(scheme, key).replace('/', case['sep'])
        assert part.parse(text) == label, (text, part.parse(text))
        full = '/'.join(('', case['base'], model.key_dir(scheme, key)))
        assert part.parse(full) == label, (full, part.parse(full))
        code = part.encode(label)
        assert part.decode(code) == label, (label, code, part.decode(code))
        assert seen.setdefault(text, key) == key
        if scheme['kind'] == 'date':
            assert len(code) == 1
            assert model.date_key(code[0], scheme['res']) == tuple(key)
        else:
            assert tuple(code) == tuple(key)
    for junk in ('', 'foo', 'foo=1/bar', '.zcollection'):
        try:
            got = part.parse(junk)
        except ValueError:
            continue
        assert False, f'{junk!r} parsed as {got}'


@st.composite
def config_cases(draw):
    scheme = draw(schemes())
    return dict(scheme=scheme,
                keys=draw(st.lists(keys_for(scheme, (1000, 9999)), min_size=1,
                                   max_size=3)))


def run_config(case, ctx):
    from zcollection import partitioning
    scheme = case['scheme']
    part = build(scheme)
    config = json.loads(json.dumps(part.get_config()))
    again = partitioning.get_codecs(config)
    assert type(again) is type(part)
    assert tuple(again.variables) == tuple(part.variables)
    assert again.dtype() == part.dtype(), (again.dtype(), part.dtype())
    assert len(again) == len(part)
    assert json.loads(json.dumps(again.get_config())) == json.loads(
        json.dumps(part.get_config()))
    names = model.key_names(scheme)
    for key in case['keys']:
        label = tuple(zip(names, key))
        assert again.join(label, '/') == part.join(label, '/')
        assert again.parse(part.join(label, '/')) == label
        assert again.encode(label) == part.encode(label)
    ctx.nt(len(case['keys']) > 1 or scheme.get('dtype') is not None)


@st.composite
def listing_cases(draw):
    scheme = draw(schemes())
    keys = draw(st.lists(keys_for(scheme, (1000, 9999)), max_size=7))
    return dict(scheme=scheme,
                keys=keys,
                base=draw(st.sampled_from(BASES)),
                files=draw(st.booleans()),
                hidden=draw(st.booleans()),
                fs=draw(st.sampled_from(['memory', 'local'])))


def run_listing(case, ctx):
    import numpy
    import zcollection
    from zcollection import dataset
    env.client()
    scheme = case['scheme']
    part = build(scheme)
    names = ['time'] if scheme['kind'] == 'date' else list(scheme['vars'])
    variables = []
    for name in names:
        data = numpy.zeros(1, 'M8[s]' if scheme['kind'] == 'date' else 'int64')
        variables.append(dataset.Array(name, data, ('num_lines', )))
    zds = dataset.Dataset(variables)
    with env.Place(case['fs']) as place:
        base = place.path(case['base'])
        col = zcollection.create_collection(names[0], zds, part, base,
                                            filesystem=place.fs)
        want = sorted({tuple(key) for key in case['keys']})
        for key in reversed(want):
            path = '/'.join((base, model.key_dir(scheme, key)))
            place.fs.makedirs(path + '/time', exist_ok=True)
            with place.fs.open(path + '/.zgroup', 'w') as stream:
                stream.write('{"zarr_format": 2}')
        if case['files']:
            with place.fs.open(base + '/notes.txt', 'w') as stream:
                stream.write('x')
        if case['hidden']:
            place.fs.makedirs(base + '/.cache/inner', exist_ok=True)
            with place.fs.open(base + '/.cache/inner/file', 'w') as stream:
                stream.write('x')
        expected = ['/'.join((base, model.key_dir(scheme, k))) for k in want]
        assert list(col.partitions()) == expected, \
            f'{list(col.partitions())} != {expected}'
        assert list(col.partitions(lock=True)) == expected
        relative = [model.key_dir(scheme, k) for k in want]
        assert list(col.partitions(relative=True)) == relative, \
            f'{list(col.partitions(relative=True))} != {relative}'
        for path, key in zip(expected, want):
            assert col.partitioning.parse(path) == model.labelled(scheme, key)
        got = []
        assert list(col.partitions(
            filters=lambda k: got.append(k) or True)) == expected
        assert got == [model.key_dict(scheme, k) for k in want], got
        ctx.nt(len(want) > 1)
        ctx.label(case['fs'])
        if '=' in case['base']:
            ctx.label('key-like base')


SUBS = [
    Sub('codec', codec_cases(), run_codec, 300, 4000),
    Sub('config', config_cases(), run_config, 150, 1000),
    Sub('listing', listing_cases(), run_listing, 250, 3000),
]
