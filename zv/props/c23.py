"""C23: validation reports exactly the unreadable partitions."""
import json
import warnings

import numcodecs
import numpy
from hypothesis import strategies as st

from .. import env, gen
from ..core import Sub
from ..world import World

RULE = ('A case is a collection (1-6 partitions, variables with any codec, '
        'filter, chunking, possibly variables not partitioned), 0-4 damages '
        '(any partition; its consolidated metadata removed, emptied, '
        'truncated, replaced by garbage or by other JSON values, its '
        'directory emptied; a chunk of any of its variables emptied, '
        'truncated anywhere, extended, overwritten by zeros; its '
        'non-consolidated metadata damaged; another file added), a filter '
        'and a sequence of validations with or without repair. Oracle: a '
        'partition is readable when its metadata is that which was written '
        'and every chunk file decodes (numcodecs only) to the size of a '
        'chunk. Reports must be exactly the unreadable selected partitions, '
        'once each; files are unchanged without repair, and with repair '
        'exactly those directories disappear, the rest loads as before and '
        'the removed partitions can be inserted again. Non-trivial: at least '
        'one partition is unreadable.')
ASSUMPTIONS = ['chunks of variables compressed by Blosc are overwritten, '
               'not truncated (its decoder reads out of bounds)',
               'removing a chunk is not a damage: absent chunks are those '
               'full of fill values', 'damages are made while nothing else '
               'uses the collection']

META = ('remove', 'empty', 'cut', 'garbage', '{}', 'null', '[]', 'dir')
CHUNK = ('chunk empty', 'chunk cut', 'chunk cut', 'chunk more', 'chunk zero',
         'chunk flip')
OTHER = ('zarray', 'zattrs', 'file')


@st.composite
def damages(draw):
    kind = draw(st.sampled_from(META + CHUNK + CHUNK + OTHER))
    return [kind, draw(st.integers(0, 5)), draw(st.integers(0, 40)),
            draw(st.integers(0, 1000))]


@st.composite
def cases(draw):
    schema = draw(gen.schemas(max_vars=3, immutable=draw(st.booleans())))
    for var in schema['vars']:
        if var.get('comp') == 'zlib' and draw(st.booleans()):
            var['comp'] = 'gzip'
    return dict(schema=schema,
                batch=draw(gen.batches(max_parts=6)),
                damages=draw(st.lists(damages(), min_size=0, max_size=4)),
                delayed=draw(st.booleans()),
                calls=draw(st.lists(st.tuples(
                    st.booleans(), st.one_of(
                        st.none(), st.none(), st.integers(0, 63))).map(list),
                    min_size=1, max_size=3)))


def apply(w, damage):
    """Damage one partition."""
    kind, which, file, arg = damage
    fs = w.place.fs
    key = w.keys[which % len(w.keys)]
    base = w.path(key)
    meta = base + '/.zmetadata'
    if kind in META:
        if not fs.exists(meta):
            return
        if kind == 'remove':
            fs.rm(meta)
        elif kind == 'dir':
            # The partition still exists: it holds a hidden file.
            fs.rm(base, recursive=True)
            fs.makedirs(base, exist_ok=True)
            fs.pipe_file(base + '/.hidden', b'')
        elif kind == 'cut':
            data = fs.cat_file(meta)
            fs.pipe_file(meta, data[:arg % max(len(data) - 2, 1)])
        else:
            fs.pipe_file(meta, {'empty': b'', 'garbage': b'\x80\x02abc'}.get(
                kind, kind.encode()))
        return
    files = sorted(fs.find(base))
    if kind in CHUNK:
        files = [f for f in files if not f.rsplit('/', 1)[-1].startswith('.')]
        if not files:
            return
        path = files[file % len(files)]
        data = fs.cat_file(path)
        name = path[len(base):].strip('/').split('/')[0]
        blosc = {v['name'] for v in w.schema['vars']
                 if v.get('comp') == 'blosc'}
        lz4 = {v['name'] for v in w.schema['vars'] if v.get('comp') == 'lz4'}
        if name in blosc and kind in ('chunk cut', 'chunk empty') or \
                name in blosc | lz4 and kind == 'chunk flip':
            # The decoder of Blosc reads after the end of truncated buffers.
            kind = 'chunk zero'
        if kind == 'chunk flip' and data:
            at = arg % len(data)
            fs.pipe_file(path, data[:at] + bytes([data[at] ^ (1 << file % 8)])
                         + data[at + 1:])
            return
        gzip = {v['name'] for v in w.schema['vars']
                if v.get('comp') == 'gzip'}
        if name in gzip and len(data) and kind in ('chunk cut', 'chunk empty'):
            # Nothing is a valid GZip stream of nothing.
            kind, arg = 'chunk cut', 1 + arg % (len(data) - 1)
        fs.pipe_file(path, dict(
            empty=b'', cut=data[:arg % max(len(data), 1)],
            more=data + b'\0' * (1 + arg % 9),
            flip=data, zero=b'\0' * len(data))[kind.split()[1]])
    elif kind == 'file':
        fs.pipe_file(base + '/notes.txt', b'x')
    else:
        files = [f for f in files if f.endswith('/.' + kind)]
        if files:
            fs.pipe_file(files[file % len(files)], b'{')


def readable(fs, base, intact):
    """The data of the partition can be decoded, without using Zarr."""
    try:
        if fs.cat_file(base + '/.zmetadata') != intact:
            return False
    except FileNotFoundError:
        return False
    items = json.loads(intact)['metadata']
    for name, config in items.items():
        if not name.endswith('/.zarray'):
            continue
        codecs = [numcodecs.get_codec(c) for c in config['filters'] or []]
        if config['compressor']:
            codecs.append(numcodecs.get_codec(config['compressor']))
        size = int(numpy.prod(config['chunks'])) * numpy.dtype(
            config['dtype']).itemsize
        folder = base + '/' + name[:-len('/.zarray')]
        for path in fs.find(folder):
            if path.rsplit('/', 1)[-1].startswith('.'):
                continue
            data = fs.cat_file(path)
            try:
                for codec in reversed(codecs):
                    data = codec.decode(data)
                if numpy.asarray(memoryview(data)).nbytes != size:
                    return False
            except Exception:  # noqa: BLE001
                return False
    return True


def run(case, ctx):
    env.client()
    with World(case['schema'], case['batch'], delayed=case['delayed']) as w:
        fs = w.place.fs
        intact = {k: fs.cat_file(w.path(k) + '/.zmetadata') for k in w.keys}
        content = {k: w.place.snapshot(w.path(k)) for k in w.keys}
        for damage in case['damages']:
            apply(w, damage)
        bad = {k for k in w.keys if not readable(fs, w.path(k), intact[k])}
        # Readable, but the values may not be those written.
        odd = {k for k in w.keys if k not in bad and any(
            w.place.snapshot(w.path(k)).get(f) != data
            for f, data in content[k].items()
            if not f.rsplit('/', 1)[-1].startswith('.'))}
        ctx.nt(bool(bad))
        ctx.label(f'unreadable {min(len(bad), 2)}')
        removed = set()
        for step, (fix, mask) in enumerate(case['calls']):
            where = f'call {step} fix={fix}'
            chosen = w.keys if mask is None else w.pick(mask)
            filters = None if mask is None else w.only(chosen)
            before = w.place.snapshot(w.base)
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                got = w.col.validate_partitions(filters=filters, fix=fix)
            want = sorted(w.path(k) for k in chosen if k in bad)
            assert sorted(got) == want, f'{where}: {sorted(got)} != {want}'
            after = w.place.snapshot(w.base)
            if fix:
                gone = [k for k in chosen if k in bad]
                before = {f: data for f, data in before.items()
                          if not any(under(f, w, k) for k in gone)}
                for k in gone:
                    removed.add(k)
                    bad.discard(k)
                    w.parts.pop(k)
            assert after == before, f'{where}: files changed'
            left = [k for k in w.keys if k not in bad and k not in odd]
            assert list(w.col.partitions()) == [
                w.path(k) for k in w.keys], f'{where}: partitions'
            w.compare(w.col.load(delayed=False, filters=w.only(left)),
                      f'{where} load', keys=left)
        if removed and not bad and not odd:
            again = [b for b in case['batch']]
            w.insert(again)
            w.check('inserted again', lazy=False)
            ctx.label('inserted again')


def under(path, w, key):
    folder = w.path(key)[len(w.base):].strip('/')
    return path.lstrip('/').startswith(folder + '/') or \
        path.lstrip('/') == folder or (w.path(key) + '/') in path


SUBS = [Sub('damage', cases(), run, 60, 1500)]
