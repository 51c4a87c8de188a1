"""C14: adding or dropping a variable touches exactly that variable."""
import itertools
import json

import numpy
from hypothesis import strategies as st

from .. import gen, model
from ..core import Sub
from ..world import World

RULE = ('A case is a schema (with or without variables that are not '
        'partitioned), a collection with 0-4 partitions, and 2-6 operations: '
        'addition of a variable of any type over any dimensions of the '
        'collection (given as metadata, as an array or as a lazy array), '
        'removal, invalid requests (existing name, unknown dimension, no '
        'partitioned dimension, removal of a key, of the axis, of an unknown '
        'or not partitioned variable), insert, update, reopening. After each '
        'one the content is the one of the model (a new variable is entirely '
        'its fill value), the bytes of every other variable are unchanged, '
        'the stored type, chunks, codecs and fill value of the new variable '
        'are those requested; a refused request changes neither bytes nor '
        'metadata. Non-trivial: a variable is added or dropped while there '
        'are at least two partitions.')
ASSUMPTIONS = ['added variables have a fill value',
               'a variable whose tuple of dimensions is used by no variable '
               'may be refused (then nothing changes)']

BAD = ('name', 'dim', 'nodim', 'dropkey', 'dropunknown', 'dropimm',
       'dropaxis')


@st.composite
def ops(draw):
    kind = draw(st.sampled_from(['add'] * 4 + ['drop'] * 3 +
                                ['bad', 'bad', 'insert', 'update', 'reopen']))
    op = dict(op=kind)
    if kind == 'add':
        var = draw(gen.variables('new', ['?']).filter(
            lambda v: v['fill'] is not None))
        op.update(var=var, dims=draw(st.integers(0, 40)),
                  like=draw(st.sampled_from([None, 0, 1, 2, 3, 4])),
                  given=draw(st.sampled_from(['meta', 'array', 'lazy'])),
                  attrs=draw(st.sampled_from([None, {'a': 1, 'b': 'x'}])))
    elif kind == 'drop':
        op.update(var=draw(st.integers(0, 5)))
    elif kind == 'bad':
        op.update(bad=draw(st.sampled_from(BAD)), var=draw(st.integers(0, 5)))
    elif kind == 'insert':
        op.update(batch=draw(gen.batches(max_parts=3, max_rows=3)),
                  skip=draw(st.integers(0, 31)))
    elif kind == 'update':
        op.update(var=draw(st.integers(0, 5)), value=draw(st.integers(0, 1)))
    return op


@st.composite
def cases(draw):
    return dict(schema=draw(gen.schemas(max_vars=2,
                                        immutable=draw(st.booleans()))),
                first=draw(gen.batches(max_parts=4, max_rows=3)),
                empty=draw(st.integers(0, 4)) == 0,
                ops=draw(st.lists(ops(), min_size=2, max_size=6)))


def refused(func, what, *errors):
    try:
        func()
    except errors or ValueError:
        return
    raise AssertionError(f'{what}: accepted')


def config(col):
    return json.dumps(col.metadata.get_config(), sort_keys=True, default=str)


def stored_definition(w, var, key):
    """The definition found in the files of a partition."""
    path = w.path(key) + '/' + var['name'] + '/.zarray'
    meta = json.loads(w.place.fs.cat_file(path))
    sizes = {**w.schema['extra'], w.dim: w.size(key)}
    shape = [sizes[d] for d in var['dims']]
    assert meta['shape'] == shape, f'{path}: {meta}'
    sizes = [w.schema['chunks'].get(d, -1) for d in var['dims']]
    got = [min(c, s) for c, s in zip(meta['chunks'], shape)]
    # The size of the automatic chunks is left to Dask.
    chunks = [g if c == 'auto' else s if c == -1 else min(c, s)
              for c, s, g in zip(sizes, shape, got)]
    assert min(got) > 0 and got == chunks, f'{path}: chunks {got} expected {chunks}'
    assert numpy.dtype(meta['dtype']) == numpy.dtype(var['dtype']), \
        f'{path}: {meta}'
    comp = model.compressor(var.get('comp'))
    want = comp.get_config() if comp is not None else None
    assert meta['compressor'] == want, f'{path}: {meta} expected {want}'
    filt = [f.get_config()
            for f in model.filters(var.get('filt'), var['dtype'])]
    assert (meta['filters'] or []) == filt, f'{path}: {meta}'


def others(snapshot, name):
    """Files that are not of the variable nor shared metadata."""
    return {k: v for k, v in snapshot.items()
            if f'/{name}/' not in k and
            k.rsplit('/', 1)[-1] not in ('.zmetadata', '.zcollection')}


def run(case, ctx):
    with World(case['schema'], case['first'], insert=not case['empty']) as w:
        for step, op in enumerate(case['ops']):
            where = f"step {step} {op['op']}"
            kind = op['op']
            before = w.place.snapshot(w.base)
            conf = config(w.col)
            if kind == 'add':
                add(w, op, step, where, before, conf, ctx)
            elif kind == 'drop':
                names = [v['name'] for v in w.schema['vars']
                         if w.dim in v['dims']]
                if not names:
                    continue
                name = names[op['var'] % len(names)]
                w.col.drop_variable(name)
                w.schema['vars'] = [v for v in w.schema['vars']
                                    if v['name'] != name]
                for key in w.keys:
                    w.parts[key] = {k: v for k, v in w.parts[key].items()
                                    if k != name}
                after = w.place.snapshot(w.base)
                assert others(after, name) == others(before, name), \
                    f'{where}: other files changed'
                left = [f for f in after if f'/{name}/' in f]
                assert not left, f'{where}: files left {left}'
                ctx.nt(len(w.parts) > 1)
                ctx.label('dropped')
            elif kind == 'bad':
                if not bad(w, op, where):
                    continue
                ctx.label(op['bad'])
                assert w.place.snapshot(w.base) == before, \
                    f'{where} {op["bad"]}: files changed'
                assert config(w.col) == conf, f'{where}: metadata changed'
            elif kind == 'insert':
                batch = [[p, o, r + 1000 * (step + 1)]
                         for p, o, r in op['batch']]
                w.insert(batch, skip=w.skippable(op['skip']))
            elif kind == 'update':
                names = [v['name'] for v in w.schema['vars']
                         if w.dim in v['dims']]
                if not names or not w.parts:
                    continue
                name = names[op['var'] % len(names)]
                value = op['value']

                def func(zds, name=name, value=value):
                    return {name: numpy.full(zds[name].shape, value).astype(
                        zds[name].dtype)}

                w.col.update(func)
                for key in w.keys:
                    old = w.parts[key][name]
                    w.parts[key] = {**w.parts[key], name: numpy.full(
                        old.shape, value).astype(old.dtype)}
            elif kind == 'reopen':
                w.col = w.reopen('w')
            w.check(where, lazy=step % 2 == 0)
            assert set(w.col.metadata.variables) == set(w.dims), where
        col = w.reopen('r')
        assert config(col) == config(w.col), 'metadata after reopening'
        w.check('reopened', col=col)


def add(w, op, step, where, before, conf, ctx):
    from zcollection import dataset
    known = sorted({d for dims in w.dims.values() for d in dims})
    choices = [list(p) for n in range(1, len(known) + 1)
               for p in itertools.permutations(known, n) if w.dim in p]
    used = [list(d) for d in w.dims.values() if w.dim in d]
    dims = choices[op['dims'] % len(choices)] if op['like'] is None else \
        used[op['like'] % len(used)]
    var = dict(op['var'], name=f'new{step}', dims=dims, vix=w.count,
               attrs=op['attrs'])
    w.count += 1
    spec = gen.meta_variable(var)
    if op['given'] != 'meta':
        data = numpy.zeros((1, ) * len(dims), numpy.dtype(var['dtype']))
        spec = gen.variable(var, data, op['given'] == 'lazy')
        assert isinstance(spec, (dataset.Array, dataset.DelayedArray))
    name = var['name']
    try:
        w.col.add_variable(spec)
    except ValueError:
        assert dims not in used, f'{where}: refused {dims}'
        assert w.place.snapshot(w.base) == before, f'{where}: files changed'
        assert config(w.col) == conf, f'{where}: metadata changed'
        ctx.label('other dimensions refused')
        return
    w.schema['vars'].append(var)
    fill = w.fills[name]
    for key in w.keys:
        sizes = {**w.schema['extra'], w.dim: w.size(key)}
        w.parts[key] = {**w.parts[key], name: numpy.full(
            [sizes[d] for d in dims], fill, numpy.dtype(var['dtype']))}
        stored_definition(w, var, key)
    after = w.place.snapshot(w.base)
    assert others(after, name) == others(before, name), \
        f'{where}: other files changed'
    got = {a.name: a.value for a in w.col.metadata.variables[name].attrs}
    assert got == (op['attrs'] or {}), f'{where}: attributes {got}'
    ctx.nt(len(w.parts) > 1)
    ctx.label('added', op['given'])
    if not w.parts:
        ctx.label('added without partition')


def bad(w, op, where):
    kind = op['bad']
    names = list(w.dims)
    imm = [v['name'] for v in w.schema['vars'] if w.dim not in v['dims']]
    what = f'{where} {kind}'
    new = dict(name='other', dtype='float64', dims=[w.dim], fill=0.0)
    if kind == 'name':
        new['name'] = names[op['var'] % len(names)]
    elif kind == 'dim':
        new['dims'] = [w.dim, 'unknown']
    elif kind == 'nodim':
        rest = sorted(w.schema['extra'])
        new['dims'] = rest[:1 + op['var'] % 2]
    elif kind == 'dropimm':
        if not imm:
            return False
        refused(lambda: w.col.drop_variable(imm[op['var'] % len(imm)]), what)
        return True
    else:
        name = dict(dropkey='time', dropunknown='unknown',
                    dropaxis='time')[kind]
        if kind == 'dropkey' and w.part['kind'] == 'seq':
            keys = w.part['vars']
            name = keys[op['var'] % len(keys)]
        refused(lambda: w.col.drop_variable(name), what)
        return True
    refused(lambda: w.col.add_variable(gen.meta_variable(new)), what)
    return True


SUBS = [Sub('history', cases(), run, 40, 600)]
