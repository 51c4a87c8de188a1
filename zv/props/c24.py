"""C24: variables not partitioned are stored once and always available."""
import numpy
from hypothesis import strategies as st

from .. import env, gen, model
from ..core import Sub
from ..world import World
from .c09 import check_report, plain

RULE = ('A case is a collection with 1-2 variables that do not use the '
        'partitioned dimension (which may have the name of the axis or not), '
        'possibly a first insert that is refused (keys not sorted) with other '
        'values, and 2-7 operations: inserts carrying other values of these '
        'variables or leaving them out, partition drops (some or all), '
        'loads (eager, lazy, filtered, any selection of variables including '
        'only these), indexer loads, maps, overlapping maps, updates using '
        'them to compute a partitioned variable (with or without overlap), '
        'copies, views, reopenings, listings, requests to drop or update '
        'them. Oracle: the values of the first accepted insert; their stored '
        'files never change and exist nowhere else. Non-trivial: two '
        'operations executed while at least one partition exists.')
ASSUMPTIONS = ['variables left out of a later insert have a fill value',
               'one in-process Dask worker with one thread']

KINDS = ('insert', 'insert', 'drop', 'drop all', 'load', 'load', 'indexer',
         'map', 'overlap', 'update', 'update', 'copy', 'view', 'reopen',
         'delvar', 'refused update')


@st.composite
def ops(draw):
    kind = draw(st.sampled_from(KINDS))
    op = dict(op=kind, mask=draw(st.one_of(st.none(), st.integers(0, 255))),
              n=draw(st.integers(0, 31)), lazy=draw(st.booleans()),
              depth=draw(st.integers(0, 2)))
    if kind == 'insert':
        op['batch'] = draw(gen.batches(max_parts=3, max_rows=3))
    return op


@st.composite
def cases(draw):
    return dict(schema=draw(gen.schemas(max_vars=2, immutable=True)),
                batch=draw(gen.batches(max_parts=4, max_rows=3)),
                delayed=draw(st.booleans()), refused=draw(st.booleans()),
                ops=draw(st.lists(ops(), min_size=2, max_size=7)))


def left_out(w):
    """Variables not partitioned that an insert may omit."""
    names = [n for n in w.imm if w.fills[n] is not None]
    dims = {d for n, these in w.dims.items() if n not in names
            for d in these}
    return [n for n in names if set(w.dims[n]) <= dims]


def stored(w):
    """Files of the variables not partitioned."""
    files = w.place.snapshot(w.base)
    parts = [w.path(k)[len(w.base):] + '/' for k in w.keys]
    inside = [f for f in files if any(f.startswith(p) for p in parts)
              and any(f'/{n}/' in f for n in w.imm)]
    assert not inside, f'stored in a partition: {inside[:3]}'
    return {f: data for f, data in files.items()
            if any(f'/{n}/' in f for n in w.imm)}


def select(w, n):
    names = list(w.dims)
    if n % 4 == 0:
        return None
    if n % 4 == 1:
        return list(w.imm)
    chosen = [x for ix, x in enumerate(names) if n >> (ix % 5) & 1]
    return chosen or list(w.imm)


def run(case, ctx):
    env.client()
    with World(case['schema'], case['batch'], insert=False) as w:
        if case['refused']:
            refused(w, case['batch'], ctx)
        w.insert(case['batch'], delayed=case['delayed'])
        w.check('first insert')
        files = stored(w)
        assert all(any(f'/{n}/' in f for f in files) for n in w.imm)
        done = 0
        for step, op in enumerate(case['ops']):
            where = f"step {step} {op['op']}"
            keys = w.keys if op['mask'] is None else w.pick(op['mask'])
            if execute(w, op, keys, step, where):
                ctx.label(op['op'])
                done += 1
            got = list(w.col.partitions())
            assert got == [w.path(k) for k in w.keys], f'{where}: {got}'
            assert stored(w) == files, f'{where}: stored files changed'
        w.check('end')
        ctx.nt(done > 1)


def refused(w, batch, ctx):
    """A first insert, refused, carrying other values."""
    other = [[p, o, r] for p, o, r in batch]
    if len(other) < 2:
        return
    data = model.arrays(w.schema, other, 7)
    size = len(data[w.schema['axis']])
    for name, arr in data.items():
        if w.dim in w.dims[name]:
            data[name] = model.take(arr, w.dims[name], w.dim,
                                    numpy.arange(size)[::-1])
    try:
        w.col.insert(gen.build(w.schema, data))
    except ValueError:
        ctx.label('first insert refused')
        assert list(w.col.partitions()) == []
        return
    raise AssertionError('keys not sorted accepted')


def execute(w, op, keys, step, where):
    kind = op['op']
    filters = None if op['mask'] is None else w.only(keys)
    if kind == 'insert':
        batch = [[p, o, r + (step + 1) * 1000] for p, o, r in op['batch']]
        skip = left_out(w) if op['n'] % 3 == 0 else ()
        zds = w.dataset(batch, delayed=op['lazy'], skip=skip,
                        version=step + 1)
        w.col.insert(zds)
        w.note_insert(batch, version=step + 1)
        w.check(where, lazy=False)
    elif kind in ('drop', 'drop all'):
        keys = w.keys if kind == 'drop all' else keys
        w.col.drop_partitions(filters=w.only(keys))
        for key in keys:
            del w.parts[key]
        w.check(where, lazy=False)
    elif kind == 'load':
        names = select(w, op['n'])
        got = w.col.load(delayed=op['lazy'], filters=filters,
                         selected_variables=names)
        w.compare(got, where, keys, names, op['lazy'] if keys else None)
    elif kind == 'indexer':
        if not keys:
            return False
        wider = filters is not None
        indexer = [(w.labelled(k), slice(0, 1 + op['n'] % 2))
                   for k in (w.keys if wider else keys)]
        names = select(w, op['n'] // 2)
        got = w.col.load(delayed=op['lazy'], indexer=indexer,
                         filters=filters if wider else None,
                         selected_variables=names)
        want = {n: model.concat(
            [model.take(w.parts[k][n], w.dims[n], w.dim,
                        slice(0, 1 + op['n'] % 2)) for k in keys],
            w.dims[n], w.dim) for n in w.parts[keys[0]]}
        want.update(w.imm)
        if names is not None:
            want = {k: v for k, v in want.items() if k in names}
        w.compare(got, where, expected=want)
    elif kind in ('map', 'overlap'):
        if not keys:
            return False
        names = select(w, op['n'])
        if kind == 'map':
            depth = 0
            bag = w.col.map(plain, filters=filters, delayed=op['lazy'],
                            selected_variables=names)
        else:
            depth = op['depth']
            if names is not None and not set(names) - set(w.imm):
                # The overlap needs a partitioned variable.
                names.append(w.schema['axis'])
            bag = w.col.map_overlap(plain, depth=depth, filters=filters,
                                    delayed=op['lazy'],
                                    selected_variables=names)
        result = bag.compute()
        assert [k for k, _ in result] == [w.labelled(k) for k in keys], where
        for ix, (_, got) in enumerate(result):
            around = keys[max(0, ix - depth):ix + depth + 1]
            check_report(got, w.expected(around, names), w.dims, op['lazy'],
                         (), {}, where)
    elif kind == 'update':
        return update(w, op, keys, filters, where)
    elif kind == 'refused update':
        if not w.keys:
            return False
        before = w.place.snapshot(w.base)
        name = list(w.imm)[0]
        try:
            w.col.update(lambda zds: {name: zds[name].array})
        except Exception:  # noqa: BLE001
            pass
        assert w.place.snapshot(w.base) == before, where
    elif kind == 'delvar':
        name = list(w.imm)[op['n'] % len(w.imm)]
        before = w.place.snapshot(w.base)
        try:
            w.col.drop_variable(name)
        except ValueError:
            assert w.place.snapshot(w.base) == before, where
            assert name in w.col.metadata.variables
            return True
        raise AssertionError(f'{where}: {name} dropped')
    elif kind == 'copy':
        target = w.place.path(f'copy{step}')
        other = w.col.copy(target, filters=filters)
        w.compare(other.load(delayed=op['lazy']), where, keys)
    elif kind == 'view':
        if not keys:
            return False
        import zcollection
        view = zcollection.create_view(
            w.place.path(f'view{step}'),
            zcollection.view.ViewReference(w.base, w.place.fs),
            filesystem=w.place.fs, filters=filters)
        view.add_variable(gen.meta_variable(dict(
            name='seen', dtype='int8', dims=[w.dim], fill=3)))
        want = w.expected(keys)
        want['seen'] = numpy.full(len(want[w.schema['axis']]), 3, 'int8')
        model.compare(view.load(delayed=op['lazy']), want,
                      {**w.dims, 'seen': (w.dim, )},
                      {**w.fills, 'seen': numpy.int8(3)}, where)
    elif kind == 'reopen':
        w.col = w.reopen('w')
        w.check(where, lazy=False)
    return True


def update(w, op, keys, filters, where):
    """target = number of the values of a variable not partitioned, plus its
    first value when it can be represented."""
    targets = [v['name'] for v in w.schema['vars'] if w.dim in v['dims']
               and numpy.dtype(v['dtype']).kind in 'iuf']
    if not targets or not keys:
        return False
    target = targets[op['n'] % len(targets)]
    source = list(w.imm)[op['n'] % len(w.imm)]
    dtype = numpy.dtype(next(v['dtype'] for v in w.schema['vars']
                             if v['name'] == target))

    def number(arr):
        raw = numpy.ascontiguousarray(arr).view('uint8')
        return int(raw.astype('int64').sum() % 50) + arr.size

    def func(zds):
        arr = zds[source].array
        if hasattr(arr, 'compute'):
            arr = arr.compute()
        shape = zds[target].shape
        return {target: numpy.full(shape, number(arr), dtype)}

    kwargs = {'depth': op['depth']} if op['depth'] else {}
    names = [target, source] if op['n'] % 2 else None
    w.col.update(func, filters=filters, delayed=op['lazy'],
                 selected_variables=names, **kwargs)
    value = number(w.imm[source])
    for key in keys:
        w.parts[key] = dict(w.parts[key])
        w.parts[key][target] = numpy.full_like(w.parts[key][target], value)
    w.check(where, lazy=False)
    return True


SUBS = [Sub('history', cases(), run, 40, 800)]
