"""C17: a view shows the reference plus its own variables."""
import numpy
from hypothesis import strategies as st

from .. import gen, model, spyfs
from ..core import Sub
from ..viewworld import ViewWorld
from .c09 import check_report, informed, plain
from .c12 import Fault

RULE = ('A case is a reference collection, a view selecting all or some of '
        'its partitions (on the same or another file system) and a history of '
        '1-7 operations: add a variable, drop one, update (filter, overlap, '
        'trimmed or not, masked or plain values), load (filter, selection of '
        'variables), map, overlapping map, reopen, and refused requests '
        '(modifying or shadowing variables of the reference, unknown names). '
        'After each one the view equals the model and every file of the '
        'reference keeps its bytes. Non-trivial: at least one update of at '
        'least one partition. part failed: a storage error is raised at a '
        'generated operation of the addition (or the removal) of a '
        'variable; a failed addition leaves the variables and the content '
        'of the view as they were, a failed removal leaves the view '
        'loadable, the variable complete or absent; repeating the request '
        'succeeds and an added variable is filled with its fill value. '
        'Non-trivial there: the error occurred in a view with partitions.')
ASSUMPTIONS = ['the reference does not change (see C18)',
               'variables of views have a fill value and the dimensions of a '
               'variable of the reference',
               'functions do not read the variables they update with an '
               'overlap',
               'one in-process Dask worker with one thread']


@st.composite
def view_variables(draw):
    dtype = draw(st.sampled_from(['int8', 'int32', 'int64', 'uint16',
                                  'float32', 'float64', 'M8[ns]']))
    kind = numpy.dtype(dtype).kind
    fill = draw(st.sampled_from(
        {'f': [0.0, -1.0, 9999.0], 'i': [0, 1, 100], 'u': [0, 1, 100],
         'M': [0, 1]}[kind]))
    comp = draw(st.sampled_from([None, 'zlib', 'blosc']))
    return dict(dtype=dtype, fill=fill, comp=comp, like=draw(
        st.integers(0, 5)), attrs=draw(st.sampled_from(
            [None, {'units': 'm'}])))


@st.composite
def operations(draw):
    kind = draw(st.sampled_from(['add', 'add', 'drop', 'update', 'update',
                                 'update', 'load', 'map', 'overlap', 'reopen',
                                 'refused']))
    mask = st.one_of(st.none(), st.integers(0, 31))
    if kind == 'add':
        return [kind, draw(view_variables())]
    if kind == 'drop':
        return [kind, draw(st.integers(0, 5))]
    if kind == 'update':
        return [kind, draw(st.integers(0, 5)), draw(mask),
                draw(st.sampled_from([0, 0, 1, 2])), draw(st.booleans()),
                draw(st.booleans()), draw(st.booleans()),
                draw(st.integers(0, 9)), draw(st.sampled_from([None, 1, 2]))]
    if kind in ('load', 'map', 'overlap'):
        return [kind, draw(mask), draw(st.one_of(st.none(), st.just(0),
                                                 st.integers(0, 255))),
                draw(st.booleans()), draw(st.integers(0, 3)),
                draw(st.booleans())]
    if kind == 'refused':
        return [kind, draw(st.sampled_from(['shadow', 'again', 'update ref',
                                            'update unknown', 'drop ref',
                                            'drop unknown', 'dims',
                                            'create']))]
    return [kind]


@st.composite
def cases(draw):
    schema = draw(gen.schemas(max_vars=2, codecs=False,
                              immutable=draw(st.sampled_from(
                                  [False, False, True]))))
    ops = [['add', draw(view_variables())]] + draw(
        st.lists(operations(), min_size=3, max_size=7))
    return dict(schema=schema,
                batch=draw(gen.batches(max_parts=4, max_part=6, max_rows=4)),
                select=draw(st.one_of(st.none(), st.none(),
                                      st.integers(0, 15))),
                same=draw(st.booleans()), ops=ops)


def values(var, shape, axis, time, shift):
    """Deterministic new values of a variable for the records of `time`."""
    dtype = numpy.dtype(var['dtype'])
    n = len(time)
    code = numpy.roll(time.view('int64') // 3, 1) + n * 5 + shift
    layout = [1] * len(shape)
    layout[axis] = n
    full = list(shape)
    full[axis] = n
    code = numpy.broadcast_to((code % 97).reshape(layout), full)
    extra = numpy.arange(int(numpy.prod(full))).reshape(full) % 3
    code = code + extra
    if dtype.kind == 'M':
        return code.astype('int64').view(dtype)
    return code.astype(dtype)


def raw(var):
    arr = var.array
    return numpy.asarray(arr.compute() if hasattr(arr, 'compute') else arr)


def masked(arr):
    return numpy.arange(arr.size).reshape(arr.shape) % 3 == 1


def update(w, op):
    """Update one variable of the view; the model follows."""
    _, ix, mask, depth, trim, info, ma, shift, npart = op
    if not w.vvars:
        return False
    names = sorted(w.vvars)
    name = names[ix % len(names)]
    var = w.vvars[name]
    seen = w.seen
    keys = seen if mask is None else [k for i, k in enumerate(seen)
                                      if mask >> i & 1]
    filters = None if mask is None else w.only(keys)
    axis = var['dims'].index(w.dim)
    trim = trim or not info or depth == 0
    dims, dim, time = var['dims'], w.dim, w.schema['axis']
    sizes = [w.schema['extra'].get(d, 0) for d in dims]

    def compute(moments, where):
        arr = values(var, sizes, axis, moments, shift)
        if where is not None:
            arr = model.take(arr, dims, dim, where)
        if ma:
            arr = numpy.ma.array(arr, mask=masked(arr))
        return arr

    if info:

        def func(zds, partition_info=None):
            where = partition_info[1] if not trim else None
            return {name: compute(raw(zds[time]), where)}
    else:

        def func(zds):
            return {name: compute(raw(zds[time]), None)}

    w.view.update(func, depth=depth, filters=filters, trim=trim,
                  npartitions=npart, delayed=bool(shift % 2))
    fill = model.decode_fill(var['dtype'], var['fill'])
    for ix, key in enumerate(keys):
        around = keys[max(0, ix - depth):ix + depth + 1]
        moments = numpy.concatenate([w.parts[k][time] for k in around])
        start = sum(w.size(k) for k in around if k < key)
        where = slice(start, start + w.size(key))
        arr = compute(moments, None if trim else where)
        if ma:
            arr = arr.filled(fill)
        if trim:
            arr = model.take(arr, dims, dim, where)
        w.vparts[key][name] = numpy.asarray(arr)
    return bool(keys)


def names_of(w, mask):
    if mask is None:
        return None
    return [n for ix, n in enumerate(sorted(w.alldims)) if mask >> ix & 1]


def refused(w, what, var):
    import zcollection
    axis = w.schema['axis']
    mine = next(iter(w.vvars), None)

    def func(zds):
        return {target: raw(zds[axis])}

    target = 'nope'
    try:
        if what == 'shadow':
            w.view.add_variable(gen.meta_variable(
                dict(name=axis, dtype='int8', dims=[w.dim], fill=0)))
        elif what == 'again':
            if mine is None:
                return
            w.view.add_variable(gen.meta_variable(
                dict(name=mine, dtype='int8', dims=[w.dim], fill=0)))
        elif what == 'dims':
            w.view.add_variable(gen.meta_variable(
                dict(name='bad', dtype='int8', dims=[w.dim, 'zz'], fill=0)))
        elif what == 'update ref':
            if not w.seen:
                return
            target = axis
            w.view.update(func)
        elif what == 'update unknown':
            if not w.seen:
                return
            w.view.update(func)
        elif what == 'drop ref':
            w.view.drop_variable(axis)
        elif what == 'drop unknown':
            w.view.drop_variable('nope')
        else:
            zcollection.create_view(
                w.vbase, zcollection.view.ViewReference(w.base, w.place.fs),
                filesystem=w.vplace.fs)
    except ValueError:
        return
    assert False, f'{what} was accepted'


def run(case, ctx):
    with ViewWorld(case['schema'], case['batch'], select=case['select'],
                   same=case['same']) as w:
        before = w.place.snapshot(w.base)
        count = 0
        shapes = sorted({tuple(d) for d in w.dims.values() if w.dim in d})
        for ix, op in enumerate(case['ops']):
            where = f'step {ix} {op[0]}'
            vbefore = w.vplace.snapshot(w.vbase)
            if op[0] == 'add':
                var = dict(op[1], name=f'view{count}')
                var['dims'] = list(shapes[var['like'] % len(shapes)])
                count += 1
                w.add(var)
            elif op[0] == 'drop':
                if not w.vvars:
                    continue
                names = sorted(w.vvars)
                w.drop(names[op[1] % len(names)])
            elif op[0] == 'update':
                if update(w, op):
                    ctx.nt()
                    ctx.label(f'update depth {op[3]}')
            elif op[0] in ('load', 'map', 'overlap'):
                look(w, op, where)
                assert w.vplace.snapshot(w.vbase) == vbefore, \
                    f'{where}: view modified'
                ctx.label(op[0])
            elif op[0] == 'reopen':
                w.view = w.reopen_view()
                assert list(w.view.metadata.variables) == list(w.vvars), \
                    f'{where}: {list(w.view.metadata.variables)}'
            else:
                refused(w, op[1], None)
                assert w.vplace.snapshot(w.vbase) == vbefore, \
                    f'{where}: view modified'
                assert list(w.view.metadata.variables) == list(w.vvars)
                ctx.label('refused ' + op[1])
            w.vcheck(where, lazy=ix % 2 == 0)
            assert w.place.snapshot(w.base) == before, \
                f'{where}: reference modified'
        w.vcheck('reopened', w.reopen_view())


def look(w, op, where):
    kind, mask, select, delayed, depth, info = op
    if not w.vvars:
        return
    keys = w.seen if mask is None else [k for i, k in enumerate(w.seen)
                                        if mask >> i & 1]
    filters = None if mask is None else w.only(keys)
    names = names_of(w, select)
    options = dict(delayed=delayed, filters=filters, selected_variables=names)
    if kind == 'load':
        zds = w.view.load(**options)
        if names is not None and not names:
            assert zds is None or not zds.variables
            return
        w.vcompare(zds, where, keys, names)
        return
    if not keys:
        return
    if names or (names is not None and kind == 'overlap'):
        names = sorted(set(names) | {w.schema['axis']})
        options['selected_variables'] = names
    func = informed if info else plain
    if kind == 'map':
        result = w.view.map(func, 5, **options).compute()
        depth = 0
    else:
        result = w.view.map_overlap(func, 5, depth=depth, **options).compute()
    assert [k for k, _ in result] == [w.labelled(k) for k in keys], \
        f'{where}: labels {[k for k, _ in result]}'
    for ix, key in enumerate(keys):
        around = keys[max(0, ix - depth):ix + depth + 1]
        got = result[ix][1]
        check_report(got, w.vexpected(around, names), w.alldims, delayed,
                     (5, ), {}, f'{where} {key}')
        if info and kind == 'overlap':
            start = sum(w.size(k) for k in around if k < key)
            assert got['info'][0] == w.dim and \
                range(10**6)[got['info'][1]] == range(
                    start, start + w.size(key)), f"{where} {got['info']}"


@st.composite
def fault_cases(draw):
    return dict(schema=draw(gen.schemas(max_vars=2, codecs=False)),
                batch=draw(gen.batches(max_parts=3, max_part=6, max_rows=3)),
                empty=draw(st.sampled_from([False, False, False, True])),
                variables=draw(st.lists(view_variables(), min_size=2,
                                        max_size=3)),
                drop=draw(st.sampled_from([False, False, True])),
                faults=draw(st.lists(st.integers(0, 999), min_size=1,
                                     max_size=4)))


def run_faults(case, ctx):
    place = spyfs.SpyPlace(case['schema']['fs'])
    try:
        with ViewWorld(case['schema'], case['batch'], place=place,
                       select=0 if case['empty'] else None) as w:
            faults(w, case, ctx)
    finally:
        place.close()


def faults(w, case, ctx):
    shapes = sorted({tuple(d) for d in w.dims.values() if w.dim in d})
    specs = [dict(spec, name=f'view{ix}',
                  dims=list(shapes[spec['like'] % len(shapes)]))
             for ix, spec in enumerate(case['variables'])]
    for ix, spec in enumerate(specs):
        if not case['drop'] and ix == len(specs) - 1:
            break
        w.add(spec)
        update(w, ['update', ix, None, 0, True, False, False, ix + 3, None])
    spec = specs[-1]
    name = spec['name']

    def request():
        if case['drop']:
            w.view.drop_variable(name)
        else:
            w.view.add_variable(gen.meta_variable(spec))

    before = w.vplace.snapshot(w.vbase)
    reference = w.place.snapshot(w.base)
    vvars = dict(w.vvars)
    vparts = {k: dict(v) for k, v in w.vparts.items()}
    fault = Fault()
    with spyfs.watching(fault):
        fault.arm(None)
        request()
    total = fault.total
    for item in case['faults'] if total else ():
        w.vplace.restore(before, w.vbase)
        w.vvars = dict(vvars)
        w.vparts = {k: dict(v) for k, v in vparts.items()}
        w.view = w.reopen_view()
        fault.arm(item * total // 1000)
        raised = None
        with spyfs.watching(fault):
            try:
                request()
            except Exception as exc:  # noqa: BLE001
                raised = exc
        where = f'fault {fault.at} of {total} ({fault.fired}) {raised!r}'
        fault.arm(None)
        ctx.nt(bool(w.seen))
        ctx.label('drop' if case['drop'] else 'add')
        assert raised is not None, f'{where}: hidden'
        assert w.place.snapshot(w.base) == reference, \
            f'{where}: reference changed'
        names = list(w.reopen_view().metadata.variables)
        if case['drop']:
            if name not in names:
                del w.vvars[name]
                for part in w.vparts.values():
                    part.pop(name, None)
            w.view = w.reopen_view()
            assert sorted(names) == sorted(w.vvars), f'{where}: {names}'
        else:
            assert names == list(vvars), f'{where}: stored {names}'
            assert list(w.view.metadata.variables) == list(vvars), \
                f'{where}: {list(w.view.metadata.variables)}'
        w.vcheck(where, lazy=False)
        w.vcheck(f'{where} reopened', w.reopen_view(), lazy=False)
        if case['drop']:
            w.view = w.reopen_view()
            if name in w.vvars:
                w.drop(name)
            w.vcheck(f'{where} dropped', lazy=False)
        w.add(spec)
        w.vcheck(f'{where} added', lazy=False)
        w.vcheck(f'{where} added, reopened', w.reopen_view())


SUBS = [Sub('history', cases(), run, 30, 400),
        Sub('failed', fault_cases(), run_faults, 12, 200)]
