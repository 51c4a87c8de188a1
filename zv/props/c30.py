"""C30: attributes come from the collection and survive every operation."""
import numpy
from hypothesis import strategies as st

from .. import env, gen
from ..core import Sub
from ..world import World
from . import c16

RULE = ('A case is a collection created with generated attributes (JSON '
        'values) on the dataset and its variables (partitioned or not), and '
        '2-8 operations: inserts of datasets carrying other attributes on '
        'any variable and on the dataset, or none (in memory, lazy, with the '
        'time series merge, with a merge function setting attributes, '
        'leaving variables out), updates, additions of variables with '
        'attributes, variable removals, partition drops, reopenings, copies, '
        'views with variables having attributes (added, dropped, updated, '
        'reopened), loads whose result gets its attributes changed. After '
        'every operation every load (eager, lazy, filtered, by indexer, '
        'selection of variables, from the copy, from the view) has exactly '
        'the attributes given when the collection, or the added variable, '
        'was created, as well as the metadata in memory and reopened. '
        'Non-trivial: an insert carried other attributes while the '
        'collection has some.')
ASSUMPTIONS = ['attributes are JSON values',
               'one in-process Dask worker with one thread']

KINDS = ('insert', 'insert', 'insert', 'update', 'add', 'delvar', 'drop',
         'reopen', 'copy', 'view', 'view', 'change')


@st.composite
def ops(draw):
    kind = draw(st.sampled_from(KINDS))
    op = dict(op=kind, n=draw(st.integers(0, 31)), lazy=draw(st.booleans()),
              attrs=draw(c16.ATTRS), more=draw(c16.ATTRS))
    if kind == 'insert':
        op.update(batch=draw(gen.batches(max_parts=3, max_rows=3)),
                  merge=draw(st.sampled_from([None, None, 'time', 'user'])))
    return op


@st.composite
def cases(draw):
    schema = draw(gen.schemas(max_vars=3, codecs=False,
                              immutable=draw(st.booleans())))
    for var in schema['vars']:
        var['attrs'] = draw(c16.ATTRS)
    return dict(schema=schema, attrs=draw(c16.ATTRS),
                batch=draw(gen.batches(max_parts=3, max_rows=3)),
                delayed=draw(st.booleans()),
                ops=draw(st.lists(ops(), min_size=2, max_size=8)))


def attributes(items):
    from zcollection import dataset
    return [dataset.Attribute(k, v) for k, v in items.items()]


def decorate(zds, op):
    """Other attributes on the dataset and some of its variables."""
    zds.attrs = tuple(attributes(op['attrs']))
    for ix, var in enumerate(zds.variables.values()):
        if op['n'] >> (ix % 5) & 1:
            var.attrs = attributes(op['more'])


def check_dataset(zds, names, w, attrs, where):
    c16.check_attrs(zds.attrs, attrs, f'{where} dataset')
    for name, var in zds.variables.items():
        assert name in names, f'{where}: {name}'
        c16.check_attrs(var.attrs, names[name], f'{where} variable {name}')


def expect(w):
    """Variable -> its attributes."""
    out = {name: {} for name in w.dims}
    out.update({v['name']: v.get('attrs') or {} for v in w.schema['vars']})
    return out


def check_all(col, w, attrs, where, n, keys=None):
    want = expect(w)
    c16.check_attrs(col.metadata.attrs, attrs, f'{where} metadata')
    assert set(col.metadata.variables) == set(want), where
    for name, var in col.metadata.variables.items():
        c16.check_attrs(var.attrs, want[name], f'{where} metadata {name}')
    keys = w.keys if keys is None else keys
    if not keys:
        return
    for delayed in (False, True):
        zds = col.load(delayed=delayed)
        assert set(zds.variables) == set(want), f'{where}: {zds.variables}'
        check_dataset(zds, want, w, attrs, f'{where} delayed={delayed}')
    key = keys[n % len(keys)]
    check_dataset(col.load(filters=w.only([key]), delayed=bool(n % 2)), want,
                  w, attrs, f'{where} filtered')
    check_dataset(col.load(indexer=[(w.labelled(key), slice(0, 1))],
                           delayed=bool(n % 2)), want, w, attrs,
                  f'{where} indexer')
    name = list(want)[n % len(want)]
    check_dataset(col.load(selected_variables=[name], delayed=bool(n % 3)),
                  want, w, attrs, f'{where} selected')


def user_merge(existing, inserted, axis, dim, **_):
    """Keeps the inserted records, with attributes of its own."""
    from zcollection import dataset
    inserted.attrs = (dataset.Attribute('merged', True), )
    for var in inserted.variables.values():
        var.attrs = [dataset.Attribute('merged', 1)]
    return inserted


def run(case, ctx):
    env.client()
    attrs = case['attrs']
    with World(case['schema'], case['batch'], attrs=attrs,
               delayed=case['delayed']) as w:
        check_all(w.col, w, attrs, 'created', 0)
        for step, op in enumerate(case['ops']):
            where = f"step {step} {op['op']}"
            if not execute(w, op, step, where, attrs, ctx):
                continue
            ctx.label(op['op'])
            check_all(w.col, w, attrs, where, op['n'])
        check_all(w.reopen('r'), w, attrs, 'reopened', 1)


def execute(w, op, step, where, attrs, ctx):
    from zcollection import merging
    kind = op['op']
    if kind == 'insert':
        batch = [[p, o, r + (step + 1) * 1000] for p, o, r in op['batch']]
        skip = w.skippable(op['n']) if op['n'] % 3 == 0 else ()
        zds = w.dataset(batch, delayed=op['lazy'], skip=skip)
        decorate(zds, op)
        ctx.nt(bool(op['attrs'] or op['more']) and
               bool(attrs or any(expect(w).values())))
        w.col.insert(zds, merge_callable={
            None: None, 'time': merging.merge_time_series,
            'user': user_merge}[op['merge']])
        # Only the attributes are compared here: the content is read back.
        w.note_insert(batch, skip)
    elif kind == 'update':
        if not w.keys:
            return False
        axis = w.schema['axis']
        names = [v['name'] for v in w.schema['vars'] if w.dim in v['dims']]
        if not names:
            return False
        name = names[op['n'] % len(names)]
        w.col.update(lambda zds: {name: zds[name].values}, delayed=op['lazy'])
        assert axis in w.col.metadata.variables
    elif kind == 'add':
        var = dict(name=f'new{step}', dtype='int16', dims=[w.dim], fill=1,
                   attrs=op['attrs'], vix=w.count)
        w.count += 1
        w.col.add_variable(gen.meta_variable(var))
        w.schema['vars'].append(var)
        for key in w.keys:
            w.parts[key] = {**w.parts[key], var['name']: None}
    elif kind == 'delvar':
        names = [v['name'] for v in w.schema['vars'] if w.dim in v['dims']]
        if not names:
            return False
        name = names[op['n'] % len(names)]
        w.col.drop_variable(name)
        w.schema['vars'] = [v for v in w.schema['vars'] if v['name'] != name]
    elif kind == 'drop':
        keys = w.pick(op['n'])
        w.col.drop_partitions(filters=w.only(keys))
        for key in keys:
            del w.parts[key]
    elif kind == 'reopen':
        w.col = w.reopen('w')
    elif kind == 'copy':
        other = w.col.copy(w.place.path(f'copy{step}'))
        check_all(other, w, attrs, where, op['n'])
    elif kind == 'view':
        if not w.keys:
            return False
        check_view(w, op, step, where, attrs)
    elif kind == 'change':
        if not w.keys:
            return False
        # Changing what was loaded does not change the collection.
        zds = w.col.load(delayed=op['lazy'])
        for item in (zds, *zds.variables.values(), *w.col.variables()):
            if hasattr(item.attrs, 'append'):
                item.attrs.append(attributes({'extra': 1})[0])
        decorate(zds, dict(op, n=31))
        for var in w.col.variables():
            var.attrs = attributes(op['more'])
    return True


def check_view(w, op, step, where, attrs):
    import zcollection
    view = zcollection.create_view(
        w.place.path(f'view{step}'),
        zcollection.view.ViewReference(w.base, w.place.fs),
        filesystem=w.place.fs)
    given = {'one': op['attrs'], 'two': op['more']}
    for name, items in given.items():
        view.add_variable(gen.meta_variable(dict(
            name=name, dtype='int8', dims=[w.dim], fill=3, attrs=items)))
    want = {**expect(w), **given}
    for round_ in range(3):
        for delayed in (False, True):
            zds = view.load(delayed=delayed)
            assert set(zds.variables) == set(want), where
            check_dataset(zds, want, w, attrs, f'{where} round {round_}')
        zds = view.load(selected_variables=['one'], delayed=op['lazy'])
        check_dataset(zds, want, w, attrs, f'{where} selected {round_}')
        if round_ == 0:
            axis = w.schema['axis']
            view.update(lambda zds: {'one': numpy.ones(
                zds[axis].shape, 'int8')}, delayed=op['lazy'])
            if op['n'] % 2:
                view.drop_variable('two')
                del want['two']
        else:
            view = zcollection.open_view(w.place.path(f'view{step}'),
                                         filesystem=w.place.fs)
            for name, var in view.metadata.variables.items():
                c16.check_attrs(var.attrs, want[name],
                                f'{where} view metadata {name}')


SUBS = [Sub('history', cases(), run, 40, 800)]
