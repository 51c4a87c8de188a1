"""C18: synchronising a view with its reference."""
import numpy
from hypothesis import strategies as st

from .. import env, gen, model, spyfs
from ..core import Sub
from ..viewworld import ViewWorld
from . import c17
from .c12 import Fault

RULE = ('A case is a reference collection, a view of all or some of its '
        'partitions with 1-2 variables holding values, and a history of '
        'changes of the reference (partitions rewritten with the same axis, '
        'grown at the end, shortened, changed entirely or in one record, added, dropped and inserted '
        'again, a variable added), of variables added to or dropped from the '
        'view, of updates of the view, reopenings and synchronisations (with '
        'or without filter). The model keeps the axis each partition of the '
        'view was aligned with: is_synced must be the comparison of these '
        'axes, sync must return the predicate of the differing partitions, '
        'keep values of unchanged records, give fill values to the others, '
        'and do nothing the second time. Non-trivial: one synchronisation '
        'with something out of date and something up to date. part '
        'interrupted: an error is raised at a generated storage operation '
        'of a synchronisation; repeating it must succeed, leave the view '
        'loadable and aligned, and keep the values of the partitions that '
        'were not out of date.')
ASSUMPTIONS = ['variables of views have a fill value and the dimensions of a '
               'variable of the reference',
               'one in-process Dask worker with one thread']


@st.composite
def operations(draw):
    kind = draw(st.sampled_from(['grow', 'grow', 'same', 'shrink', 'change',
                                 'alter', 'alter', 'new', 'drop', 'back', 'sync', 'sync',
                                 'sync', 'update', 'update', 'add', 'dropvar',
                                 'reopen', 'refvar']))
    if kind in ('grow', 'shrink'):
        return [kind, draw(st.integers(0, 7)), draw(st.integers(1, 3))]
    if kind == 'alter':
        return [kind, draw(st.integers(0, 7)), draw(st.integers(0, 3)),
                draw(st.sampled_from([0, 1, 2]))]
    if kind in ('same', 'change', 'drop', 'back'):
        return [kind, draw(st.integers(0, 7))]
    if kind == 'new':
        return [kind, draw(st.integers(0, 9)), draw(
            st.lists(st.integers(0, 40), min_size=1, max_size=3))]
    if kind == 'sync':
        return [kind, draw(st.sampled_from([None, 'function', 'expression']))]
    if kind == 'update':
        return ['update', draw(st.integers(0, 5)),
                draw(st.one_of(st.none(), st.integers(0, 31))),
                draw(st.sampled_from([0, 0, 0, 1])), True, draw(
                    st.booleans()), draw(st.booleans()),
                draw(st.integers(0, 9)), None]
    if kind == 'add':
        return [kind, draw(c17.view_variables())]
    if kind == 'dropvar':
        return [kind, draw(st.integers(0, 5))]
    return [kind]


@st.composite
def cases(draw):
    schema = draw(gen.schemas(max_vars=2, codecs=False))
    return dict(schema=schema,
                batch=draw(gen.batches(max_parts=4, max_part=6, max_rows=4)),
                select=draw(st.one_of(st.none(), st.none(),
                                      st.integers(0, 15))),
                same=draw(st.booleans()),
                variables=draw(st.lists(c17.view_variables(), min_size=1,
                                        max_size=2)),
                ops=draw(st.lists(operations(), min_size=2, max_size=9)))


def stale(w):
    """Partitions of the reference that are not aligned in the view."""
    axis = w.schema['axis']
    return [k for k in w.keys
            if k not in w.vparts or set(w.vparts[k]) != set(w.vvars) or
            not model.same(w.vaxis[k], w.parts[k][axis])]


def synchronise(w):
    """Model of sync."""
    axis = w.schema['axis']
    for key in stale(w):
        now = w.parts[key][axis]
        old = w.vaxis.get(key)
        part = w.vparts.get(key, {})
        grown = old is not None and len(old) <= len(now) and numpy.array_equal(
            old, now[:len(old)])
        new = {}
        for name, var in w.vvars.items():
            new[name] = w.blank(var, key)
            if grown and name in part:
                n = len(old)
                at = var['dims'].index(w.dim)
                where = [slice(None)] * len(var['dims'])
                where[at] = slice(0, n)
                new[name][tuple(where)] = part[name][tuple(where)]
        w.vparts[key] = new
        w.vaxis[key] = now


def alter(offsets, at):
    """Change the time of one record, the order being kept."""
    at %= len(offsets)
    result = list(offsets)
    after = offsets[at + 1] if at + 1 < len(offsets) else offsets[at] + 2
    if after > offsets[at]:
        result[at] = (offsets[at] + 1 + after) // 2
    elif at and offsets[at - 1] < offsets[at]:
        result[at] = offsets[at - 1]
    return result


def reinsert(w, batches, p, offsets, rid):
    batches[p] = [p, offsets, rid]
    w.insert([batches[p]])


def run(case, ctx):
    with ViewWorld(case['schema'], case['batch'], select=case['select'],
                   same=case['same']) as w:
        shapes = sorted({tuple(d) for d in w.dims.values() if w.dim in d})
        count = 0
        for ix, spec in enumerate(case['variables']):
            w.add(dict(spec, name=f'view{count}',
                       dims=list(shapes[spec['like'] % len(shapes)])))
            count += 1
            c17.update(w, ['update', ix, None, 0, True, False, False, ix + 3,
                           None])
        batches = {item[0]: [item[0], sorted(item[1]), item[2]]
                   for item in case['batch']}
        absent: dict = {}
        rid = 500
        for ix, op in enumerate(case['ops']):
            where = f'step {ix} {op[0]}'
            kind = op[0]
            rid += 50
            live = sorted(batches)
            fresh = not stale(w)
            if kind in ('grow', 'same', 'shrink', 'change', 'alter'):
                if not live:
                    continue
                p = live[op[1] % len(live)]
                offsets = list(batches[p][1])
                if kind == 'grow':
                    top = max(offsets)
                    offsets += [top + 1 + i for i in range(op[2])]
                elif kind == 'shrink':
                    offsets = offsets[:max(1, len(offsets) - op[2])]
                elif kind == 'change':
                    offsets = [o + 1 for o in offsets]
                elif kind == 'alter':
                    # one record changed, maybe others added at the end
                    offsets = alter(offsets, op[2])
                    top = max(offsets)
                    offsets += [top + 1 + i for i in range(op[3])]
                reinsert(w, batches, p, offsets, rid)
            elif kind == 'new':
                if op[1] in batches:
                    continue
                absent.pop(op[1], None)
                reinsert(w, batches, op[1], sorted(op[2]), rid)
            elif kind == 'back':
                if not absent:
                    continue
                p = sorted(absent)[op[1] % len(absent)]
                item = absent.pop(p)
                reinsert(w, batches, p, item[1], rid)
            elif kind == 'drop':
                if not live:
                    continue
                p = live[op[1] % len(live)]
                key = list(w.new_parts([batches[p]]))[0]
                w.col.drop_partitions(filters=w.only([key]))
                del w.parts[key]
                absent[p] = batches.pop(p)
            elif kind == 'sync':
                sync(w, op[1], where, ctx)
            elif kind == 'update':
                if fresh and w.seen and w.vvars:
                    c17.update(w, op)
            elif kind == 'add':
                w.add(dict(op[1], name=f'view{count}',
                           dims=list(shapes[op[1]['like'] % len(shapes)])))
                count += 1
            elif kind == 'dropvar':
                if len(w.vvars) > 1:
                    names = sorted(w.vvars)
                    w.drop(names[op[1] % len(names)])
            elif kind == 'reopen':
                w.view = w.reopen_view()
            elif kind == 'refvar':
                if not w.keys:
                    continue
                name = f'extra{ix}'
                var = dict(name=name, dtype='int16', dims=[w.dim], fill=7,
                           vix=20 + ix)
                w.col.add_variable(gen.meta_variable(var))
                w.schema['vars'].append(var)
                for key in w.keys:
                    w.parts[key][name] = numpy.full(w.size(key), 7, 'int16')
                w.view = w.reopen_view()
            snapshot = w.vplace.snapshot(w.vbase)
            assert w.view.is_synced() is (not stale(w)), \
                f'{where}: is_synced {not not stale(w)}'
            assert w.vplace.snapshot(w.vbase) == snapshot, \
                f'{where}: is_synced changed the view'
            if not stale(w):
                w.vcheck(where, lazy=False)
        sync(w, None, 'end', ctx)
        w.vcheck('end, reopened', w.reopen_view())
        w.check('reference at the end', lazy=False)


def sync(w, filters, where, ctx):
    want = stale(w)
    if filters is None:
        predicate = w.view.sync()
    else:
        predicate = w.view.sync(
            filters=(lambda keys: True) if filters == 'function' else
            f'{list(w.scheme(w.keys[0]))[0]} >= 0' if w.keys else None)
    ctx.nt(bool(want) and len(want) < len(w.keys))
    if want:
        ctx.label('something to synchronise')
    synchronise(w)
    got = [k for k in w.keys if predicate(w.scheme(k))]
    assert got == want, f'{where}: synchronised {got} instead of {want}'
    w.vcheck(where)
    assert w.view.is_synced() is True, f'{where}: not synchronised'
    before = w.vplace.snapshot(w.vbase)
    again = w.view.sync()
    assert not any(again(w.scheme(k)) for k in w.keys), \
        f'{where}: second synchronisation reports partitions'
    assert w.vplace.snapshot(w.vbase) == before, \
        f'{where}: second synchronisation changed the view'


# -- synchronisation interrupted by a storage error ---------------------------


@st.composite
def fault_cases(draw):
    schema = draw(gen.schemas(max_vars=1, codecs=False,
                              fs=('memory', 'local')))
    return dict(schema=schema,
                batch=draw(gen.batches(max_parts=4, max_part=6, max_rows=3)),
                variables=draw(st.lists(c17.view_variables(), min_size=1,
                                        max_size=2)),
                changes=draw(st.lists(st.tuples(
                    st.sampled_from(['grow', 'grow', 'change', 'new', 'drop']),
                    st.integers(0, 7)).map(list), min_size=1, max_size=3)),
                faults=draw(st.lists(st.integers(0, 999), min_size=1,
                                     max_size=4)))


def run_faults(case, ctx):
    env.client()
    place = spyfs.SpyPlace(case['schema']['fs'])
    try:
        with ViewWorld(case['schema'], case['batch'], place=place) as w:
            faults(w, case, ctx)
    finally:
        place.close()


def faults(w, case, ctx):
    shapes = sorted({tuple(d) for d in w.dims.values() if w.dim in d})
    for ix, spec in enumerate(case['variables']):
        w.add(dict(spec, name=f'view{ix}',
                   dims=list(shapes[spec['like'] % len(shapes)])))
        c17.update(w, ['update', ix, None, 0, True, False, False, ix + 3,
                       None])
    batches = {item[0]: [item[0], sorted(item[1]), item[2]]
               for item in case['batch']}
    for ix, (kind, arg) in enumerate(case['changes']):
        live = sorted(batches)
        p = live[arg % len(live)] if live else None
        if kind == 'new':
            if arg not in batches:
                reinsert(w, batches, arg, [1, 2], 700 + ix)
        elif p is None:
            continue
        elif kind == 'drop':
            key = list(w.new_parts([batches[p]]))[0]
            w.col.drop_partitions(filters=w.only([key]))
            del w.parts[key], batches[p]
        else:
            offsets = batches[p][1]
            reinsert(w, batches, p, offsets + [max(offsets) + 1]
                     if kind == 'grow' else [o + 1 for o in offsets],
                     700 + ix)
    before = w.vplace.snapshot(w.vbase)
    reference = w.place.snapshot(w.base)
    vparts = {k: dict(v) for k, v in w.vparts.items()}
    vaxis = dict(w.vaxis)
    late = stale(w)
    fault = Fault()
    with spyfs.watching(fault):
        fault.arm(None)
        w.view.sync()
    total = fault.total
    synchronise(w)
    w.vcheck('undisturbed', lazy=False)
    ctx.nt(bool(late) and total > 0)
    after = {k: dict(v) for k, v in w.vparts.items()}
    for item in case['faults'] if total else ():
        w.vplace.restore(before, w.vbase)
        w.vparts = {k: dict(v) for k, v in vparts.items()}
        w.vaxis = dict(vaxis)
        w.view = w.reopen_view()
        fault.arm(item * total // 1000)
        raised = None
        with spyfs.watching(fault):
            try:
                w.view.sync()
            except Exception as exc:  # noqa: BLE001
                raised = exc
        where = f'fault {fault.at} of {total} ({fault.fired}) {raised!r}'
        fault.arm(None)
        ctx.label('raised' if raised is not None else 'harmless')
        assert w.place.snapshot(w.base) == reference, \
            f'{where}: reference changed'
        if raised is None:
            assert w.view.is_synced() is True, f'{where}: hidden'
        w.view = w.reopen_view()
        predicate = w.view.sync()
        assert not any(predicate(w.scheme(k)) for k in w.keys
                       if k not in late), f'{where}: synchronised too much'
        assert w.view.is_synced() is True, f'{where}: not synchronised'
        # Out-of-date partitions may have been reset.
        synchronise(w)
        for key in late:
            blank = {n: w.blank(var, key) for n, var in w.vvars.items()}
            w.vparts[key] = blank
            try:
                w.vcompare(w.view.load(delayed=False, filters=w.only([key])),
                           where, keys=[key])
            except AssertionError:
                w.vparts[key] = after[key]
        w.vcheck(f'{where}, repeated')


SUBS = [Sub('history', cases(), run, 25, 350),
        Sub('interrupted', fault_cases(), run_faults, 15, 250)]
