"""C07: partition filters select exactly the matching partitions everywhere."""
import datetime
import os
import time
import warnings

import fsspec.implementations.local
import numpy
from hypothesis import strategies as st

from .. import env, gen, model
from ..core import Sub
from ..world import World

RULE = ('select: a collection of 1-8 partitions and a filter (a generated '
        'Python expression over the key names, or a function), applied to '
        'listing, loading, mapping, overlapping mapping, validating, copying, '
        'updating and dropping; the selected set is computed by evaluating '
        'the same expression on each key, and every other partition must keep '
        'its bytes. age: partitions with arbitrary creation dates, a '
        'duration, a filter and a local time zone; exactly the older ones '
        'go. Non-trivial: the filter keeps some partitions and rejects '
        'others.')
ASSUMPTIONS = ['file systems report creation dates with their time zone, as '
               'fsspec local does',
               'one in-process Dask worker with one thread']

UNIT_RANGE = {
    'year': (1998, 2025), 'month': (1, 12), 'day': (1, 31), 'hour': (0, 23),
    'minute': (0, 59), 'second': (0, 59)
}


@st.composite
def atoms(draw, names, part, keys):
    name = draw(st.sampled_from(names))
    ix = names.index(name)
    pool = sorted({k[ix] for k in keys})
    value = draw(st.sampled_from(pool))
    form = draw(st.integers(0, 6))
    if form == 0:
        return f'{name} == {value}'
    if form == 1:
        return f'{name} != {value}'
    if form == 2:
        return f"{name} {draw(st.sampled_from(['<', '<=', '>', '>=']))} {value}"
    if form == 3:
        return f'{name} in ({value}, {draw(st.sampled_from(pool))})'
    if form == 4:
        lo = draw(st.sampled_from(pool))
        return f'{name} in range({min(lo, value)}, {max(lo, value) + 1})'
    if form == 5:
        return f'{name} % 2 == {draw(st.integers(0, 1))}'
    other = draw(st.sampled_from(names))
    return f'{name} + {other} > {value}'


@st.composite
def expressions(draw, names, part, keys):
    first = draw(atoms(names, part, keys))
    for _ in range(draw(st.integers(0, 2))):
        op = draw(st.sampled_from(['and', 'or']))
        first = f'({first}) {op} ({draw(atoms(names, part, keys))})'
    if draw(st.sampled_from([False, False, True])):
        first = f'not ({first})'
    return first


def keys_of(schema, batch):
    return sorted({k for k in model.expand(schema, batch)['keys']})


@st.composite
def select_cases(draw):
    schema = draw(gen.schemas(max_vars=1, min_vars=1, codecs=False))
    batch = draw(gen.batches(min_parts=1, max_parts=7, max_part=9,
                             max_rows=3))
    names = list(model.key_names(schema['part']))
    return dict(schema=schema,
                batch=batch,
                expr=draw(
                    expressions(names, schema['part'],
                                keys_of(schema, batch))),
                function=draw(st.booleans()),
                delayed=draw(st.booleans()),
                op=draw(st.sampled_from(['update', 'drop', 'copy', 'both', 'repair'])))


def truth(expr, scheme):
    return bool(eval(expr, {'__builtins__': {'range': range}}, dict(scheme)))


def run_select(case, ctx):
    with World(case['schema'], case['batch']) as w:
        expr = case['expr']
        keys = [k for k in w.keys if truth(expr, w.scheme(k))]
        ctx.nt(0 < len(keys) < len(w.keys))
        ctx.label('nothing' if not keys else
                  'all' if len(keys) == len(w.keys) else 'some')
        if case['function']:
            seen = []

            def filters(scheme):
                seen.append(dict(scheme))
                return truth(expr, scheme)
        else:
            filters = expr
        delayed = case['delayed']
        names = [w.path(k) for k in keys]
        col = w.col
        assert list(col.partitions(filters=filters)) == names, 'partitions'
        if case['function']:
            schemes = [w.scheme(k) for k in w.keys]
            assert all(item in schemes for item in seen) and all(
                item in seen for item in schemes), seen
        assert list(col.partitions(filters=filters, lock=True)) == names
        rel = [model.key_dir(w.part, k) for k in keys]
        assert list(col.partitions(filters=filters, relative=True)) == rel
        w.compare(col.load(filters=filters, delayed=delayed), 'load',
                  keys=keys)
        axis = w.schema['axis']

        def times(zds):
            return zds[axis].values.view('int64').tolist()

        got = col.map(times, filters=filters, delayed=delayed)
        got = [(tuple(a), b) for a, b in (got.compute() if keys else
                                          bag_of(got))]
        want = [(w.labelled(k), w.parts[k][axis].view('int64').tolist())
                for k in keys]
        assert got == want, f'map: {got} != {want}'
        got = col.map_overlap(times, filters=filters, delayed=delayed,
                              depth=1)
        got = [(tuple(a), b) for a, b in (got.compute() if keys else
                                          bag_of(got))]
        want = []
        for ix, k in enumerate(keys):
            rows = []
            for other in keys[max(ix - 1, 0):ix + 2]:
                rows += w.parts[other][axis].view('int64').tolist()
            want.append((w.labelled(k), rows))
        assert got == want, f'map_overlap: {got} != {want}'
        assert col.validate_partitions(filters=filters) == []
        # All partitions are damaged: only the selected ones are reported.
        metas = {k: w.path(k) + '/.zmetadata' for k in w.keys}
        saved = {k: w.place.fs.cat_file(path) for k, path in metas.items()}
        for path in metas.values():
            w.place.fs.pipe_file(path, b'{')
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            got = sorted(col.validate_partitions(filters=filters))
        assert got == sorted(w.path(k) for k in keys), f'validate: {got}'
        if case['op'] == 'repair':
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                col.validate_partitions(filters=filters, fix=True)
            for k in keys:
                w.parts.pop(k)
            for k in w.keys:
                w.place.fs.pipe_file(metas[k], saved[k])
            w.check('repaired', lazy=False)
            return
        for k, path in metas.items():
            w.place.fs.pipe_file(path, saved[k])
        before = {k: w.place.snapshot(w.path(k)) for k in w.keys}
        if case['op'] == 'copy':
            other = col.copy(w.place.path('other'), filters=filters,
                             filesystem=w.place.fs)
            base = w.place.path('other')
            assert list(other.partitions()) == [
                base + '/' + model.key_dir(w.part, k) for k in keys
            ], 'copy'
            w.compare(other.load(delayed=False), 'copy', keys=keys)
        if case['op'] in ('update', 'both'):
            name = w.schema['vars'][0]['name']

            def func(zds):
                arr = zds[name].array
                arr = arr.compute() if hasattr(arr, 'compute') else arr
                return {name: numpy.zeros_like(arr)}

            col.update(func, filters=filters, delayed=delayed)
            # the variables may also be named by the caller
            col.update(func, filters=filters, delayed=delayed,
                       variables=[name])
            for k in keys:
                w.parts[k][name] = numpy.zeros_like(w.parts[k][name])
            w.check('update', lazy=False)
        if case['op'] in ('drop', 'both'):
            got = sorted(col.drop_partitions(filters=filters))
            assert got == sorted(names), f'drop: {got} != {sorted(names)}'
            for k in keys:
                del w.parts[k]
            w.check('drop', lazy=False)
        for k in before:
            if k not in keys:
                assert w.place.snapshot(w.path(k)) == before[k], \
                    f'partition {k} was changed'


def bag_of(bag):
    return list(bag.compute())


# --------------------------------------------------------------------------
# age


DATES: dict = {}


class Dated(fsspec.implementations.local.LocalFileSystem):
    """Local file system whose creation dates are chosen by the case."""
    cachable = False

    def created(self, path):
        for name, value in DATES.items():
            if path.rstrip('/').endswith('/' + name):
                return value
        return super().created(path)


@st.composite
def age_cases(draw):
    n = draw(st.integers(1, 6))
    return dict(ages=draw(
        st.lists(st.one_of(st.integers(-13, 13), st.integers(20, 60)),
                 min_size=n, max_size=n)),
                limit=draw(st.sampled_from([0, 1, 2, 3, 6, 10, 12, 24, 48])),
                expr=draw(st.one_of(st.none(), st.sampled_from(
                    ['cycle % 2 == 0', 'cycle > 10', 'cycle < 0']))),
                zone=draw(
                    st.sampled_from(['UTC', 'XXX-9', 'YYY+8', 'AAA-2',
                                     'BBB+12', 'CCC-13'])))


def run_age(case, ctx):
    """Ages are in hours; every age is half an hour away from the limit."""
    now = datetime.datetime.now(datetime.timezone.utc)
    dates = DATES
    dates.clear()
    n = len(case['ages'])
    schema = dict(axis='time', dim='num_lines', unit='s',
                  part=dict(kind='seq', vars=['cycle'], low=8), vars=[],
                  extra={}, chunks={}, fs='local')
    batch = [[p, [0], p] for p in range(n)]
    place = env.Place('local')
    place.fs = Dated()
    zone = os.environ.get('TZ')
    with place, World(schema, batch, place=place) as w:
        old = []
        for key, age in zip(w.keys, case['ages']):
            delta = datetime.timedelta(hours=age, minutes=30)
            dates[model.key_dir(w.part, key)] = now - delta
            if delta > datetime.timedelta(hours=case['limit']) and (
                    case['expr'] is None
                    or truth(case['expr'], w.scheme(key))):
                old.append(key)
        ctx.nt(0 < len(old) < n)
        ctx.label(case['zone'])
        os.environ['TZ'] = case['zone']
        time.tzset()
        try:
            got = sorted(
                w.col.drop_partitions(
                    filters=case['expr'],
                    timedelta=datetime.timedelta(hours=case['limit'])))
        finally:
            if zone is None:
                del os.environ['TZ']
            else:
                os.environ['TZ'] = zone
            time.tzset()
        assert got == sorted(w.path(k) for k in old), (got, old)
        for key in old:
            del w.parts[key]
        w.check('after', lazy=False)


SUBS = [
    Sub('select', select_cases(), run_select, 22, 350),
    Sub('age', age_cases(), run_age, 12, 150),
]
