"""C19: dataset operations agree with plain array semantics."""
import pickle

import dask
import dask.array
import numpy
from hypothesis import strategies as st

from .. import gen, model
from ..core import Sub

RULE = ('A case is a dataset (1-4 variables over dimensions n, x, y in any '
        'order, any dtype, fill value, codecs, attributes, chunk settings) '
        'held both in memory and lazily with arbitrary chunks, and a program '
        'of 1-6 operations: selection along dimensions by slices (any step), '
        'index lists and masks, deletion, concatenation of several datasets, '
        'selection by names and by dimensions, removal, renaming, addition '
        'with or without data, merge, persist, rechunk, compute, pickle, and '
        'requests that must be refused. After each one both datasets are '
        'compared with plain numpy arrays (values, dtypes, dimensions, fill '
        'values, masks, attributes, codecs), the operands of operations that '
        'return a new dataset must be unchanged. Non-trivial: at least two '
        'operations, or one on a dataset with several dimensions.')
ASSUMPTIONS = ['at most one index array per selection, index arrays sorted '
               'or not, without removing the dimension (no scalar index)',
               'deletions leave at least one record (Dask limitation)',
               'dimensions without any variable left are not looked at']

SHAPES = [['n'], ['n', 'x'], ['x', 'n'], ['x'], ['n', 'x', 'y'],
          ['y', 'n'], ['y', 'x']]
ATTRS = st.dictionaries(st.sampled_from(['units', 'title', 'v']),
                        st.sampled_from(['m', 3, 2.5, [1, 2]]), max_size=2)


@st.composite
def indexes(draw):
    kind = draw(st.sampled_from(['slice', 'slice', 'list', 'mask']))
    if kind == 'slice':
        bound = st.one_of(st.none(), st.integers(-6, 6))
        return [kind, draw(bound), draw(bound),
                draw(st.sampled_from([None, 1, 1, 2, -1, -2]))]
    if kind == 'list':
        return [kind, draw(st.lists(st.integers(-20, 20), max_size=5))]
    return [kind, draw(st.integers(0, 2**16 - 1))]


@st.composite
def ops(draw):
    kind = draw(st.sampled_from(
        ['isel'] * 3 + ['delete'] * 2 + ['concat'] * 3 +
        ['select', 'bydims', 'drop', 'rename', 'add', 'add', 'merge',
         'persist', 'rechunk', 'compute', 'pickle', 'refuse', 'refuse']))
    op = [kind]
    if kind in ('isel', 'delete'):
        op += [draw(st.sampled_from(['n', 'n', 'x', 'y'])), draw(indexes())]
        if kind == 'isel':
            op += [draw(st.one_of(st.none(), st.tuples(
                st.integers(0, 2), st.integers(0, 3)).map(list)))]
    elif kind == 'concat':
        op += [draw(st.sampled_from(['n', 'n', 'x', 'y'])),
               draw(st.lists(st.integers(0, 3), min_size=1, max_size=3)),
               draw(st.booleans())]
    elif kind in ('select', 'drop'):
        op += [draw(st.integers(1, 15)), draw(st.booleans())]
    elif kind == 'bydims':
        op += [draw(st.lists(st.sampled_from('nxy'), min_size=1, max_size=2,
                             unique=True)), draw(st.booleans())]
    elif kind == 'rename':
        op += [draw(st.integers(1, 15))]
    elif kind == 'add':
        op += [draw(gen.variables('?', ['n'])), draw(st.booleans()),
               draw(st.integers(0, 20))]
    elif kind == 'merge':
        op += [draw(gen.variables('?', ['n'])), draw(st.booleans()),
               draw(ATTRS)]
    elif kind == 'rechunk':
        op += [draw(st.integers(1, 3))]
    elif kind == 'refuse':
        op += [draw(st.sampled_from(
            ['merge name', 'merge dims', 'merge kind', 'rename', 'add dim',
             'add size', 'isel', 'concat empty', 'concat kind',
             'concat shape', 'mixed', 'conflict']))]
    return op


@st.composite
def cases(draw):
    count = draw(st.integers(1, 4))
    variables = []
    for ix in range(count):
        var = draw(gen.variables(f'v{ix}', draw(st.sampled_from(SHAPES))))
        var['attrs'] = draw(ATTRS)
        variables.append(var)
    return dict(vars=variables,
                sizes=dict(n=draw(st.integers(1, 6)),
                           x=draw(st.integers(1, 3)),
                           y=draw(st.integers(1, 2))),
                chunk=draw(st.integers(1, 4)),
                attrs=draw(ATTRS),
                chunks=draw(st.booleans()),
                ops=draw(st.lists(ops(), min_size=1, max_size=6)))


class M:
    """Model of a dataset: name -> [spec, raw array]."""

    def __init__(self, items, attrs):
        self.items = items
        self.attrs = attrs

    def sizes(self):
        out = {}
        for spec, arr in self.items.values():
            out.update(zip(spec['dims'], arr.shape))
        return out


def data_for(spec, vix, sizes, seed):
    dims = spec['dims']
    if not dims:
        return model.values_for(spec, vix, [seed], ())[0]
    shape = [sizes[d] for d in dims]
    rids = numpy.arange(shape[0]) + seed * 50
    return numpy.ascontiguousarray(
        model.values_for(spec, vix, rids, tuple(shape[1:])))


def build(m, delayed, chunk, chunks):
    from zcollection import dataset
    return dataset.Dataset(
        [gen.variable(dict(spec, name=name), arr.copy(), delayed, chunk)
         for name, (spec, arr) in m.items.items()],
        attrs=gen._attrs(m.attrs),
        chunks=[dataset.Dimension('n', 3)] if chunks else None,
        block_size_limit=2**20)


def check(zds, m, where, delayed):
    dims = {k: tuple(s['dims']) for k, (s, _) in m.items.items()}
    assert list(zds.variables) == list(m.items) or set(
        zds.variables) == set(m.items), \
        f'{where}: {list(zds.variables)} != {list(m.items)}'
    for name, (spec, arr) in m.items.items():
        var = zds.variables[name]
        assert var.name == name, f'{where}: {name} is called {var.name}'
        model.compare_variable(var, arr, dims[name],
                               model.decode_fill(spec['dtype'],
                                                 spec.get('fill')),
                               f'{where}/{name}')
        assert isinstance(var.array, dask.array.Array) is delayed, where
        got = {a.name: a.value for a in var.attrs}
        assert got == (spec.get('attrs') or {}), f'{where}/{name}: {got}'
        assert var.compressor == model.compressor(spec.get('comp')), where
        assert tuple(var.filters) == model.filters(
            spec.get('filt'), spec['dtype']), where
        assert var.shape == arr.shape and var.size == arr.size, where
    for dim, size in m.sizes().items():
        assert zds.dimensions[dim] == size, \
            f'{where}: dimension {dim} {zds.dimensions[dim]} != {size}'
    assert zds.delayed is delayed or not m.items, where
    got = {a.name: a.value for a in zds.attrs}
    assert got == m.attrs, f'{where}: attributes {got} != {m.attrs}'
    assert zds.block_size_limit == 2**20, f'{where}: block size limit'


def index_of(spec, size):
    """(numpy index, value given to the code)."""
    if spec[0] == 'slice':
        if (spec[3] or 1) < 0:
            # Dask itself clips the bounds of these differently from numpy.
            return slice(None, None, spec[3])
        return slice(spec[1], spec[2], spec[3])
    if spec[0] == 'list':
        # negative values count from the end
        return [v % size - (size if v < 0 else 0)
                for v in spec[1]] if size else []
    return [bool(spec[1] >> i & 1) for i in range(size)]


def raises(func, where, *kinds):
    try:
        func()
    except kinds or (ValueError, KeyError):
        return
    raise AssertionError(f'{where}: accepted')


def refuse(what, zds, m, delayed, case):
    from zcollection import dataset, meta
    other = build(m, delayed, None, False)
    name = next(iter(m.items))
    spec, arr = m.items[name]
    sizes = m.sizes()
    cls = dataset.DelayedArray if delayed else dataset.Array
    wrap = dask.array.from_array if delayed else numpy.asarray
    dim = next((d for d in sizes), None)
    if what == 'merge name':
        raises(lambda: zds.merge(other), what)
        # one variable could be added, the other one cannot
        raises(lambda: zds.merge(dataset.Dataset(
            [gen.variable(dict(spec, name='unseen'), arr, delayed),
             gen.variable(dict(spec, name=name), arr, delayed)])), what)
    elif what == 'merge dims' and dim:
        bad = dataset.Dataset([cls('unseen', wrap(numpy.zeros(
            sizes[dim] + 1)), (dim, ))])
        raises(lambda: zds.merge(bad), what)
    elif what == 'merge kind':
        raises(lambda: zds.merge(dataset.Dataset(
            [gen.variable(dict(spec, name='unseen'), arr, not delayed)])),
            what)
    elif what == 'rename' and len(m.items) > 1:
        last = list(m.items)[-1]
        raises(lambda: zds.rename({name: last}), what)
        raises(lambda: zds.rename({name: 'unseen', last: 'unseen'}), what)
        raises(lambda: zds.rename({name: 'unseen', 'nowhere': 'other'}), what)
    elif what == 'add dim':
        raises(lambda: zds.add_variable(
            meta.Variable('unseen', 'f8', dimensions=('nowhere', ),
                          fill_value=0)), what)
    elif what == 'add size' and dim:
        raises(lambda: zds.add_variable(
            meta.Variable('unseen', 'f8', dimensions=(dim, ), fill_value=0),
            wrap(numpy.zeros(sizes[dim] + 1))), what)
    elif what == 'isel':
        raises(lambda: zds.isel({'nowhere': slice(0, 1)}), what)
    elif what == 'concat empty':
        raises(lambda: zds.concat([], dim or 'n'), what)
    elif what == 'concat kind':
        raises(lambda: zds.concat(build(m, not delayed, None, False),
                                  dim or 'n'), what)
    elif what == 'concat shape':
        # Dask ignores empty arrays when concatenating.
        two = [n for n, (s, a) in m.items.items()
               if len(s['dims']) > 1 and a.size]
        if two:
            spec, arr = m.items[two[0]]
            first = spec['dims'][0]
            shape = list(arr.shape)
            shape[1] += 1
            alone = zds.select_vars(two[0])
            bad = dataset.Dataset([cls(two[0], wrap(
                numpy.zeros(shape, arr.dtype)), spec['dims'])])
            raises(lambda: alone.concat(bad, first), what)
    elif what == 'mixed':
        raises(lambda: dataset.Dataset(
            [gen.variable(dict(spec, name='a'), arr, True),
             gen.variable(dict(spec, name='b'), arr, False)]), what)
    elif what == 'conflict' and dim:
        raises(lambda: dataset.Dataset(
            [cls('a', wrap(numpy.zeros(2)), (dim, )),
             cls('b', wrap(numpy.zeros(3)), (dim, ))]), what)


def run(case, ctx):
    with dask.config.set(scheduler='synchronous'):
        program(case, ctx)


def program(case, ctx):
    items = {}
    for vix, spec in enumerate(case['vars']):
        items[spec['name']] = [spec, data_for(spec, vix, case['sizes'], 0)]
    m = M(items, case['attrs'])
    pair = {False: build(m, False, None, case['chunks']),
            True: build(m, True, case['chunk'], case['chunks'])}
    for delayed, zds in pair.items():
        check(zds, m, f'start lazy={delayed}', delayed)
    done = 0
    count = len(items)
    for step, op in enumerate(case['ops']):
        kind = op[0]
        where = f'step {step} {kind}'
        sizes = m.sizes()
        before = M({k: [s, a] for k, (s, a) in m.items.items()},
                   dict(m.attrs))
        result = {}
        pure = True
        if kind in ('isel', 'delete'):
            dim = op[1]
            if dim not in sizes:
                continue
            if kind == 'delete' and op[2][0] == 'mask':
                continue
            index = index_of(op[2], sizes[dim])
            if kind == 'delete' and isinstance(index, list) and \
                    not index:
                continue
            if kind == 'delete' and (0 in sizes.values() or not numpy.delete(
                    numpy.arange(sizes[dim]), index).size):
                # Dask cannot mask what its own delete returns then.
                continue
            slices = {dim: index}
            if kind == 'isel' and op[3]:
                other = [d for d in sizes if d != dim]
                if other:
                    d2 = other[op[3][0] % len(other)]
                    slices[d2] = slice(op[3][1] % (sizes[d2] + 1), None)
            new = {}
            for name, (spec, arr) in m.items.items():
                if kind == 'delete':
                    if dim in spec['dims']:
                        arr = numpy.delete(arr, index,
                                           spec['dims'].index(dim))
                else:
                    for d, i in slices.items():
                        if d in spec['dims']:
                            arr = model.take(arr, spec['dims'], d, i)
                new[name] = [spec, arr]
            m = M(new, m.attrs)
            for delayed, zds in pair.items():
                result[delayed] = (zds.isel(dict(slices)) if kind == 'isel'
                                   else zds.delete(index, dim))
        elif kind == 'concat':
            dim = op[1]
            if dim not in sizes:
                continue
            others = []
            for k, extra in enumerate(op[2]):
                these = dict(sizes, **{dim: extra})
                others.append(M({
                    name: [spec, data_for(spec, vix, these,
                                          step * 7 + k + 1)]
                    for vix, (name, (spec, _)) in enumerate(m.items.items())
                }, {}))
            if not any(o.sizes().get(dim) for o in [m] + others):
                # Dask cannot compute some concatenations of empty arrays.
                continue
            new = {}
            for name, (spec, arr) in m.items.items():
                if dim in spec['dims']:
                    arr = model.concat([arr] + [o.items[name][1]
                                                for o in others],
                                       spec['dims'], dim)
                new[name] = [spec, arr]
            m = M(new, m.attrs)
            for delayed, zds in pair.items():
                real = [build(o, delayed, case['chunk'], False)
                        for o in others]
                arg = real[0] if len(real) == 1 and op[3] else (
                    iter(real) if op[3] else real)
                result[delayed] = zds.concat(arg, dim)
                for o, r in zip(others, real):
                    check(r, o, f'{where} other operand', delayed)
        elif kind in ('select', 'drop'):
            names = [n for ix, n in enumerate(m.items) if op[1] >> ix & 1]
            if not names or (kind == 'drop' and len(names) == len(m.items)):
                continue
            arg = names[0] if op[2] and len(names) == 1 else (
                tuple(names) if op[2] else names)
            if kind == 'select':
                m = M({n: m.items[n] for n in names}, m.attrs)
                for delayed, zds in pair.items():
                    result[delayed] = zds.select_vars(arg)
            else:
                pure = False
                m = M({n: v for n, v in m.items.items() if n not in names},
                      m.attrs)
                for delayed, zds in pair.items():
                    zds.drops_vars(arg)
                    result[delayed] = zds
        elif kind == 'bydims':
            keep = {n: v for n, v in m.items.items()
                    if bool(set(v[0]['dims']) & set(op[1])) is op[2]}
            for delayed, zds in pair.items():
                sub = zds.select_variables_by_dims(tuple(op[1]), op[2])
                assert set(sub.variables) == set(keep), \
                    f'{where}: {list(sub.variables)} != {list(keep)}'
                result[delayed] = sub
            if not keep:
                continue
            m = M(keep, m.attrs)
        elif kind == 'rename':
            pure = False
            names = {n: f'r{step}{n}' for ix, n in enumerate(m.items)
                     if op[1] >> ix & 1}
            m = M({names.get(n, n): v for n, v in m.items.items()}, m.attrs)
            for delayed, zds in pair.items():
                zds.rename(dict(names))
                result[delayed] = zds
        elif kind in ('add', 'merge'):
            pure = False
            spec = dict(op[1], name=f'new{step}')
            shapes = [s for s in SHAPES if set(s) <= set(sizes)]
            if not shapes:
                continue
            shape = shapes[(op[3] if kind == 'add' else step) % len(shapes)]
            spec['dims'] = list(shape)
            count += 1
            if kind == 'add':
                if not op[2] and spec.get('fill') is None:
                    continue
                arr = data_for(spec, count, sizes, step + 1) if op[2] else \
                    numpy.full([sizes[d] for d in shape],
                               model.decode_fill(spec['dtype'],
                                                 spec['fill']),
                               spec['dtype'])
                for delayed, zds in pair.items():
                    data = None
                    if op[2]:
                        data = dask.array.from_array(arr) if delayed else \
                            arr.copy()
                    zds.add_variable(gen.meta_variable(spec), data)
                    result[delayed] = zds
                m = M({**m.items, spec['name']: [spec, arr]}, m.attrs)
            else:
                arr = data_for(spec, count, sizes, step + 1)
                add = {spec['name']: [spec, arr]}
                if op[2]:
                    extra = dict(name=f'far{step}', dtype='int32',
                                 dims=[f'd{step}'], fill=None)
                    add[extra['name']] = [extra, numpy.arange(3, dtype='i4')]
                other = M(add, op[3])
                for delayed, zds in pair.items():
                    real = build(other, delayed, case['chunk'], False)
                    zds.merge(real)
                    check(real, other, f'{where} other operand', delayed)
                    result[delayed] = zds
                m = M({**m.items, **add}, {**m.attrs, **op[3]})
        elif kind == 'persist':
            for delayed, zds in pair.items():
                result[delayed] = zds.persist(
                    compress=case.get('compress', False))
                for var in list(zds.variables.values())[:1]:
                    assert var.persist() is var
        elif kind == 'rechunk':
            for delayed, zds in pair.items():
                result[delayed] = zds.rechunk(chunks=op[1]) if all(
                    s['dims'] for s, _ in m.items.values()) else zds
        elif kind == 'compute':
            for delayed, zds in pair.items():
                check(zds.compute(), m, f'{where} computed', False)
            continue
        elif kind == 'pickle':
            for delayed, zds in pair.items():
                result[delayed] = pickle.loads(pickle.dumps(zds))
                check(zds, m, f'{where} operand', delayed)
        elif kind == 'refuse':
            ctx.label('refuse ' + op[1])
            for delayed, zds in pair.items():
                refuse(op[1], zds, m, delayed, case)
                check(zds, m, f'{where} {op[1]}', delayed)
                result[delayed] = zds
        if pure:
            for delayed, zds in pair.items():
                if kind != 'refuse' and result[delayed] is not zds:
                    check(zds, before, f'{where} operand lazy={delayed}',
                          delayed)
        pair = result
        for delayed, zds in pair.items():
            check(zds, m, f'{where} lazy={delayed}', delayed)
        done += 1
        ctx.label(kind)
    ctx.nt(done >= 2 or (done >= 1 and len(m.sizes()) > 1))


SUBS = [Sub('program', cases(), run, 600, 12000)]
