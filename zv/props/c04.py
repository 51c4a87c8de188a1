"""C04: any history of writes equals a plain map from key to records."""
import dask.distributed
import numpy
from hypothesis import strategies as st

from .. import gen, model
from ..core import Sub
from ..world import World

RULE = ('A case is a schema and a sequence of 2-7 operations (insert of a '
        'batch overlapping what is stored, with or without some variables, '
        'in memory or lazy, any npartitions; partition drop by filter; update '
        'of a variable on a subset; variable addition and removal; reopening; '
        'keeping what is loaded in memory while it changes on disk) '
        'applied to the collection and to a plain map; the whole content is '
        'compared after every operation, and once more after reopening '
        'read-only. Non-trivial: at least two operations that change '
        'already stored data.')
ASSUMPTIONS = ['variables left out of an insert or added later have a fill '
               'value', 'one in-process Dask worker with one thread']


@st.composite
def ops(draw):
    kind = draw(
        st.sampled_from(['insert'] * 4 + ['drop', 'drop', 'update', 'update',
                                          'add', 'delvar', 'reopen',
                                          'hold', 'hold']))
    op = dict(op=kind)
    if kind == 'insert':
        op.update(batch=draw(gen.batches(max_parts=4, max_rows=4)),
                  delayed=draw(st.booleans()),
                  chunk=draw(st.sampled_from([None, 1, 2])),
                  skip=draw(st.integers(0, 7)),
                  np=draw(st.sampled_from([None, None, 1, 2, 3])))
    elif kind == 'drop':
        op.update(mask=draw(st.integers(0, 255)))
    elif kind == 'update':
        op.update(mask=draw(st.one_of(st.none(), st.integers(0, 255))),
                  var=draw(st.integers(0, 5)),
                  how=draw(st.sampled_from(['shift', 'reverse', 'const'])),
                  delayed=draw(st.booleans()),
                  np=draw(st.sampled_from([None, 1, 2, 3])),
                  named=draw(st.booleans()))
    elif kind == 'add':
        op.update(var=draw(gen.variables('new', ['?'])),
                  like=draw(st.integers(0, 5)),
                  fill=draw(st.sampled_from([0, 1, 100])))
    elif kind == 'delvar':
        op.update(var=draw(st.integers(0, 5)))
    return op


@st.composite
def cases(draw):
    return dict(schema=draw(gen.schemas(max_vars=3, min_vars=1)),
                first=draw(gen.batches(max_parts=4, max_rows=4)),
                ops=draw(st.lists(ops(), min_size=2, max_size=7)))


def transform(how, arr, axis):
    """A value-dependent change that keeps the shape and the dtype."""
    if how == 'reverse':
        return numpy.flip(arr, axis).copy()
    if how == 'const':
        return numpy.zeros_like(arr)
    return numpy.roll(arr, 1, axis)


def run(case, ctx):
    changes = 0
    held: list = []
    with World(case['schema'], case['first']) as w:
        w.check('first insert', lazy=False)
        for step, op in enumerate(case['ops']):
            where = f"step {step} {op['op']}"
            kind = op['op']
            rid0 = (step + 1) * 1000
            ctx.label(kind)
            if kind == 'insert':
                batch = [[p, o, r + rid0] for p, o, r in op['batch']]
                skip = w.skippable(op['skip'])
                before = set(w.parts)
                got, want = w.insert(batch, delayed=op['delayed'],
                                     chunk=op['chunk'], skip=skip,
                                     npartitions=op['np'])
                assert got == want, f'{where}: returned {got} not {want}'
                if before & set(w.new_parts(batch)):
                    changes += 1
                    ctx.label('overwrite')
                if skip:
                    ctx.label('partial insert')
            elif kind == 'drop':
                keys = w.pick(op['mask'])
                got = sorted(w.col.drop_partitions(filters=w.only(keys)))
                want = sorted(w.path(k) for k in keys)
                assert got == want, f'{where}: returned {got} not {want}'
                for key in keys:
                    del w.parts[key]
                changes += bool(keys)
            elif kind == 'update':
                names = [v['name'] for v in w.schema['vars']]
                if not names:
                    continue
                name = names[op['var'] % len(names)]
                keys = w.keys if op['mask'] is None else w.pick(op['mask'])
                axis = w.dims[name].index(w.dim)

                def func(zds, name=name, axis=axis, how=op['how']):
                    arr = zds[name].array
                    if hasattr(arr, 'compute'):
                        arr = arr.compute()
                    return {name: transform(how, arr, axis)}

                if not keys:
                    continue
                w.col.update(
                    func,
                    filters=None if op['mask'] is None else w.only(keys),
                    delayed=op['delayed'], npartitions=op['np'],
                    variables=[name] if op['named'] else None)
                for key in keys:
                    w.parts[key] = dict(w.parts[key])
                    w.parts[key][name] = transform(op['how'],
                                                   w.parts[key][name], axis)
                changes += 1
            elif kind == 'add':
                names = list(w.dims)
                model_dims = list(w.dims[names[op['like'] % len(names)]])
                var = dict(op['var'], name=f'new{step}', dims=model_dims,
                           fill=op['fill'], vix=w.count)
                if var['dtype'] == 'bool':
                    var['fill'] = bool(op['fill'])
                w.count += 1
                w.col.add_variable(gen.meta_variable(var))
                w.schema['vars'].append(var)
                fill = w.fills[var['name']]
                for key in w.keys:
                    sizes = {**w.schema['extra'], w.dim: w.size(key)}
                    w.parts[key] = dict(w.parts[key])
                    w.parts[key][var['name']] = numpy.full(
                        [sizes[d] for d in model_dims], fill,
                        numpy.dtype(var['dtype']))
                changes += 1
            elif kind == 'delvar':
                names = [v['name'] for v in w.schema['vars']]
                if not names:
                    continue
                name = names[op['var'] % len(names)]
                w.col.drop_variable(name)
                w.schema['vars'] = [
                    v for v in w.schema['vars'] if v['name'] != name
                ]
                for key in w.keys:
                    w.parts[key] = {
                        k: v
                        for k, v in w.parts[key].items() if k != name
                    }
                changes += 1
            elif kind == 'reopen':
                w.col = w.reopen('w')
            elif kind == 'hold':
                # What a user keeps in memory is not changed afterwards, nor
                # given for what is then read.
                zds = w.col.load()
                if zds is not None:
                    zds.persist()
                    dask.distributed.wait(
                        [v.array for v in zds.variables.values()])
                    held.append((zds, w.expected(w.keys)))
            w.check(where, lazy=step % 2 == 1)
            assert set(w.col.metadata.variables) == set(w.dims), where
        w.check('reopened', col=w.reopen('r'), each=True)
        for zds, want in held:
            for name, arr in want.items():
                got = zds[name].array.compute()
                assert model.same(got, arr), f'kept in memory {name}: ' \
                    f'{model.describe(got)} != {model.describe(arr)}'
    ctx.nt(changes >= 2)


SUBS = [Sub('history', cases(), run, 25, 400)]
