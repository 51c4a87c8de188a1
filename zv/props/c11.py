"""C11: an index answers queries like a scan of what it indexes."""
import numpy
import pyarrow
import pyarrow.compute
from hypothesis import strategies as st

import zcollection.indexing

from .. import gen, model
from ..core import Sub
from ..world import World

RULE = ('A case is a collection and a history of 2-7 operations: insertions '
        'that rewrite partitions or add new ones, updates of the index '
        '(whole collection or some partitions, any bag size), reopening of '
        'the index file, queries (1-3 columns, values or lists of values, '
        'present or absent, partition keys as columns, with and/or/xor/'
        'and_not, row mask, partition keys only or all the columns). The '
        'indexed slices are the runs of equal values in each partition, '
        'with records left out of the index, and, in half of the cases, '
        'slices nested in others. The oracle scans plain arrays: rows of '
        'the partitions as of their last indexing, filtered, their union '
        'taken record by record, cut into maximal slices. When the index is '
        'up to date the query is also loaded with Collection.load and '
        'compared with the scanned records. Non-trivial: a query selecting '
        'part of the rows of an index with at least two partitions.')
ASSUMPTIONS = ['partitions are not dropped between two updates of the index '
               '(its entries are replaced partition by partition)',
               'the operator "invert" is not exercised: its meaning for a '
               'list of columns is not documented']

FLAGS = [b'aaa', b'bbb', b'ccc']


def rows_of(raw, nested):
    """[(start, stop, value, flag)] of the records of a partition."""
    raw = numpy.asarray(raw).astype('int64')
    value, flag, skip = raw % 3, (raw % 7) % 3, raw % 11 < 4
    rows = []
    start = 0
    for ix in range(1, len(raw) + 1):
        if ix == len(raw) or (value[ix], flag[ix], skip[ix]) != (
                value[start], flag[start], skip[start]):
            if not skip[start]:
                rows.append((start, ix, int(value[start]),
                             FLAGS[int(flag[start])]))
            start = ix
    if nested:
        # A slice from the first to the last record of each value.
        for val in range(3):
            where = numpy.where((value == val) & ~skip)[0]
            if len(where):
                rows.append((int(where[0]), int(where[-1]) + 1, val, b'all'))
    return rows


def index_rows(zds, dtype=None, nested=False):
    """Function called on the partitions by the index."""
    return numpy.array(rows_of(zds['time'].array, nested), dtype=dtype)


class RunIndexer(zcollection.indexing.Indexer):
    """Index of the runs of equal values."""

    def dtype(self, /, **kwargs):
        return super().dtype() + [('value', 'int64'), ('flag', 'S3')]

    @classmethod
    def create(cls, path, zds, *, meta=None, filesystem=None, **kwargs):
        return super()._create(path, zds, meta=meta, filesystem=filesystem)

    def update(self, zds, *, partition_size=None, npartitions=None, **kwargs):
        super()._update(zds, index_rows, partition_size, npartitions,
                        dtype=self.dtype(), delayed=False, **kwargs)


def queries():
    number = st.one_of(st.integers(-1, 3),
                       st.lists(st.integers(-1, 3), max_size=3))
    return st.fixed_dictionaries(
        dict(op=st.just('query'),
             value=st.one_of(st.none(), number),
             flag=st.one_of(st.none(), st.none(), st.integers(0, 3),
                            st.lists(st.integers(0, 3), max_size=3)),
             keys=st.one_of(st.none(), st.none(), st.tuples(
                 st.integers(0, 2), st.integers(0, 31)).map(list)),
             logical=st.sampled_from([None, None, 'and', 'or', 'xor',
                                      'and_not']),
             mask=st.one_of(st.none(), st.none(), st.none(),
                            st.integers(0, 5)),
             only=st.sampled_from([True, True, True, False])))


@st.composite
def cases(draw):
    dense = draw(st.booleans())
    batches = gen.batches(max_parts=4, max_part=5, max_rows=8,
                          span=8 if dense else 40)
    insert = st.fixed_dictionaries(dict(op=st.just('insert'), batch=batches))
    update = st.fixed_dictionaries(
        dict(op=st.just('update'),
             mask=st.one_of(st.none(), st.none(), st.integers(0, 63)),
             size=st.sampled_from([None, None, 1, 2]),
             npartitions=st.sampled_from([None, None, 1, 3])))
    reopen = st.just(dict(op='reopen'))
    rest = draw(st.lists(st.one_of(insert, update, queries(), queries(),
                                   reopen), min_size=1, max_size=5))
    return dict(schema=draw(gen.schemas(max_vars=1, codecs=False)),
                batch=draw(batches), nested=draw(st.booleans()),
                meta=draw(st.booleans()),
                ops=[draw(update)] + rest + [draw(queries())])


class Index:

    def __init__(self, w, case):
        self.w = w
        self.path = w.place.path('index.parquet')
        self.meta = {'origin': b'zv'} if case['meta'] else {}
        self.index = RunIndexer.create(self.path, w.col, meta=self.meta or
                                       None, filesystem=w.place.fs)
        self.nested = case['nested']
        self.rows: dict = {}
        self.exists = False

    def raw(self, key):
        return self.w.parts[key]['time']

    def update(self, op):
        w = self.w
        keys = w.keys if op['mask'] is None else w.pick(op['mask'])
        kwargs = {}
        if op['npartitions']:
            kwargs['npartitions'] = op['npartitions']
        elif op['size']:
            kwargs['partition_size'] = op['size']
        self.index.update(w.col, nested=self.nested,
                          filters=None if op['mask'] is None else w.only(keys),
                          **kwargs)
        for key in keys:
            self.rows[key] = rows_of(self.raw(key), self.nested)
        self.exists = self.exists or bool(keys)

    def fresh(self):
        return all(self.rows.get(k) == rows_of(self.raw(k), self.nested)
                   for k in self.w.keys)

    def reopen(self):
        if self.exists:
            self.index = RunIndexer.open(self.path, filesystem=self.w.place.fs)
            assert self.index.meta == self.meta, self.index.meta

    def query(self, op, ctx):
        w, names = self.w, model.key_names(self.w.part)
        columns = {}
        tests = []

        def add(name, wanted, get):
            columns[name] = wanted
            several = set(wanted) if isinstance(wanted, list) else {wanted}
            tests.append(lambda key, row: get(key, row) in several)

        if op['value'] is not None:
            add('value', op['value'], lambda key, row: row[2])
        if op['flag'] is not None:
            flags = FLAGS + [b'all']
            add('flag', [flags[i] for i in op['flag']] if isinstance(
                op['flag'], list) else flags[op['flag']],
                lambda key, row: row[3])
        if op['keys'] is not None:
            level = op['keys'][0] % len(names)
            add(names[level], [k[level] for k in w.pick(op['keys'][1])],
                lambda key, row: key[level])

        def select(key, row):
            if not tests:
                return True
            out = [t(key, row) for t in tests]
            if op['logical'] == 'or':
                return any(out)
            if op['logical'] == 'xor':
                return sum(out) % 2 == 1
            if op['logical'] == 'and_not':
                return out[0] and not any(out[1:])
            return all(out)

        if not self.exists:
            return
        mask = None
        keep = lambda row: True  # noqa: E731
        if op['mask'] is not None:
            mask = pyarrow.compute.less_equal(self.index.table['start'],
                                              op['mask'])
            keep = lambda row: row[0] <= op['mask']  # noqa: E731
        total = sum(len(rows) for rows in self.rows.values())
        chosen = [(key, row) for key in sorted(self.rows)
                  for row in self.rows[key] if keep(row) and select(key, row)]
        got = list(self.index.query(columns, logical_op=op['logical'],
                                    mask=mask,
                                    only_partition_keys=op['only']))
        where = f'query {columns} {op["logical"]}'
        if not op['only']:
            return self.all_columns(got, chosen, where)
        want = []
        for key in sorted({k for k, _ in chosen}):
            covered = sorted({ix for this, row in chosen if this == key
                              for ix in range(row[0], row[1])})
            for ix in covered:
                if want and want[-1][0] == key and want[-1][2] == ix:
                    want[-1][2] = ix + 1
                else:
                    want.append([key, ix, ix + 1])
        seen = [[tuple(int(v) for _, v in key), int(s.start), int(s.stop)]
                for key, s in got]
        assert seen == want, f'{where}: {seen} != {want}'
        assert all(tuple(n for n, _ in key) == names for key, _ in got)
        ctx.nt(0 < len(chosen) < total and len(self.rows) > 1)
        if self.fresh() and set(self.rows) == set(w.keys):
            zds = w.col.load(delayed=False, indexer=got)
            data = {
                n: model.concat([
                    model.take(w.parts[k][n], w.dims[n], w.dim,
                               slice(a, b)) for k, a, b in want], w.dims[n],
                    w.dim) for n in w.parts[w.keys[0]]
            } if want else {}
            w.compare(zds, f'{where} loaded', expected=data)
            ctx.label('loaded')

    def all_columns(self, got, chosen, where):
        names = set(model.key_names(self.w.part))
        want: dict = {}
        for key, row in chosen:
            want.setdefault((key, row[2], row[3]), set()).update(
                range(row[0], row[1]))
        seen: dict = {}
        order = []
        for columns, place in got:
            columns = dict(columns)
            assert set(columns) == names | {'value', 'flag'}, columns
            key = tuple(int(columns[n])
                        for n in model.key_names(self.w.part))
            order.append(key)
            seen.setdefault((key, int(columns['value']), columns['flag']),
                            set()).update(range(place.start, place.stop))
        assert seen == want, f'{where}: {seen} != {want}'
        assert order == sorted(order), f'{where}: {order}'


def run(case, ctx):
    with World(case['schema'], case['batch']) as w:
        index = Index(w, case)
        for op in case['ops']:
            if op['op'] == 'insert':
                w.insert(op['batch'])
            elif op['op'] == 'update':
                index.update(op)
            elif op['op'] == 'reopen':
                index.reopen()
            else:
                index.query(op, ctx)
            ctx.label(op['op'])
        stale = [k for k, rows in index.rows.items() if not rows]
        if stale:
            ctx.label('partition without entry')


SUBS = [Sub('history', cases(), run, 200, 4000)]
