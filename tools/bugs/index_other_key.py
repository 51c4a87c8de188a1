PROPERTY = 'C11'
NEEDS = 'a scheme with two partitioning keys, an index updated for a partition sharing one of its keys with others'
BREAKS = 'the entries of the partitions sharing the first key with an updated partition are dropped'
EDITS = [('zcollection/indexing/abc.py', '''                            for name, value in item
                        ]))''', '''                            for name, value in item[:1]
                        ]))''')]
DEMO = '''
from zcollection import indexing
import tempfile, shutil
tmp = tempfile.mkdtemp()
class Idx(indexing.Indexer):
    def dtype(self, **kwargs):
        return super().dtype() + [('v', 'int64')]
    @classmethod
    def create(cls, path, zds, *, filesystem=None, **kwargs):
        return cls._create(path, zds, {}, filesystem)
    def update(self, zds, *, partition_size=None, npartitions=None, filters=None):
        def func(ds):
            dt = numpy.dtype(self.dtype())
            out = numpy.empty(ds.dimensions['n'], dt)
            n = ds.dimensions['n']
            out['start'] = numpy.arange(n); out['stop'] = numpy.arange(n) + 1
            out['v'] = ds['var'].values
            return out
        self._update(zds, func, partition_size, npartitions, filters=filters)
c = client()
h = numpy.timedelta64(31, 'D')
t = [numpy.datetime64('2000-01-05', 'ns') + i * h for i in range(4)]
col = create(make(t), partitioning.Date(('time',), 'M'))
col.insert(make(t, numpy.array([7, 7, 7, 7])))
idx = Idx.create(tmp + '/idx.parquet', col)
idx.update(col)
idx.update(col, filters='month == 2')
got = list(idx.query({'v': 7}))
shutil.rmtree(tmp)
finish(len(got) == 4, f'{len(got)} entries')
'''
