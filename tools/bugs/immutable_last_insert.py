PROPERTY = 'C24'
NEEDS = 'an insert giving another value to a variable that is not partitioned after all partitions have been dropped'
BREAKS = 'the value of the variable that is not partitioned changes'
EDITS = [('zcollection/collection/__init__.py', '''            if not self.fs.exists(self._immutable):
                _write_immutable''', '''            if not self.fs.exists(self._immutable) or not any(
                    True for _ in self.partitions()):
                _write_immutable''')]
DEMO = '''
c = client()
day = numpy.datetime64('2000-01-01', 'ns')
def ds(v):
    return dataset.Dataset([dataset.Array('time', numpy.array([day]), ('n',)),
        dataset.Array('var', numpy.array([1]), ('n',), fill_value=-1),
        dataset.Array('imm', numpy.array([v, v]), ('x',))])
col = create(ds(1))
col.insert(ds(1))
col.drop_partitions()
col.insert(ds(2))
got = col.load(delayed=False)['imm'].array.tolist()
finish(got == [1, 1], f'{got}')
'''
