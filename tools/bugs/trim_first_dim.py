PROPERTY = 'C08'
NEEDS = 'an update with an overlap of a variable whose partitioned dimension is not the first one'
BREAKS = 'the overlap is trimmed along the first dimension'
EDITS = [('zcollection/collection/detail.py', '''    slices[variable.dimensions.index(dim)] = indices
    return tuple(slices)''', '''    slices[0] = indices
    return tuple(slices)''')]
DEMO = '''
c = client()
d = numpy.timedelta64(1, 'D')
t = numpy.array([numpy.datetime64('2000-01-01', 'ns') + i * d for i in range(3)])
def ds():
    return dataset.Dataset([dataset.Array('time', t, ('n',)),
        dataset.Array('a', numpy.arange(9).reshape(3, 3), ('x', 'n')),
        dataset.Array('b', numpy.zeros((3, 3), 'int64'), ('x', 'n'))])
col = create(ds())
col.insert(ds())
try:
    col.update(lambda zds: {'b': zds['a'].array + 1}, depth=1, delayed=False)
    got = col.load(delayed=False)['b'].array.tolist()
except Exception as err:
    finish(False, repr(err))
finish(got == (numpy.arange(9).reshape(3, 3) + 1).tolist(), f'{got}')
'''
