PROPERTY = 'C20'
NEEDS = 'an update function returning a masked array whose own fill value differs from the one of the variable, computed lazily'
BREAKS = 'the masked positions are stored as the data below the mask instead of the fill value'
EDITS = [('zcollection/storage.py', '''    if isinstance(array, dask.array.core.Array):
        array = array.compute()

    if isinstance(array,
                  numpy.ma.MaskedArray) and store.fill_value is not None:
        array = array.filled(store.fill_value)
''', '''    if isinstance(array,
                  numpy.ma.MaskedArray) and store.fill_value is not None:
        array = array.filled(store.fill_value)

    if isinstance(array, dask.array.core.Array):
        array = array.compute()
''')]
DEMO = '''
c = client()
day = numpy.datetime64('2000-01-01', 'ns')
h = numpy.timedelta64(1, 'h')
col = create(make([day, day + h, day + 2 * h]))
col.insert(make([day, day + h, day + 2 * h]))
def f(zds):
    m = numpy.ma.MaskedArray(numpy.array([5, 6, 7]), mask=[False, True, False])
    return {'var': dask.array.from_array(m)}
col.update(f)
got = col.load(delayed=False)['var'].values
finish(numpy.ma.getmaskarray(got).tolist() == [False, True, False], repr(got))
'''
ALSO = ['C08']
