PROPERTY = 'C01'
NEEDS = 'a variable with several chunks, one of them entirely equal to zero, and no fill value'
BREAKS = 'the records of a chunk of a variable without fill value are not stored'
EDITS = [('zcollection/storage.py', '''                 fill_value=variable.fill_value,
                 **kwargs)
        write_zattrs''', '''                 fill_value=variable.fill_value if variable.fill_value else None,
                 **kwargs)
        write_zattrs''')]
DEMO = '''
c = client()
day = numpy.datetime64('2000-01-01', 'ns')
def ds():
    return dataset.Dataset([dataset.Array('time', numpy.array([day, day + 1]), ('n',)),
        dataset.Array('var', numpy.array([0, 3]), ('n',), fill_value=0)])
col = create(ds())
col.insert(ds())
got = col.load(delayed=False)['var'].values
finish(numpy.ma.getmaskarray(got).tolist() == [True, False], repr(got))
'''
ALSO = ['C20', 'C16']
