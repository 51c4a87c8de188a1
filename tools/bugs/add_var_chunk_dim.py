PROPERTY = 'C14'
NEEDS = 'a variable added with a two-dimensional shape whose dimensions are in another order than the first variable using as many dimensions'
BREAKS = 'the variable added takes its shape from a variable whose dimensions are in another order'
EDITS = [('zcollection/meta.py', '''            if item.dimensions == variable.dimensions:
                return item''', '''            if set(item.dimensions) == set(variable.dimensions):
                return item''')]
DEMO = '''
c = client()
day = numpy.datetime64('2000-01-01', 'ns')
t = numpy.array([day, day + 1, day + 2])
def ds():
    return dataset.Dataset([dataset.Array('time', t, ('n',)),
        dataset.Array('a', numpy.zeros((2, 3)), ('x', 'n')),
        dataset.Array('b', numpy.zeros((3, 2)), ('n', 'x'))])
col = create(ds())
col.insert(ds())
col.add_variable(meta.Variable('w', numpy.dtype('int64'), dimensions=('n', 'x'), fill_value=-1))
try:
    got = col.load(delayed=False)['w'].shape
except Exception as err:
    finish(False, repr(err))
finish(got == (3, 2), f'{got}')
'''
