PROPERTY = 'C18'
NEEDS = 'a reference partition rewritten with more records whose first record and the record at the old last position keep their times while a record in between changed'
BREAKS = 'the view keeps values computed for another record instead of resetting the partition to fill values'
EDITS = [('zcollection/view/detail.py', '''        if axis_ref.array.size > axis_view.size and numpy.all(
                axis_view == axis_ref.array[:axis_view.size]):
''', '''        last: int = axis_view.size - 1
        if axis_ref.array.size > axis_view.size and numpy.all(
                axis_view[[0, last]] == axis_ref.array[[0, last]]):
''')]
DEMO = '''
c = client()
day = numpy.datetime64('2000-01-01', 'ns')
h = numpy.timedelta64(1, 'h')
col = create(make([day, day + h, day + 2 * h]))
col.insert(make([day, day + h, day + 2 * h]))
v = zcollection.create_view('/demo/view', view.ViewReference('/demo/col', FS), filesystem=FS)
v.add_variable(meta.Variable('w', numpy.dtype('int64'), dimensions=('n',), fill_value=-1))
v.update(lambda zds: {'w': numpy.array([10, 20, 30])})
col.insert(make([day, day + h + numpy.timedelta64(5, 'm'), day + 2 * h, day + 3 * h]))
v.sync()
got = v.load(delayed=False)['w'].array.tolist()
finish(got == [-1, -1, -1, -1], f'values of other records kept: {got}')
'''
