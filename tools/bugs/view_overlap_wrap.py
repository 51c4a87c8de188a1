PROPERTY = 'C17'
NEEDS = 'a view map_overlap/update with a depth of 2 or more on the second partition'
BREAKS = 'the overlap of the first partitions of a view wraps around to the last partitions of the view'
EDITS = [('zcollection/view/detail.py', '''        datasets_list[ix] for ix in range(where - depth, where + depth + 1)
        if 0 <= ix < len(datasets_list)
''', '''        datasets_list[ix] for ix in range(max(where, 1) - depth, where + depth + 1)
        if ix < len(datasets_list)
''')]
DEMO = '''
c = client()
days = numpy.arange('2000-01-01', '2000-01-06', dtype='M8[D]')
col = create(make(days))
col.insert(make(days))
v = zcollection.create_view('/demo/view', view.ViewReference('/demo/col', FS), filesystem=FS)
v.add_variable(meta.Variable('w', numpy.dtype('int64'), dimensions=('n',), fill_value=-1))
got = v.map_overlap(lambda zds: zds['var'].values.tolist(), depth=2).compute()
got = [r for _, r in got]
finish(got == [[0, 1, 2], [0, 1, 2, 3], [0, 1, 2, 3, 4], [1, 2, 3, 4], [2, 3, 4]], str(got))
'''
