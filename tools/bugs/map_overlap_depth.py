PROPERTY = 'C09'
NEEDS = 'an overlapping map with a depth of two or more over three or more partitions'
BREAKS = 'the neighbours after the partition are limited to one whatever the depth'
EDITS = [('zcollection/collection/detail.py', '''        partitions[ix] for ix in range(where - depth, where + depth + 1)''', '''        partitions[ix] for ix in range(where - depth, where + min(depth, 1) + 1)''')]
DEMO = '''
c = client()
d = numpy.timedelta64(1, 'D')
t = [numpy.datetime64('2000-01-01', 'ns') + i * d for i in range(4)]
col = create(make(t))
col.insert(make(t))
got = [x[1] for x in col.map_overlap(lambda zds: zds['var'].array.tolist(), depth=2, delayed=False).compute()]
finish(got == [[0, 1, 2], [0, 1, 2, 3], [0, 1, 2, 3], [1, 2, 3]], f'{got}')
'''
