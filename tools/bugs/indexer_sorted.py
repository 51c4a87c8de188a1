PROPERTY = 'C10'
NEEDS = 'an indexer designating several slices of one partition, not in increasing order'
BREAKS = 'the slices are returned in another order than the one given'
EDITS = [('zcollection/collection/abc.py', '''    return ((item, indexers_map[item]) for item in sorted(selected_partitions))''', '''    return ((item,
             sorted(indexers_map[item], key=lambda item: item.start or 0))
            for item in sorted(selected_partitions))''')]
DEMO = '''
c = client()
day = numpy.datetime64('2000-01-01', 'ns')
t = [day + i for i in range(6)]
col = create(make(t))
col.insert(make(t))
key = (('year', 2000), ('month', 1), ('day', 1))
got = col.load(delayed=False, indexer=[(key, slice(4, 6)), (key, slice(0, 2))])['var'].array.tolist()
finish(got == [4, 5, 0, 1], f'{got}')
'''
