PROPERTY = 'C23'
NEEDS = 'a damaged chunk that is not the first one of its variable'
BREAKS = 'a partition with an unreadable chunk is reported as valid'
EDITS = [('zcollection/storage.py', '''            data: NDArray = array[...]  # type: ignore
            del data''', '''            data: NDArray = array[tuple(  # type: ignore
                slice(0, chunk) for chunk in array.chunks)]
            del data''')]
DEMO = '''
c = client()
day = numpy.datetime64('2000-01-01', 'ns')
t = [day + i for i in range(6)]
zds = make(t, chunks=[meta.Dimension('n', 2)])
col = create(zds)
col.insert(zds)
p = list(col.partitions())[0]
FS.pipe(p + '/var/2', b'xx')
got = col.validate_partitions()
finish(got == [p], f'{got}')
'''
