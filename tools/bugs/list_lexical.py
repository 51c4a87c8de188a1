PROPERTY = 'C03'
NEEDS = 'keys whose numeric and alphabetical orders differ (2 and 10, negative keys)'
BREAKS = 'partitions are listed in alphabetical order'
EDITS = [('zcollection/partitioning/abc.py', '''        yield from sorted(list_partitions(fs, path, depth=len(self) - 1),
                          key=self.parse)''', '''        yield from sorted(list_partitions(fs, path, depth=len(self) - 1),
                          key=lambda item: (len(item), self.parse(item)))''')]
DEMO = '''
p = partitioning.Sequence(('a', 'b'))
for a, b in ((1, 100), (2, 3), (10, 1)):
    FS.makedirs(f'/demo/p/a={a}/b={b}')
got = [p.encode(p.parse(x)) for x in p.list_partitions(FS, '/demo/p')]
finish(got == [(1, 100), (2, 3), (10, 1)], f'{got}')
'''
