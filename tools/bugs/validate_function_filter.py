PROPERTY = 'C07'
NEEDS = 'a filter given as a function (not an expression) when validating damaged partitions'
BREAKS = 'partitions that the filter does not select are validated and removed'
EDITS = [('zcollection/collection/__init__.py', '''        partitions = tuple(self.partitions(filters=filters))
        if not partitions:
            return []''', '''        partitions = tuple(
            self.partitions(filters=filters if isinstance(filters, str
                                                          ) else None))
        if not partitions:
            return []''')]
DEMO = '''
c = client()
d = numpy.timedelta64(1, 'D')
t = [numpy.datetime64('2000-01-01', 'ns') + i * d for i in range(2)]
col = create(make(t))
col.insert(make(t))
for p in col.partitions():
    FS.pipe(p + '/var/0', b'xx')
got = [x[-6:] for x in col.validate_partitions(filters=lambda k: k['day'] == 1)]
finish(got == ['day=01'], f'{got}')
'''
ALSO = ['C23']
