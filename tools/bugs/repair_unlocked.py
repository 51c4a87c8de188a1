PROPERTY = 'C25'
NEEDS = 'repairing a damaged collection that has a synchroniser'
BREAKS = 'the damaged partitions are removed without holding the lock'
EDITS = [('zcollection/collection/__init__.py', '''        if fix and invalid_partitions:
            with self.synchronizer:
                for item in invalid_partitions:
                    _LOGGER.info('Removing invalid partition: %s', item)
                    self.fs.rm(item, recursive=True)
''', '''        if fix and invalid_partitions:
            for item in invalid_partitions:
                with self.synchronizer:
                    _LOGGER.info('Removing invalid partition: %s', item)
                self.fs.rm(item, recursive=True)
''')]
DEMO = '''
from zcollection import sync
sync.held = False
class Rec(sync.Sync):

    def __enter__(self):
        sync.held = True
        return True
    def __exit__(self, *args):
        sync.held = False
    def is_locked(self):
        return sync.held
from fsspec.implementations.memory import MemoryFileSystem
sync.bad = []
class Spy(MemoryFileSystem):
    def rm(self, path, *a, **k):
        if not sync.held:
            sync.bad.append(path)
        return super().rm(path, *a, **k)
c = client()
fs = Spy()
day = numpy.datetime64('2000-01-01', 'ns')
col = create(make([day]), fs=fs, synchronizer=Rec())
col.insert(make([day]))
p = list(col.partitions())[0]
fs.pipe(p + '/var/0', b'xx')
sync.bad.clear()
col.validate_partitions(fix=True)
finish(not sync.bad, f"removed without the lock: {sync.bad}")
'''
