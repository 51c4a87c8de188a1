PROPERTY = 'C29'
NEEDS = 'copying a file larger than one mebibyte'
BREAKS = 'the end of large files is not copied'
EDITS = [('zcollection/fs_utils.py', '''            target_stream.write(source_stream.read())  # type: ignore[arg-type]''', '''            while True:
                block = source_stream.read(1 << 20)
                target_stream.write(block)  # type: ignore[arg-type]
                if len(block) <= 1 << 20:
                    break''')]
DEMO = '''
from zcollection import fs_utils
data = os.urandom(3 * 1048576 + 17)
FS.pipe('/demo/a', data)
fs_utils.copy_file('/demo/a', '/demo/b', FS, FS)
finish(FS.cat('/demo/b') == data, f'{len(FS.cat("/demo/b"))} bytes copied')
'''
