PROPERTY = 'C13'
NEEDS = 'dropping a variable of a collection opened read-only'
BREAKS = 'a collection opened read-only is modified'
EDITS = [('zcollection/collection/__init__.py', """                'drop_variable',
                'insert',""", """                'insert',""")]
DEMO = '''
c = client()
day = numpy.datetime64('2000-01-01', 'ns')
col = create(make([day]))
col.insert(make([day]))
import io
ro = zcollection.open_collection('/demo/col', mode='r', filesystem=FS)
try:
    ro.drop_variable('var')
    finish(False, 'variable dropped in read-only mode')
except io.UnsupportedOperation:
    finish('var' in zcollection.open_collection('/demo/col', filesystem=FS).load(delayed=False).variables)
'''
