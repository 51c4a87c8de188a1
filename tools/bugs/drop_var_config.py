PROPERTY = 'C04'
NEEDS = 'dropping a variable of a collection that has no partition, then reopening it'
BREAKS = 'the configuration on storage is not updated by the removal of the variable'
EDITS = [('zcollection/collection/__init__.py', '''        del self.metadata.variables[variable]
        self._write_config()''', '''        del self.metadata.variables[variable]
        self._write_config(skip_if_exists=not any(self.partitions()))''')]
DEMO = '''
c = client()
day = numpy.datetime64('2000-01-01', 'ns')
col = create(make([day]))
col.drop_variable('var')
col = zcollection.open_collection('/demo/col', mode='w', filesystem=FS)
finish('var' not in col.metadata.variables, 'the variable is back')
'''
ALSO = ['C14', 'C16']
