PROPERTY = 'C30'
NEEDS = 'inserting a dataset whose variables carry attributes of their own, then mapping a function that reads them'
BREAKS = 'the variables of the loaded dataset keep the attributes of the inserted dataset when the collection defines none for them'
EDITS = [('zcollection/variable/abc.py', '''        self.attrs = var.attrs

    def metadata''', '''        self.attrs = var.attrs or self.attrs

    def metadata'''), ('zcollection/variable/abc.py', '''                            array=self.array,
                            dimensions=self.dimensions,
                            attrs=(),''', '''                            array=self.array,
                            dimensions=self.dimensions,
                            attrs=self.attrs,''')]
DEMO = '''
c = client()
day = numpy.datetime64('2000-01-01', 'ns')
def ds(attrs):
    return dataset.Dataset([dataset.Array('time', numpy.array([day]), ('n',)),
        dataset.Array('var', numpy.array([1]), ('n',), fill_value=-1, attrs=attrs)])
col = create(ds(()))
col.insert(ds((dataset.Attribute('units', 'm'),)))
got = col.load(delayed=False)['var'].attrs
finish(got == (), f'{got}')
'''
