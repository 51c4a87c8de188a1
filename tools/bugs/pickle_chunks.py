PROPERTY = 'C21'
NEEDS = 'a dictionary asked for a selection of variables of a lazy dataset one of which has a fill value'
BREAKS = 'masked positions are lost in the dictionary when some variables are selected'
EDITS = [('zcollection/dataset.py', '''            arrays = tuple((key, value.data)
                           for key, value in self.variables.items()
                           if key in variables)''', '''            arrays = tuple((key, value.data if len(variables) == len(self)
                            else value.array)
                           for key, value in self.variables.items()
                           if key in variables)''')]
DEMO = '''
zds = dataset.Dataset([dataset.DelayedArray('a', dask.array.from_array(numpy.array([1, -1])), ('n',), fill_value=-1),
   dataset.DelayedArray('b', dask.array.from_array(numpy.array([1, 2])), ('n',))])
got = zds.to_dict(variables=('a',))['a']
finish(numpy.ma.getmaskarray(got).tolist() == [False, True], repr(got))
'''
