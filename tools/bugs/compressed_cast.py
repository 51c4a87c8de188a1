PROPERTY = 'C22'
NEEDS = 'converting a masked compressed array to a narrower data type in which the fill value collides with another value'
BREAKS = 'the fill value is looked for after the conversion: masked values appear and other ones are masked'
EDITS = [('zcollection/compressed_array.py', '''        array: Array = self._array[...]
        if self._fill_value is not None:
            array = numpy.ma.masked_equal(array, self._fill_value)
        if dtype is not None:
            array = array.astype(dtype)
        return array
''', '''        array: Array = self._array[...]
        if dtype is not None:
            array = array.astype(dtype)
        if self._fill_value is not None:
            array = numpy.ma.masked_equal(array, self._fill_value)
        return array
''')]
DEMO = '''
from zcollection.compressed_array import CompressedArray
a = CompressedArray(numpy.array([1, 300, 44, 2], 'int32'), fill_value=300)
got = a.astype('int8')
finish(numpy.ma.getmaskarray(got).tolist() == [False, True, False, False], repr(got))
'''
