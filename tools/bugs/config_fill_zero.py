PROPERTY = 'C16'
NEEDS = 'a variable whose fill value is zero (falsy), and a reopening'
BREAKS = 'the fill value is lost by saving the configuration'
EDITS = [('zcollection/meta.py', """            'fill_value': zarr.meta.encode_fill_value(self.fill_value,
                                                      self.dtype),""", """            'fill_value': zarr.meta.encode_fill_value(self.fill_value or None,
                                                      self.dtype),""")]
DEMO = '''
import json
v = meta.Variable('a', numpy.dtype('int32'), dimensions=('n',), fill_value=0)
w = meta.Variable.from_config(json.loads(json.dumps(v.get_config())))
finish(w.fill_value is not None and w.fill_value == 0, f'fill value {w.fill_value!r}')
'''
