PROPERTY = 'C12'
NEEDS = 'a storage failure that is not an OSError while a new partition is written'
BREAKS = 'a half-written partition is listed and loaded'
EDITS = [('zcollection/collection/detail.py', '''    except:  # noqa: E722
        # If the construction''', '''    except OSError:
        # If the construction''')]
DEMO = '''
import numcodecs, numcodecs.abc
class Bad(numcodecs.abc.Codec):
    codec_id = 'bad_codec'
    def encode(self, buf):
        raise ValueError('cannot encode')
    def decode(self, buf, out=None):
        return buf
numcodecs.register_codec(Bad)
c = client()
day = numpy.datetime64('2000-01-01', 'ns')
def ds(bad):
    return dataset.Dataset([dataset.Array('time', numpy.array([day]), ('n',)),
        dataset.Array('var', numpy.array([1]), ('n',), fill_value=-1, filters=(Bad(),) if bad else ())])
col = create(ds(False))
try:
    col.insert(ds(True))
except Exception:
    pass
got = list(col.partitions())
finish(got == [], f'{got} left')
'''
