PROPERTY = 'C02'
NEEDS = 'a lazy dataset partitioned by several keys in which two successive records differ only by the first key'
BREAKS = 'records of another first key are stored in the partition of the previous one'
EDITS = [('zcollection/partitioning/abc.py', '''    mask[1:] = (_logical_or_reduce(arr, axis=1)
                if arr.ndim > 1 else arr[1:] != arr[:-1])
''', '''    if arr.ndim > 1:
        # The last key is the one that varies the fastest.
        arr_keys = arr[:, -1]
    else:
        arr_keys = arr
    mask[1:] = arr_keys[1:] != arr_keys[:-1]
''')]
DEMO = '''
c = client()
p = partitioning.Sequence(('cycle', 'pass'))
wrap = dask.array.from_array
zds = dataset.Dataset([
    dataset.DelayedArray('cycle', wrap(numpy.array([1, 1, 2, 2])), ('n',)),
    dataset.DelayedArray('pass', wrap(numpy.array([1, 2, 2, 3])), ('n',))])
got = [(k, s['n'].start, s['n'].stop) for k, s in p.split_dataset(zds, 'n')]
finish(len(got) == 4, str(got))
'''
