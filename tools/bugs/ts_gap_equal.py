PROPERTY = 'C05'
NEEDS = 'a tolerance and a gap between two inserted records exactly equal to it, with a stored record inside the gap'
BREAKS = 'a stored record superseded by the inserted run is kept'
EDITS = [('zcollection/merging/time_series.py', 'numpy.where(delta > tolerance)[0]', 'numpy.where(delta >= tolerance)[0]')]
DEMO = '''
c = client()
day = numpy.datetime64('2000-01-01', 'ns')
h = numpy.timedelta64(1, 'h')
col = create(make([day + i * h for i in range(5)]))
col.insert(make([day + i * h for i in range(7)]))
col.insert(make([day + 2 * h, day + 4 * h], numpy.array([100, 101])), merge_callable=merging.merge_time_series, tolerance=numpy.timedelta64(2, 'h'))
got = col.load(delayed=False)['var'].array.tolist()
finish(got == [0, 1, 100, 101, 5, 6], f'{got}')
'''
