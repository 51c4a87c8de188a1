PROPERTY = 'C27'
NEEDS = 'merging a period with one that begins at the same instant and ends before it'
BREAKS = 'the union of two intersecting periods loses the instants after the end of the second one'
EDITS = [('zcollection/merging/period.py', '''            return Period(
                other.begin,
                self.end() if self._last > other.last else other.end())
        # no intersect''', '''            return Period(
                other.begin, self.end() if self._begin > other.begin
                and self._last > other.last else other.end())
        # no intersect''')]
DEMO = '''
from zcollection.merging.period import Period
d = lambda i: numpy.datetime64('2000-01-01', 'D') + i
p = Period(d(0), d(10)).merge(Period(d(0), d(4)))
finish(p.begin == d(0) and p.end() == d(10), repr(p))
'''
