"""C27: period relations and operations agree with sets of instants."""
import pickle

import numpy
from hypothesis import strategies as st

from ..core import Sub

RULE = ('A case is a time unit, an origin and three periods of up to a dozen '
        'instants around it (touching, nested, equal, disjoint, single '
        'instant, empty), each given by an inclusive or exclusive end or a '
        'duration, plus points and durations. Every predicate and operation '
        'is compared with the same question on the set of integer ticks; the '
        'relation is compared with its definition on the bounds and with the '
        'predicates built on it. Non-trivial: the first two periods are not '
        'empty and differ.')
ASSUMPTIONS = ['periods of the same unit; operations between two periods are '
               'compared for non-empty operands']
UNITS = ('as', 'fs', 'ps', 'ns', 'us', 'ms', 's', 'm', 'h', 'D', 'W', 'M', 'Y')


@st.composite
def cases(draw):
    small = st.integers(-7, 7)
    spec = st.tuples(small, st.integers(-2, 9),
                     st.sampled_from(['within', 'open', 'duration']))
    return dict(unit=draw(st.sampled_from(UNITS)),
                origin=draw(st.one_of(st.sampled_from([0, -1, 30]),
                                      st.integers(-10**6, 10**6))),
                periods=[list(draw(spec)) for _ in range(3)],
                points=draw(st.lists(st.integers(-12, 20), min_size=1,
                                     max_size=5)),
                delta=draw(st.integers(-3, 5)))


def run(case, ctx):
    from zcollection.merging.period import Period, PeriodRelation
    unit, origin = case['unit'], case['origin']

    def at(tick):
        return numpy.datetime64(origin + tick, unit)

    def ticks(period):
        begin = int(period.begin.astype('int64')) - origin
        last = int(period.last.astype('int64')) - origin
        return set(range(begin, last + 1))

    made = []
    for begin, size, how in case['periods']:
        if how == 'within':
            this = Period(at(begin), at(begin + size - 1), within=True)
        elif how == 'open':
            this = Period(at(begin), at(begin + size))
        else:
            this = Period.from_duration(at(begin),
                                        numpy.timedelta64(size, unit))
        want = set(range(begin, begin + size))
        made.append((this, want))
        text = f'{begin}+{size} {how}'
        assert ticks(this) == want, text
        assert this.is_null() is (not want), text
        assert this.length() == numpy.timedelta64(size, unit), text
        assert this.begin == at(begin) and this.end() == at(begin + size), text
        if want:
            assert this.last == at(begin + size - 1), text
        for point in case['points']:
            assert this.contains(at(point)) is (point in want), (text, point)
            assert this.is_after(at(point)) is bool(
                want and point < min(want)), (text, point)
            assert this.is_before(at(point)) is bool(
                want and max(want) < point), (text, point)
        copy = pickle.loads(pickle.dumps(this))
        assert copy == this and ticks(copy) == want and not copy != this, text
        assert copy.end() == this.end()
        delta = case['delta']
        copy.shift(numpy.timedelta64(delta, unit))
        assert ticks(copy) == {t + delta for t in want}, text
        assert copy.length() == numpy.timedelta64(size, unit)
        copy = pickle.loads(pickle.dumps(this))
        copy.expand(numpy.timedelta64(delta, unit))
        assert ticks(copy) == set(range(begin - delta, begin + size + delta))
        assert copy.length() == numpy.timedelta64(size + 2 * delta, unit)
        assert ticks(this) == want

    for p1, s1 in made:
        for p2, s2 in made:
            if not s1 or not s2:
                ctx.label('empty')
                continue
            text = f'{sorted(s1)} {sorted(s2)}'
            b1, l1, b2, l2 = min(s1), max(s1), min(s2), max(s2)
            assert bool(p1 == p2) is (s1 == s2), text
            assert bool(p1 != p2) is (s1 != s2), text
            assert bool(p1 < p2) is (l1 < b2), text
            assert bool(p1 > p2) is (b1 > l2), text
            assert p1.contains(p2) is (s2 <= s1), text
            assert bool(p1.is_adjacent(p2)) is (
                l1 + 1 == b2 or l2 + 1 == b1), text
            assert p1.intersects(p2) is bool(s1 & s2), text
            inter = p1.intersection(p2)
            assert ticks(inter) == s1 & s2, f'{text}: {ticks(inter)}'
            assert inter.is_null() is (not s1 & s2), text
            union = p1.merge(p2)
            assert ticks(union) == (s1 | s2 if s1 & s2 else set()), text
            span = p1.span(p2)
            assert ticks(span) == set(range(min(b1, b2),
                                            max(l1, l2) + 1)), text
            rel = p1.get_relation(p2)
            want = (
                'AFTER' if l2 < b1 else 'BEFORE' if b2 > l1 else
                'EXACT_MATCH' if s1 == s2 else
                'START_TOUCHING' if l2 == b1 else
                'END_TOUCHING' if b2 == l1 else
                'ENCLOSING_START_TOUCHING' if b1 == b2 and l1 > l2 else
                'ENCLOSING_END_TOUCHING' if b1 < b2 and l1 == l2 else
                'ENCLOSING' if b1 < b2 and l1 > l2 else
                'INSIDE_START_TOUCHING' if b1 == b2 and l1 < l2 else
                'INSIDE_END_TOUCHING' if b1 > b2 and l1 == l2 else
                'INSIDE' if b1 > b2 and l1 < l2 else
                'START_INSIDE' if b1 > b2 else 'END_INSIDE')
            assert rel is PeriodRelation[want], f'{text}: {rel} not {want}'
            ctx.label(want)
            # The six coarse predicates.  A single instant on the border of
            # the other period is both inside it and touching it.
            flags = dict(after=rel.is_after(), before=rel.is_before(),
                         contains=rel.contains(), inside=rel.is_inside(),
                         bo=rel.is_before_overlapping(),
                         ao=rel.is_after_overlapping())
            assert sum(flags.values()) == 1, f'{text}: {rel} {flags}'
            assert flags['after'] is (l2 < b1), text
            assert flags['before'] is (l1 < b2), text
            if len(s1) > 1 and len(s2) > 1:
                meet = bool(s1 & s2)
                assert flags['contains'] is (s2 <= s1), text
                assert flags['inside'] is (b1 > b2 and l1 < l2), text
                assert flags['bo'] is (meet and b1 <= b2 and l1 < l2), text
                assert flags['ao'] is (meet and b1 > b2 and l1 >= l2), text
            assert ticks(p1) == s1 and ticks(p2) == s2, 'operand changed'
    ctx.nt(bool(made[0][1] and made[1][1] and made[0][1] != made[1][1]))


SUBS = [Sub('algebra', cases(), run, 1500, 40000)]
