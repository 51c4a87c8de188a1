"""C26: results do not depend on batching, workers, chunk parallelism."""
from hypothesis import strategies as st

from .. import env
from ..core import Sub
from . import (c01, c04, c05, c06, c08, c09, c10, c11, c14, c15, c17, c18,
               c24)

RULE = ('part batches: sequences of 0-40 items and numbers of batches: every '
        'item once, in order, in min(n, items) batches whose sizes differ by '
        'at most one; a number below one is refused. part parallel: the '
        'cases of the other properties (round trips, write histories, time '
        'series and user merges, updates, maps, indexers, indexes, variables '
        'added and dropped, copies, views, synchronisations, variables not '
        'partitioned; they draw batch sizes, bag sizes and chunkings) '
        'executed on Dask clusters of other shapes: several threads, several '
        'workers, workers reached through TCP (everything is serialised). '
        'Oracle: the sequential reference models of these properties, which '
        'do not depend on the settings. Non-trivial: the rule of the '
        'property the case comes from, or more than one item.')
ASSUMPTIONS = ['workers are threads of one process; schedules are those the '
               'operating system produces']

SHAPES = ((1, 4, 'inproc'), (2, 1, 'inproc'), (3, 2, 'inproc'),
          (2, 2, 'tcp'), (1, 1, 'tcp'))
PROGRAMS = dict(c01=(c01.cases, c01.run), c04=(c04.cases, c04.run),
                c05=(c05.stored_cases, c05.run_stored),
                c06=(c06.cases, c06.run), c08=(c08.cases, c08.run),
                c09=(c09.cases, c09.run), c10=(c10.cases, c10.run),
                c10v=(c10.view_cases, c10.run_view),
                c11=(c11.cases, c11.run), c14=(c14.cases, c14.run),
                c15=(c15.cases, c15.run_one), c17=(c17.cases, c17.run),
                c18=(c18.cases, c18.run), c24=(c24.cases, c24.run))


@st.composite
def cases(draw):
    name = draw(st.sampled_from(sorted(PROGRAMS)))
    return dict(program=name, shape=list(draw(st.sampled_from(SHAPES))),
                case=draw(PROGRAMS[name][0]()))


def run(case, ctx):
    with env.cluster(*case['shape']):
        ctx.label(case['program'])
        ctx.label(f"shape {case['shape']}")
        PROGRAMS[case['program']][1](case['case'], ctx)


@st.composite
def batch_cases(draw):
    return dict(size=draw(st.integers(0, 40)),
                sections=draw(st.one_of(st.none(), st.integers(-2, 50))),
                kind=draw(st.sampled_from(['list', 'tuple', 'range'])))


def run_batches(case, ctx):
    from zcollection import dask_utils
    size, sections = case['size'], case['sections']
    items = {'list': list, 'tuple': tuple, 'range': lambda x: x}[
        case['kind']](range(100, 100 + size))
    ctx.nt(size > 1)
    if sections is not None and sections < 1:
        try:
            tuple(dask_utils.split_sequence(items, sections))
        except ValueError:
            ctx.label('refused')
            return
        raise AssertionError('accepted')
    got = [list(x) for x in dask_utils.split_sequence(items, sections)]
    assert sum(got, []) == list(items), f'{got}'
    want = size if sections is None else min(size, sections)
    assert len(got) == want, f'{len(got)} batches, expected {want}'
    if got:
        sizes = [len(x) for x in got]
        assert max(sizes) - min(sizes) <= 1, f'sizes {sizes}'


SUBS = [Sub('batches', batch_cases(), run_batches, 300, 5000),
        Sub('parallel', cases(), run, 45, 900)]
