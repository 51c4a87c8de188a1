"""C28: expressions evaluate like Python over their variables only."""

import cloudpickle
import dask.array
import numpy
from hypothesis import strategies as st

from ..core import Sub

RULE = ('filter: an expression generated from the grammar (integer literals, '
        'keys, unary and binary arithmetic, chained comparisons, membership '
        'in tuples, lists and ranges, and/or/not, conditional expressions) '
        'and several key bindings; the result (or the exception type) is '
        'that of the reference evaluator working on the generated tree, also '
        'after serialisation, and the bindings are unchanged. Expressions '
        'using a name that is not a key, an undeclared builtin or an '
        'attribute are refused with NameError. dataset: an arithmetic '
        'expression over the variables of a dataset, in memory or lazy, with '
        'the declared functions, against numpy on the masked arrays. '
        'Non-trivial: at least one key and one operator.')
ASSUMPTIONS = ['serialisation is that of Dask (cloudpickle): code objects '
               'cannot be pickled by the standard module']
KEYS = ('year', 'month', 'day', 'cycle', 'pass_number', 'range_')

_leaf = st.one_of(st.integers(0, 40).map(lambda v: ['int', v]),
                  st.sampled_from([1999, 2000, 2023]).map(lambda v: ['int', v]),
                  st.sampled_from(KEYS).map(lambda v: ['key', v]),
                  st.sampled_from(KEYS).map(lambda v: ['key', v]),
                  st.booleans().map(lambda v: ['bool', v]))


def _extend(children):
    return st.one_of(
        st.tuples(st.sampled_from(['+', '-', '*', '//', '%', '/', '&', '|',
                                   '^']),
                  children, children).map(lambda t: ['bin', *t]),
        st.tuples(st.sampled_from(['-', '+', '~']), children).map(
            lambda t: ['un', *t]),
        st.tuples(children,
                  st.lists(st.tuples(
                      st.sampled_from(['==', '!=', '<', '<=', '>', '>=']),
                      children).map(list), min_size=1, max_size=2)).map(
                          lambda t: ['cmp', *t]),
        st.tuples(children, st.booleans(),
                  st.sampled_from(['(,)', '[]', '{}']),
                  st.lists(children, min_size=1, max_size=4)).map(
                      lambda t: ['in', *t]),
        st.tuples(children, st.booleans(),
                  st.lists(children, min_size=1, max_size=3)).map(
                      lambda t: ['range', *t]),
        st.tuples(st.sampled_from(['and', 'or']),
                  st.lists(children, min_size=2, max_size=3)).map(
                      lambda t: ['logic', *t]),
        children.map(lambda t: ['not', t]),
        st.tuples(children, children, children).map(lambda t: ['if', *t]))


def text_of(node):
    kind = node[0]
    if kind in ('int', 'bool', 'key', 'name'):
        return str(node[1])
    if kind == 'bin':
        return f'({text_of(node[2])} {node[1]} {text_of(node[3])})'
    if kind == 'un':
        return f'({node[1]}{text_of(node[2])})'
    if kind == 'cmp':
        return '(' + text_of(node[1]) + ''.join(
            f' {op} {text_of(v)}' for op, v in node[2]) + ')'
    if kind == 'in':
        items = ', '.join(text_of(v) for v in node[4])
        items = {'(,)': f'({items},)', '[]': f'[{items}]',
                 '{}': '{' + items + '}'}[node[3]]
        return f"({text_of(node[1])} {'not in' if node[2] else 'in'} {items})"
    if kind == 'range':
        items = ', '.join(text_of(v) for v in node[3])
        return (f"({text_of(node[1])} {'not in' if node[2] else 'in'} "
                f'range({items}))')
    if kind == 'logic':
        return '(' + f' {node[1]} '.join(text_of(v) for v in node[2]) + ')'
    if kind == 'not':
        return f'(not {text_of(node[1])})'
    return f'({text_of(node[1])} if {text_of(node[2])} else {text_of(node[3])})'


import operator as _o  # noqa: E402

BIN = {'+': _o.add, '-': _o.sub, '*': _o.mul, '//': _o.floordiv, '%': _o.mod,
       '/': _o.truediv, '&': _o.and_, '|': _o.or_, '^': _o.xor}
UN = {'-': _o.neg, '+': _o.pos, '~': _o.invert}
CMP = {'==': _o.eq, '!=': _o.ne, '<': _o.lt, '<=': _o.le, '>': _o.gt,
       '>=': _o.ge}


def value_of(node, env):
    kind = node[0]
    if kind in ('int', 'bool'):
        return node[1]
    if kind == 'key':
        return env[node[1]]
    if kind == 'bin':
        return BIN[node[1]](value_of(node[2], env), value_of(node[3], env))
    if kind == 'un':
        return UN[node[1]](value_of(node[2], env))
    if kind == 'cmp':
        left = value_of(node[1], env)
        result = True
        for op, item in node[2]:
            right = value_of(item, env)
            result = CMP[op](left, right)
            if not result:
                return result
            left = right
        return result
    if kind == 'in':
        left = value_of(node[1], env)
        items = [value_of(v, env) for v in node[4]]
        return any(left == v for v in items) is not node[2]
    if kind == 'range':
        left = value_of(node[1], env)
        items = range(*[value_of(v, env) for v in node[3]])
        return (left in items) is not node[2]
    if kind == 'logic':
        result = None
        for item in node[2]:
            result = value_of(item, env)
            if bool(result) is (node[1] == 'or'):
                return result
        return result
    if kind == 'not':
        return not value_of(node[1], env)
    return value_of(node[1], env) if value_of(node[2], env) else \
        value_of(node[3], env)




@st.composite
def filter_cases(draw):
    return dict(tree=draw(st.recursive(_leaf, _extend, max_leaves=10)),
                env=[{k: draw(st.one_of(st.integers(0, 40),
                                        st.sampled_from([1999, 2000, 2023])))
                      for k in KEYS} for _ in range(2)],
                bad=draw(st.one_of(
                    st.none(),
                    st.sampled_from(['unknown', 'years', 'len', 'print',
                                     '__import__', 'int', 'abs', 'year.real',
                                     'open', 'min']))))


def attempt(func):
    try:
        return 'value', func()
    except Exception as exc:  # noqa: BLE001 - compared with the oracle
        return 'error', type(exc).__name__


def run_filter(case, ctx):
    from zcollection.expression import Expression
    text = text_of(case['tree'])
    expr = Expression(text)
    copy = cloudpickle.loads(cloudpickle.dumps(expr))
    for env in case['env']:
        want = attempt(lambda: value_of(case['tree'], env))
        for this in (expr, copy, Expression(text)):
            binding = dict(env)
            got = attempt(lambda: this(binding))
            assert got == want and type(got[1]) is type(want[1]), \
                f'{text} over {env}: {got} expected {want}'
            assert binding == env, 'binding changed'
        ctx.label(want[0])
    bad = case['bad']
    if bad is not None:
        call = bad if bad in ('unknown', 'years', 'year.real') else f'{bad}(1)'
        for form in (call, f'({text}) and ({call})', f'({call}) == 1',
                     f'{call} if {call} else 2'):
            # An error of the other operand may come first.
            first = attempt(lambda: value_of(case['tree'], case['env'][0]))
            got = attempt(lambda: Expression(form)(dict(case['env'][0])))
            ok = ('error', 'NameError')
            assert got == ok or (form.startswith('(' + text) and
                                 got == first and first[0] == 'error'), \
                f'{form}: {got}'
        ctx.label('refused')
    names = {n for n in KEYS if n in text}
    ctx.nt(bool(names) and len(text) > 12)


# -- expressions over datasets ----------------------------------------------

FUNCS = ('sin', 'cos', 'exp', 'sqrt', 'abs', 'floor', 'ceil', 'isnan',
         'isfinite', 'log', 'arctan', 'tanh')

_dleaf = st.one_of(st.integers(1, 5).map(lambda v: ['int', v]),
                   st.sampled_from(['a', 'b']).map(lambda v: ['key', v]),
                   st.sampled_from(['a', 'b']).map(lambda v: ['key', v]))


def _dextend(children):
    return st.one_of(
        st.tuples(st.sampled_from(['+', '-', '*']), children, children).map(
            lambda t: ['bin', *t]),
        st.tuples(st.sampled_from(FUNCS[:7]), children).map(
            lambda t: ['fn', *t]),
        st.tuples(st.sampled_from(['arctan2', 'power']), children,
                  children).map(lambda t: ['fn2', *t]))


@st.composite
def dataset_cases(draw):
    n = draw(st.integers(1, 6))
    return dict(tree=draw(st.recursive(_dleaf, _dextend, max_leaves=6)),
                a=[draw(st.integers(-5, 9)) for _ in range(n)],
                b=[draw(st.integers(-5, 9)) for _ in range(n)],
                fill=draw(st.sampled_from([None, 0, 3])),
                lazy=draw(st.booleans()))


def dtext(node):
    if node[0] in ('int', 'key'):
        return str(node[1])
    if node[0] == 'bin':
        return f'({dtext(node[2])} {node[1]} {dtext(node[3])})'
    if node[0] == 'fn':
        return f'{node[1]}({dtext(node[2])})'
    return f'{node[1]}({dtext(node[2])}, {dtext(node[3])})'


def dvalue(node, env):
    if node[0] == 'int':
        return node[1]
    if node[0] == 'key':
        return env[node[1]]
    if node[0] == 'bin':
        return BIN[node[1]](dvalue(node[2], env), dvalue(node[3], env))
    return getattr(numpy, node[1])(*[dvalue(v, env) for v in node[2:]])


def run_dataset(case, ctx):
    from zcollection import dataset
    raw = {k: numpy.array(case[k], 'float64') for k in 'ab'}
    cls = dataset.DelayedArray if case['lazy'] else dataset.Array
    zds = dataset.Dataset([
        cls(k, dask.array.from_array(v, chunks=2) if case['lazy'] else v,
            ('n', ), fill_value=case['fill'] if k == 'a' else None)
        for k, v in raw.items()
    ])
    env = dict(raw)
    if case['fill'] is not None:
        env['a'] = numpy.ma.masked_equal(raw['a'], case['fill'])
    text = dtext(case['tree'])
    with numpy.errstate(all='ignore'):
        want = dvalue(case['tree'], env)
        got = dataset.Expression(text)(zds)
        if isinstance(got, dask.array.Array):
            got = got.compute()
    mask = numpy.ma.getmaskarray(numpy.ma.asarray(want))
    assert numpy.array_equal(numpy.ma.getmaskarray(numpy.ma.asarray(got)),
                             mask), f'{text}: mask of {got} not {want}'
    a, b = (numpy.ma.filled(numpy.ma.asarray(x).astype('float64'), 0.)
            for x in (got, want))
    assert numpy.allclose(a, b, rtol=1e-12, equal_nan=True), \
        f'{text}: {got} expected {want}'
    for bad in ('c + a', 'open(a)', 'len(a)'):
        got = attempt(lambda: dataset.Expression(bad)(zds))
        assert got == ('error', 'NameError'), f'{bad}: {got}'
    ctx.nt(case['tree'][0] in ('bin', 'fn', 'fn2'))


SUBS = [Sub('filter', filter_cases(), run_filter, 400, 8000),
        Sub('dataset', dataset_cases(), run_dataset, 80, 1500)]
