"""V03: Array nodes accept exactly the matching type, shape and range."""
import numpy as np

from sx.case import registry
from props.common import FLOATS, INTS, accepted

CASES, case = registry()
NMAX = 40
ASSUMPTIONS = ['shape limits and dimensions up to %d' % NMAX,
               'element limits of floating point arrays are representable in '
               'the data type; no claim whether NaN elements are in range']


def verdict(E, node, value):
    """Verdict of the schema node and of a data node holding the value."""
    import dsch
    ok = accepted(E, node.validate, value, [])
    storage = dsch.create('::inmem::', node)
    storage.data.value = value
    E.check('array_node_agrees', accepted(E, storage.validate) == ok)
    return ok


def limit(E, name, ndim):
    """Absent, or a tuple of absent or arbitrary limits."""
    if not E.choice(name, [False, True]):
        return None
    return tuple(E.int('%s.%d' % (name, i), 0, NMAX)
                 if E.choice('%s?%d' % (name, i), [True, False]) else None
                 for i in range(ndim))


@case(grid={'ndim': [1, 2], 'reloaded': [False, True]},
      grid_thorough={'ndim': [1, 2, 3]},
      bounds='arrays of 1-2 (thorough: 3) dimensions of 0..%d; any '
             'combination of absent and arbitrary limits' % NMAX)
def shape_limits(E, ndim, reloaded):
    from dsch import schema
    lo, hi = limit(E, 'min_shape', ndim), limit(E, 'max_shape', ndim)
    node = schema.Array('float64', min_shape=lo, max_shape=hi, ndim=ndim)
    if reloaded:
        node = schema.node_from_json(node.to_json())
    v = E.absarray('value', 'float64', ndim, NMAX)
    c = []
    for i in range(ndim):
        if lo is not None and lo[i] is not None:
            c.append(v.shape[i] >= lo[i])
        if hi is not None and hi[i] is not None:
            c.append(v.shape[i] <= hi[i])
    E.check('accepted_iff_shape_in_limits',
            E.iff(verdict(E, node, v), E.all(c)))


@case(bounds='declared and actual number of dimensions 0..4, any shape')
def dimensions(E):
    from dsch import schema
    how = E.choice('declared', ['ndim', 'default', 'min', 'max', 'both',
                                'shape_and_ndim'])
    n = E.choice('n', range(1, 4))
    actual = E.choice('actual', range(5))
    kw = {}
    if how == 'ndim':
        kw = {'ndim': n}
    elif how == 'default':
        E.assume(n == 1)
    elif how == 'min':
        kw = {'min_shape': (0,) * n}
    elif how == 'max':
        kw = {'max_shape': (NMAX,) * n}
    elif how == 'both':
        kw = {'min_shape': (0,) * n, 'max_shape': (None,) * n}
    else:
        kw = {'ndim': E.choice('ndim', [1, 2, 3])}
        if E.choice('which', ['min', 'max']) == 'min':
            kw['min_shape'] = (0,) * n
        else:
            kw['max_shape'] = (NMAX,) * n
    node = schema.Array('int16', **kw)
    v = E.absarray('value', 'int16', actual, 6)
    E.check('accepted_iff_ndim_matches', verdict(E, node, v) == (n == actual))


@case(bounds='declared shapes of 1..3 dimensions')
def inconsistent_shapes(E):
    from dsch import schema
    a, b = E.choice('a', range(1, 4)), E.choice('b', range(1, 4))
    lo = tuple(E.int('lo%d' % i, 0, 9) for i in range(a))
    hi = tuple(E.int('hi%d' % i, 0, 9) for i in range(b))
    kind, r = E.outcome(schema.Array, 'int8', min_shape=lo, max_shape=hi)
    E.check('shape_limits_of_equal_length',
            (kind == 'ok') == (a == b) and
            (kind == 'ok' or isinstance(r, ValueError)))


@case(grid={'dtype': INTS + FLOATS + ['complex128', 'bool']},
      bounds='an array of each of 13 element types, any length')
def dtype_match(E, dtype):
    from dsch import schema
    form = E.choice('form', ['name', 'dtype', 'type', 'reloaded'])
    dt = {'name': dtype, 'dtype': np.dtype(dtype),
          'type': np.dtype(dtype).type, 'reloaded': np.dtype(dtype)}[form]
    node = schema.Array(dt)
    if form == 'reloaded':
        node = schema.node_from_json(node.to_json())
    other = E.choice('other', INTS + FLOATS + ['complex128', 'bool'])
    v = E.absarray('value', other, 1, 5)
    E.check('accepted_iff_dtype_matches',
            verdict(E, node, v) == (other == dtype))


ORDERS = ['int32', '<i4', '>i4', '=i4', '|i1', '>u2', '<u2', '>f8', '<f8',
          'float64', '>i8', '>c16', '<c16']


@case(grid={'dtype': ORDERS},
      bounds='element types of either byte order, in the schema and the array; '
             'any length')
def byte_order(E, dtype):
    from dsch import schema
    form = E.choice('form', ['name', 'dtype', 'reloaded'])
    node = schema.Array(dtype if form == 'name' else np.dtype(dtype))
    if form == 'reloaded':
        node = schema.node_from_json(node.to_json())
    other = E.choice('other', ORDERS)
    v = E.absarray('value', other, 1, 5)
    E.check('accepted_iff_byte_order_matches',
            verdict(E, node, v) == (np.dtype(other) == np.dtype(dtype)))


def element_limits(E, gen):
    lo = gen('min_value') if E.choice('has_min', [False, True]) else None
    hi = gen('max_value') if E.choice('has_max', [False, True]) else None
    return lo, hi


SHAPES = [(0,), (1,), (2,), (3,), (2, 2), (1, 0)]
MORE = [(5,), (4, 1), (2, 3), (1, 2, 2)]


@case(grid={'dtype': ['int8', 'uint16', 'int64', 'uint64'], 'shape': SHAPES},
      grid_thorough={'dtype': INTS, 'shape': SHAPES + MORE},
      bounds='all elements arbitrary, up to 4 (thorough: 6) elements; limits '
             'absent or any integer of up to 70 bits')
def int_elements(E, dtype, shape):
    from dsch import schema
    lo, hi = element_limits(E, lambda n: E.int(n, -2**70, 2**70))
    node = schema.Array(dtype, ndim=len(shape), min_value=lo, max_value=hi)
    v = E.array('value', dtype, shape)
    c = []
    for x in v.ravel().tolist():
        if lo is not None:
            c.append(x >= lo)
        if hi is not None:
            c.append(x <= hi)
    E.check('accepted_iff_elements_in_range',
            E.iff(verdict(E, node, v), E.all(c)))


@case(grid={'dtype': FLOATS, 'shape': [(0,), (1,), (2,), (1, 2)]},
      grid_thorough={'shape': SHAPES},
      bounds='all elements arbitrary except NaN, up to 2 (thorough: 4) '
             'elements; limits absent or any representable value')
def float_elements(E, dtype, shape):
    from dsch import schema

    def gen(n):
        x = E.scalar(n, dtype)
        E.assume(x == x)
        return x.item()
    lo, hi = element_limits(E, gen)
    node = schema.Array(dtype, ndim=len(shape), min_value=lo, max_value=hi)
    v = E.array('value', dtype, shape)
    c = []
    for x in v.ravel().tolist():
        E.assume(x == x)
        if lo is not None:
            c.append(x >= lo)
        if hi is not None:
            c.append(x <= hi)
    E.check('accepted_iff_float_elements_in_range',
            E.iff(verdict(E, node, v), E.all(c)))


@case(grid={'dtype': FLOATS, 'shape': [(1,), (2,), (3,), (2, 2)]},
      bounds='all elements arbitrary, NaN included; limits absent or any '
             'representable value')
def nan_elements(E, dtype, shape):
    from dsch import schema
    lo, hi = element_limits(E, lambda n: E.scalar(n, dtype).item())
    for x in (lo, hi):
        if x is not None:
            E.assume(x == x)
    node = schema.Array(dtype, ndim=len(shape), min_value=lo, max_value=hi)
    v = E.array('value', dtype, shape)
    ok = accepted(E, node.validate, v, [])
    c = []
    for x in v.ravel().tolist():
        if lo is not None:
            c.append(x < lo)
        if hi is not None:
            c.append(x > hi)
    if ok:
        E.check('elements_out_of_range_rejected_beside_nan',
                E.iff(E.any(c), False))


@case(bounds='a 2-D array with all constraints at once')
def combined(E):
    from dsch import schema
    lo, hi = E.int('min_value', -9, 9), E.int('max_value', -9, 9)
    mins = (E.int('m0', 0, 3), E.int('m1', 0, 3))
    maxs = (E.int('M0', 0, 3), E.int('M1', 0, 3))
    node = schema.Array('int32', unit='V', min_shape=mins, max_shape=maxs,
                        min_value=lo, max_value=hi)
    shape = E.choice('shape', [(1, 1), (1, 2), (2, 1), (2,)])
    v = E.array('value', E.choice('dtype', ['int32', 'int64']), shape)
    c = [len(shape) == 2, v.dtype == np.dtype('int32')]
    for a, b, n in zip(mins, maxs, shape):
        c.append(n >= a)
        c.append(n <= b)
    for x in v.ravel().tolist():
        c.append(x >= lo)
        c.append(x <= hi)
    E.check('accepted_iff_all_constraints_met',
            E.iff(verdict(E, node, v), E.all(c)))


@case(bounds='one value of each of 9 types that are no arrays')
def wrong_types(E):
    from dsch import schema
    node = schema.Array('int32', ndim=E.choice('ndim', [1, 2]))
    table = {
        'none': lambda: None, 'int': lambda: E.int('i', -5, 5),
        'list': lambda: [E.int('i', -5, 5)], 'tuple': lambda: (1, 2),
        'scalar': lambda: E.scalar('s', 'int32'), 'str': lambda: 'ab',
        'bytes': lambda: b'ab', 'range': lambda: range(3),
        'memory': lambda: memoryview(b'abcd'),
    }
    which = E.choice('type', sorted(table))
    E.check('rejects_non_arrays',
            not accepted(E, node.validate, table[which](), []))


@case(grid={'dtype': ['int16', 'float32'],
            'shape': [(130,), (1030,), (2, 520), (520, 2), (3, 3, 60)]},
      bounds='arrays of 130, 540, 1030 or 1040 elements in 1-3 dimensions, '
             'with an arbitrary value (except NaN) at any of 6 places and the '
             'last one, zero elsewhere; one limit')
def large_arrays(E, dtype, shape):
    from dsch import schema
    which = E.choice('which', ['min', 'max'])
    limit = -7 if which == 'min' else 7
    node = schema.Array(dtype, ndim=len(shape), **{which + '_value': limit})
    n = int(np.prod(shape))
    at = E.choice('at', [0, 63, 64, 127, n // 2, n - 2])
    v = E.array('value', dtype, shape, at=[at, n - 1])
    items = [v.ravel()[at].item(), v.ravel()[n - 1].item()]
    E.assume(E.all([y == y for y in items]))
    E.check('accepted_iff_all_elements_in_range', E.iff(
        accepted(E, node.validate, v, []),
        E.all([y >= limit if which == 'min' else y <= limit
               for y in items])))
