"""V02: Scalar nodes accept exactly the matching type, data type and range."""
import numpy as np

from sx.case import registry
from props.common import FLOATS, INTS, accepted

CASES, case = registry()
ASSUMPTIONS = ['range limits of floating point nodes are representable in the '
               'data type; no claim for NaN values or limits']


def scalar_node(E, dtype, form, **kw):
    from dsch import schema
    dt = {'name': dtype, 'dtype': np.dtype(dtype),
          'type': np.dtype(dtype).type}[form]
    node = schema.Scalar(dt, **kw)
    if E.choice('reloaded', [False, True]):
        node = schema.node_from_json(node.to_json())
    return node


def verdict(E, node, value):
    import dsch
    ok = accepted(E, node.validate, value)
    storage = dsch.create('::inmem::', node)
    storage.data.value = value
    E.check('scalar_node_agrees', accepted(E, storage.validate) == ok)
    return ok


def limits(E, gen):
    lo = gen('min_value') if E.choice('has_min', [False, True]) else None
    hi = gen('max_value') if E.choice('has_max', [False, True]) else None
    return lo, hi


@case(grid={'dtype': INTS, 'form': ['name', 'dtype', 'type']},
      bounds='every value of every integer type; limits absent or any '
             'integer of up to 70 bits')
def int_range(E, dtype, form):
    lo, hi = limits(E, lambda n: E.int(n, -2**70, 2**70))
    node = scalar_node(E, dtype, form, min_value=lo, max_value=hi)
    v = E.scalar('value', dtype)
    c = []
    if lo is not None:
        c.append(v.item() >= lo)
    if hi is not None:
        c.append(v.item() <= hi)
    E.check('int_accepted_iff_in_range',
            E.iff(verdict(E, node, v), E.all(c)))


@case(grid={'dtype': ['int8', 'int32', 'uint16']},
      bounds='fractional limits from {-2.5, -0.5, 0.5, 1.5}')
def int_float_limits(E, dtype):
    pick = lambda n: E.choice(n, [-2.5, -0.5, 0.5, 1.5])
    lo, hi = limits(E, pick)
    node = scalar_node(E, dtype, 'name', min_value=lo, max_value=hi)
    v = E.scalar('value', dtype)
    c = []
    if lo is not None:
        c.append(v.item() >= int(np.ceil(lo)))
    if hi is not None:
        c.append(v.item() <= int(np.floor(hi)))
    E.check('int_in_fractional_range',
            E.iff(verdict(E, node, v), E.all(c)))


@case(grid={'dtype': FLOATS, 'form': ['name', 'dtype']},
      bounds='every non-NaN value of every float type, infinities and '
             'denormals included; limits absent or any representable value')
def float_range(E, dtype, form):
    def gen(n):
        x = E.scalar(n, dtype)
        E.assume(x == x)
        return x.item()
    lo, hi = limits(E, gen)
    node = scalar_node(E, dtype, form, min_value=lo, max_value=hi)
    v = E.scalar('value', dtype)
    E.assume(v == v)
    c = []
    if lo is not None:
        c.append(v.item() >= lo)
    if hi is not None:
        c.append(v.item() <= hi)
    E.check('float_accepted_iff_in_range',
            E.iff(verdict(E, node, v), E.all(c)))


@case(grid={'dtype': INTS + FLOATS + ['complex64', 'complex128']},
      bounds='a value of each of 13 numeric types against each schema type')
def dtype_match(E, dtype):
    from dsch import schema
    node = scalar_node(E, dtype, E.choice('form', ['name', 'dtype', 'type']))
    other = E.choice('other', INTS + FLOATS + ['complex64', 'complex128'])
    v = E.scalar('value', other)
    E.check('accepted_iff_same_dtype',
            accepted(E, node.validate, v) == (other == dtype))


@case(grid={'dtype': ['int32', 'float64', 'bool']},
      bounds='one value of each of 13 types that are no NumPy numbers')
def wrong_types(E, dtype):
    from dsch import schema
    node = schema.Scalar(dtype)
    table = {
        'none': lambda: None, 'int': lambda: E.int('i', -5, 5),
        'float': lambda: E.float('f'), 'bool': lambda: True,
        'complex': lambda: 1j, 'str': lambda: E.str('s', 1),
        'npbool': lambda: E.scalar('nb', 'bool'),
        'array0': lambda: np.array(1, dtype=dtype),
        'array1': lambda: E.array('a', dtype, (1,)),
        'list': lambda: [1], 'npstr': lambda: np.str_('1'),
        'npdatetime': lambda: np.datetime64('2001-01-01'),
        'date': lambda: E.date('d'),
    }
    which = E.choice('type', sorted(table))
    E.check('rejects_other_types',
            not accepted(E, node.validate, table[which]()))
