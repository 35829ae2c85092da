"""S06: schemas survive serialisation unchanged (JSON, dict and files)."""
import numpy as np

from sx.case import registry
from props.common import EXT, LARGE, close, large_schema, new_storage

CASES, case = registry()
ASSUMPTIONS = ['limits are Python numbers; arbitrary float limits are finite (infinite ones are in special_limits)']
ATTRS = {'Array': ['unit', 'max_shape', 'min_shape', 'ndim', 'max_value',
                   'min_value', 'depends_on'],
         'Scalar': ['unit', 'max_value', 'min_value'],
         'String': ['min_length', 'max_length'],
         'Bytes': ['min_length', 'max_length'], 'Bool': [],
         'Date': ['set_on_create'], 'DateTime': ['set_on_create'],
         'Time': ['set_on_create'],
         'List': ['min_length', 'max_length'], 'Compilation': []}
LEAVES = ['String', 'Bytes', 'Bool', 'Date', 'DateTime', 'Time', 'ScalarInt',
          'ScalarFloat', 'ArrayShape', 'ArrayRange', 'ArrayLinked']


def opt(E, name, gen):
    return gen(name) if E.choice(name + '?', [True, False]) else None


def number(E, name):
    return E.int(name, -2**70, 2**70)


def real(E, name):
    x = E.float(name)
    E.assume(E.all([x == x, x < float('inf'), x > float('-inf')]))
    return x


def size(E):
    return lambda n: E.int(n, 0, 5000)


def make(E, kind, p=''):
    """A schema node with arbitrary configuration."""
    from dsch import schema
    if kind in ('String', 'Bytes'):
        return getattr(schema, kind)(
            min_length=opt(E, p + 'min', size(E)),
            max_length=opt(E, p + 'max', size(E)))
    if kind == 'Bool':
        return schema.Bool()
    if kind in ('Date', 'DateTime', 'Time'):
        return getattr(schema, kind)(set_on_create=E.flag(p + 'set'))
    if kind in ('ScalarInt', 'ScalarFloat'):
        gen = (lambda n: number(E, n)) if kind == 'ScalarInt' else \
            (lambda n: real(E, n))
        dt = E.choice(p + 'dtype', ['int32', '<u8', np.dtype('float32'),
                                    np.float64, np.dtype('>i2')])
        return schema.Scalar(dt, unit=E.str(p + 'unit', 2),
                             min_value=opt(E, p + 'min', gen),
                             max_value=opt(E, p + 'max', gen))
    if kind == 'ArrayShape':
        n = E.choice(p + 'ndim', [1, 2])

        def shape(name):
            return tuple(E.choice('%s.%d?' % (name, i), [True, False]) and
                         E.int('%s.%d' % (name, i), 1, 50) or None
                         for i in range(n))
        lo, hi = opt(E, p + 'lo', shape), opt(E, p + 'hi', shape)
        if n == 2 and lo and hi:
            lo = list(lo)
        return schema.Array('int8', min_shape=lo, max_shape=hi, ndim=n)
    if kind == 'ArrayRange':
        return schema.Array(E.choice(p + 'dtype', ['float64', np.int16]),
                            unit=E.str(p + 'unit', 1), ndim=E.int(
                                p + 'ndim', 0, 9),
                            min_value=opt(E, p + 'min',
                                          lambda n: real(E, n)),
                            max_value=opt(E, p + 'max',
                                          lambda n: number(E, n)))
    deps = E.choice(p + 'deps', ['t', ('t',), ('t', None), (None, 't'),
                                 ('a', 'b', 'c'), (None, None), ['t'],
                                 [None, 't']])
    return schema.Array('int8', ndim=len(deps), depends_on=deps)


def plain(x):
    return list(x) if isinstance(x, tuple) else x


def equal(E, a, b):
    """Compare the configuration of two schema nodes field by field."""
    kind = type(a).__name__
    if type(a) is not type(b):
        return False
    c = [E.same(plain(getattr(a, n)), plain(getattr(b, n)))
         for n in ATTRS[kind]]
    if kind in ('Array', 'Scalar'):
        c.append(np.dtype(a.dtype) == np.dtype(b.dtype))
    if kind == 'List':
        c.append(equal(E, a.subnode, b.subnode))
    if kind == 'Compilation':
        c.append(sorted(a.subnodes) == sorted(b.subnodes))
        c.append(list(a.optionals) == list(b.optionals))
        for n in sorted(a.subnodes):
            c.append(equal(E, a.subnodes[n], b.subnodes[n]))
    return E.all(c)


def round_trips(E, node):
    from dsch import schema
    text = node.to_json()
    r = schema.node_from_json(text)
    E.check('json_keeps_configuration', equal(E, node, r))
    E.check('json_keeps_text', r.to_json() == text)
    E.check('json_keeps_hash', r.hash() == node.hash())
    E.check('json_gives_equal_node', E.all([r == node, node == r]))
    tree = node.to_dict()
    d = schema.node_from_dict(tree)
    E.check('dict_keeps_configuration', equal(E, node, d))
    E.check('dict_keeps_hash', d.hash() == node.hash())
    k = type(node).from_dict(tree)
    E.check('from_dict_keeps_configuration', equal(E, node, k))
    kind, again = E.outcome(schema.node_from_dict, tree)
    E.check('dict_can_be_used_again', kind == 'ok' and again == node, again)


@case(grid={'kind': LEAVES},
      bounds='every leaf type; limits absent or arbitrary numbers (70 bits, '
             'finite floats), units of up to 2 arbitrary characters')
def leaves(E, kind):
    round_trips(E, make(E, kind))


@case(grid={'kind': ['String', 'Bool', 'ScalarInt', 'ArrayLinked', 'Date']},
      bounds='lists and compilations, 3 levels deep')
def nested(E, kind):
    from dsch import schema
    inner = (make if E.thorough else make_small)(E, kind)
    lst = schema.List(inner, min_length=opt(E, 'lmin', size(E)),
                      max_length=opt(E, 'lmax', size(E)))
    comp = schema.Compilation({'b': lst, 'a': schema.Bool(), 'c': inner},
                              optionals=E.choice('optionals', [
                                  None, [], ['a'], ['c', 'a']]))
    shape = E.choice('shape', ['comp', 'list', 'comp_in_comp', 'empty'])
    if shape == 'comp':
        node = comp
    elif shape == 'list':
        node = schema.List(schema.List(comp))
    elif shape == 'empty':
        node = schema.Compilation({})
    else:
        node = schema.Compilation({'x': comp, 'y': schema.Compilation(
            {'z': lst}, optionals=['z'])})
    round_trips(E, node)


@case(bounds='all pairs of node types, and unknown type names')
def type_names(E):
    from dsch import schema
    nodes = {'String': schema.String(), 'Bytes': schema.Bytes(),
             'Bool': schema.Bool(), 'Date': schema.Date(),
             'DateTime': schema.DateTime(), 'Time': schema.Time(),
             'Scalar': schema.Scalar('int8'), 'Array': schema.Array('int8'),
             'List': schema.List(schema.Bool()),
             'Compilation': schema.Compilation({})}
    a = E.choice('a', sorted(nodes))
    b = E.choice('b', sorted(nodes))
    kind, r = E.outcome(type(nodes[a]).from_dict, nodes[b].to_dict())
    E.check('from_dict_checks_the_type', (kind == 'ok') == (a == b) and
            (kind == 'ok' or isinstance(r, ValueError)))
    d = dict(nodes[b].to_dict())
    d['node_type'] = E.choice('name', ['', 'string', 'Foo', 'np', 'json',
                                       'node_from_dict', 'ValidationError'])
    E.check('unknown_types_are_rejected', E.is_a(
        E.outcome(schema.node_from_dict, d)[1], ValueError))


@case(grid={'backend': ['npz', 'hdf5', 'mat'], 'kind': LEAVES},
      bounds='the schema of a saved file, every leaf type as top-level node, '
             'in a list and in a compilation')
def files(E, backend, kind):
    import dsch
    from dsch import schema
    where = E.choice('where', ['top', 'list', 'comp'])
    node = make_small(E, kind)
    if where == 'list':
        node = schema.List(node, max_length=E.int('lmax', 0, 9))
    elif where == 'comp':
        node = schema.Compilation({'b': node, 'a': schema.Bool()},
                                  optionals=['b'])
    s = new_storage(E, backend, node)
    s.save(force=True)
    snap = E.snapshot(s.storage_path, 'copy' + EXT[backend])
    close(s)
    r = dsch.load(snap, force=True)
    E.check('file_keeps_schema', equal(E, node, r.schema_node))
    E.check('file_keeps_schema_hash', r.schema_hash() == node.hash())
    E.check('file_keeps_equality', r.schema_node == node)
    E.check('data_node_has_the_schema', r.data.schema_node == node)
    close(r)


def make_small(E, kind, p=''):
    """Like make(), with fewer alternatives."""
    from dsch import schema
    if kind in ('String', 'Bytes'):
        return getattr(schema, kind)(max_length=E.int(p + 'max', 0, 5000))
    if kind in ('ScalarInt', 'ScalarFloat'):
        return schema.Scalar('float64', unit=E.str(p + 'unit', 1, 1),
                             max_value=number(E, p + 'max')
                             if kind == 'ScalarInt' else real(E, p + 'max'))
    if kind == 'ArrayShape':
        return schema.Array('int8', min_shape=(E.int(p + 'a', 1, 9), None),
                            max_shape=(None, E.int(p + 'b', 1, 9)))
    if kind == 'ArrayRange':
        return schema.Array('int8', unit='V', min_value=number(E, p + 'min'),
                            max_value=real(E, p + 'max'))
    if kind == 'ArrayLinked':
        return schema.Array('int8', ndim=2, depends_on=('t', None))
    return make(E, kind, p)


@case(grid={'kind': LEAVES, 'how': ['comp', 'lists', 'nested']},
      bounds='two sub-nodes of the same type with arbitrary parameters')
def siblings(E, kind, how):
    from dsch import schema
    a, b = make_small(E, kind, 'a.'), make_small(E, kind, 'b.')
    if how == 'comp':
        node = schema.Compilation({'a': a, 'b': b, 'c': a})
    elif how == 'lists':
        n, m = E.int('n', 0, 9), E.int('m', 0, 9)
        node = schema.Compilation({'a': schema.List(a, max_length=n),
                                   'b': schema.List(b, max_length=m)})
    else:
        node = schema.Compilation({
            'x': schema.Compilation({'a': a, 'b': b}, optionals=['a']),
            'y': schema.Compilation({'a': b, 'b': a}, optionals=['b']),
            'z': a})
    text = node.to_json()
    r = schema.node_from_json(text)
    E.check('siblings_keep_their_configuration', equal(E, node, r))
    E.check('siblings_keep_the_text', r.to_json() == text)


@case(grid={'shape': LARGE},
      bounds='compilations of 40 fields, nesting of 11 levels, arbitrary '
             'limits at every leaf')
def large(E, shape):
    from dsch import schema
    round_trips(E, large_schema(shape, lambda i: schema.String(
        max_length=E.int('max%d' % i, 0, 999))))


NUMBERS = [float('inf'), -float('inf'), 1e308, -1.7976931348623157e308, 5e-324,
           0.0, -0.0, 0.1 + 0.2, 1 / 3, 1e16, 1e22, 123456789.12345679,
           -2.5e-300, 2**53 + 1, 2**64, -2**63 - 1, 10**30, 0, 1, -1]


@case(grid={'kind': ['min', 'max'], 'node': ['Scalar', 'Array']},
      bounds='20 limits that are hard to write down: infinite, largest and '
             'smallest ones, fractions, integers of up to 100 bits')
def special_limits(E, kind, node):
    from dsch import schema
    x = E.choice('limit', NUMBERS)
    a = getattr(schema, node)('float64', **{kind + '_value': x})
    round_trips(E, a)
    b = schema.node_from_json(schema.List(a).to_json()).subnode
    for r in (b, schema.node_from_json(a.to_json())):
        y = r.min_value if kind == 'min' else r.max_value
        z = r.max_value if kind == 'min' else r.min_value
        E.check('limit_is_restored_exactly', type(x) is type(y) and
                repr(x) == repr(y) and z is None)


DTYPES = ['>i4', '<i4', '=i4', '|i1', '>f8', '<c16', '>u2', 'i', 'f', 'd', '?',
          'int', 'float', 'bool', np.dtype('>i4'), np.dtype('int16'), np.int32,
          np.float16, np.bool_, float, bool]


@case(grid={'node': ['Scalar', 'Array'], 'backend': ['npz', 'hdf5', 'mat']},
      bounds='21 ways to name an element type; with both byte orders')
def dtype_names(E, node, backend):
    import dsch
    from dsch import schema
    dt = E.choice('dtype', DTYPES)
    a = getattr(schema, node)(dt)
    for r in (schema.node_from_json(a.to_json()),
              schema.node_from_dict(a.to_dict())):
        E.check('dtype_is_restored', np.dtype(r.dtype) == np.dtype(dt) and
                r.hash() == a.hash() and r == a)
    s = new_storage(E, backend, a)
    s.save()
    path = E.snapshot(s.storage_path, 'y' + EXT[backend])
    close(s)
    r = dsch.load(path)
    E.check('dtype_is_stored', np.dtype(r.schema_node.dtype) == np.dtype(dt)
            and r.schema_hash() == a.hash() and r.schema_node == a)
    close(r)
