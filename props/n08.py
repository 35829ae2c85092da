"""N08: a node returns exactly the value set last, whatever happened before."""
from sx.case import registry
from props.common import (COMPLEX, FLOATS, INTS, SIMPLE, close, large_schema,
                          leaf_schema, leaf_value, new_storage)

CASES, case = registry()
ASSUMPTIONS = ['strings contain no NUL characters or surrogates; dates and '
               'times are naive; values are valid for their schema node']
BACKENDS = ['inmem', 'npz', 'hdf5', 'mat']
KINDS = SIMPLE + ['Scalar:int8', 'Scalar:uint64', 'Scalar:float16',
                  'Scalar:float64', 'Scalar:complex128', 'Array:int32:1',
                  'Array:float64:2', 'Array:complex64:1']
MORE = SIMPLE + ['Scalar:' + d for d in INTS + FLOATS + COMPLEX] + [
    'Array:%s:%d' % (d, n) for d in INTS + FLOATS + COMPLEX + ['bool']
    for n in (1, 2)] + ['Array:int16:3', 'Array:float32:0']


def two_nodes(E, backend, kind, where):
    """A storage, and two different data nodes of the kind in it."""
    from dsch import schema
    leaf = leaf_schema(kind)
    if where == 'comp':
        s = new_storage(E, backend, schema.Compilation(
            {'b': leaf, 'a': leaf}))
        return s, s.data.a, s.data.b
    if where == 'list':
        s = new_storage(E, backend, schema.List(leaf))
        s.data.append()
        s.data.append()
        return s, s.data[1], s.data[0]
    s = new_storage(E, backend, schema.Compilation({
        'l': schema.List(schema.Compilation({'x': leaf})),
        'x': schema.Compilation({'x': leaf})}))
    s.data.l.append()
    return s, s.data.l[0].x, s.data.x.x


@case(grid={'backend': BACKENDS, 'kind': KINDS,
            'where': ['comp', 'list', 'deep']},
      grid_thorough={'kind': MORE},
      bounds='three arbitrary values (texts up to 2 characters, arrays up to '
             '4 elements); set by assignment or replace(), with or without '
             'clear() in between')
def last_value(E, backend, kind, where):
    s, a, b = two_nodes(E, backend, kind, where)
    other = leaf_value(E, 'other', kind, nmax=1)
    first = leaf_value(E, 'first', kind)
    second = leaf_value(E, 'second', kind)
    b.value = other
    a.value = first
    E.check('returns_the_value', E.same(a.value, first))
    E.check('other_node_unaffected', E.same(b.value, other))
    how = E.choice('how', ['assign', 'replace', 'clear_assign'])
    if how == 'assign':
        a.value = second
    elif how == 'replace':
        a.replace(second)
    else:
        a.clear()
        E.check('cleared_node_is_empty', a.empty and not a.complete)
        a.value = second
    E.check('returns_the_last_value', E.same(a.value, second))
    E.check('returns_it_repeatedly', E.same(a.value, second))
    E.check('node_is_not_empty', a.complete and not a.empty)
    E.check('other_node_still_unaffected', E.same(b.value, other))
    a.clear()
    E.check('clear_affects_only_the_node', a.empty and not b.empty)
    E.check('other_value_survives_clear', E.same(b.value, other))
    close(s)


@case(grid={'backend': BACKENDS, 'kind': SIMPLE + ['Scalar:int16',
                                                   'Array:int8:1']},
      bounds='a top-level leaf node, two arbitrary values')
def top_level(E, backend, kind):
    s = new_storage(E, backend, leaf_schema(kind))
    E.check('starts_empty', s.data.empty)
    for name in ('first', 'second'):
        v = leaf_value(E, name, kind)
        s.data.value = v
        E.check('top_level_value', E.same(s.data.value, v))
    close(s)


@case(grid={'backend': BACKENDS, 'kind': ['String', 'Bytes', 'Bool',
                                          'Scalar:int16', 'DateTime']},
      bounds='dict values given to a compilation; any subset of 3 fields')
def replace_compilation(E, backend, kind):
    from dsch import schema
    leaf = leaf_schema(kind)
    s = new_storage(E, backend, schema.Compilation({
        'a': leaf, 'b': leaf, 'c': schema.Compilation({'d': leaf,
                                                       'e': leaf})}))
    nodes = {'a': s.data.a, 'b': s.data.b, 'd': s.data.c.d, 'e': s.data.c.e}
    vals = {}
    for n in sorted(nodes):
        vals[n] = leaf_value(E, 'old.' + n, kind, 1, nmin=1)
        nodes[n].value = vals[n]
    new = {}
    for n in ('a', 'b'):
        if E.choice('set?' + n, [True, False]):
            new[n] = vals[n] = leaf_value(E, 'new.' + n, kind, 1, nmin=1)
    if E.choice('set?d', [True, False]):
        vals['d'] = leaf_value(E, 'new.d', kind, 1)
        new['c'] = {'d': vals['d']}
    s.data.replace(new)
    for n in sorted(nodes):
        E.check('given_fields_replaced_others_kept',
                E.same(nodes[n].value, vals[n]))
    close(s)


@case(grid={'backend': BACKENDS},
      bounds='arrays, texts and numbers outside arbitrary limits; values of '
             'a node are not checked before validation')
def outside_limits(E, backend):
    from dsch import schema
    lo, hi = E.int('lo', 1, 3), E.int('hi', 1, 3)
    s = new_storage(E, backend, schema.Compilation({
        'a': schema.Array('int8', min_shape=(lo,), max_shape=(hi,)),
        'm': schema.Array('int8', ndim=2, max_shape=(hi, None), max_value=3),
        's': schema.String(min_length=lo, max_length=hi),
        'x': schema.Scalar('int8', min_value=lo, max_value=hi)}))
    for i in range(2):
        v = E.array('a%d' % i, 'int8', (E.choice('n%d' % i, [1, 2, 4]),))
        m = E.array('m%d' % i, 'int8', (E.choice('r%d' % i, [1, 4]), 2))
        t = E.str('s%d' % i, 1, lo=1)
        x = E.scalar('x%d' % i, 'int8')
        s.data.replace({'a': v, 'm': m, 's': t, 'x': x})
        E.check('values_outside_limits_are_kept', E.all([
            E.same(s.data.a.value, v), E.same(s.data.m.value, m),
            E.same(s.data.s.value, t), E.same(s.data.x.value, x)]))
    close(s)


@case(grid={'backend': BACKENDS, 'kind': ['String', 'Bytes', 'Array', 'List',
                                          'fields']},
      bounds='a text of 700 and bytes of 600 characters, arrays of 3x40 '
             'elements, lists of 101 items, 40 fields set at once; each '
             'replaced by a shorter and a longer one')
def large(E, backend, kind):
    from dsch import schema
    leaf = {'String': schema.String, 'Bytes': schema.Bytes,
            'Array': lambda: schema.Array('int16', ndim=2),
            'List': lambda: schema.List(schema.Scalar('int16')),
            'fields': lambda: large_schema('fields', lambda i: schema.Scalar(
                'int16'))}[kind]()
    s = new_storage(E, backend, schema.Compilation({'a': leaf, 'b': leaf}))
    for i, n in enumerate([40, E.choice('n', [5, 39, 41, 70])]):
        if kind == 'String':
            v = '\xe4b' * 8 * n + E.str('v%d' % i, 3, 3, lo=1) + 'c' * n
        elif kind == 'Bytes':
            v = b'\1b' * 8 * n + E.bytes('v%d' % i, 3, 3) + b'c' * n
        elif kind == 'Array':
            v = E.array('v%d' % i, 'int16', (3, n))
        elif kind == 'List':
            some = [E.scalar('v%d.%d' % (i, k), 'int16') for k in range(5)]
            v = [some[k % 5] for k in range(2 * n + 21)]
        else:
            some = [E.scalar('v%d.%d' % (i, k), 'int16') for k in range(5)]
            v = {'f%d' % k: some[k % 5] for k in range(min(n, 40))}
        s.data.a.replace(v)
        got = s.data.a
        if kind == 'List':
            E.check('large_list', len(got) == len(v) and E.all(
                [E.same(x.value, y) for x, y in zip(got, v)]))
        elif kind == 'fields':
            E.check('large_compilation', E.all(
                [E.same(getattr(got, k).value, v[k]) for k in v]))
        else:
            E.check('large_value', E.same(got.value, v))
        E.check('other_field_stays_empty', s.data.b.empty)
    close(s)


@case(grid={'backend': BACKENDS,
            'kind': ['Array:float32:0', 'Array:>i4:0', 'Array:>i4:1',
                     'Array:>f8:2', 'Array:int16:3', 'Array:bool:0'],
            'where': ['top', 'deep']},
      bounds='arrays without dimensions, with 3 dimensions and of non-native '
             'byte order; arbitrary elements; two values')
def layouts(E, backend, kind, where):
    if where == 'top':
        s = new_storage(E, backend, leaf_schema(kind))
        a, b = s.data, None
    else:
        s, a, b = two_nodes(E, backend, kind, where)
        b.value = other = leaf_value(E, 'other', kind, nmax=1)
    for name in ('first', 'second'):
        v = leaf_value(E, name, kind)
        a.value = v
        E.check('returns_the_array', E.same(a.value, v))
        E.check('returns_an_array', a.value.shape == v.shape and
                a.value.dtype == v.dtype and a.value.ndim == v.ndim)
    a.validate()
    if b is not None:
        E.check('other_array_unaffected', E.same(b.value, other))
    close(s)


@case(grid={'backend': BACKENDS, 'order': ['transposed', 'reversed', 'step',
                                           'column', 'fortran', 'broadcast']},
      bounds='views of arrays of 3x4 elements that are not contiguous: '
             'transposed, reversed, every second element, one column, Fortran '
             'order, repeated rows; arbitrary elements')
def views(E, backend, order):
    from dsch import schema
    base = E.array('v', 'int16', (3, 4))
    view = {'transposed': lambda: base.T, 'reversed': lambda: base[::-1],
            'step': lambda: base[::2, 1::2], 'column': lambda: base[:, 1],
            'fortran': lambda: base.T.copy().T,
            'broadcast': lambda: base[[0, 0, 0]]}[order]()
    want = [[view[i, j] for j in range(view.shape[1])]
            for i in range(view.shape[0])] if view.ndim == 2 else \
        [view[i] for i in range(view.shape[0])]
    s = new_storage(E, backend, schema.Compilation({
        'a': schema.Array('int16', ndim=view.ndim), 'b': schema.Bool()}))
    s.data.a.value = view
    got = s.data.a.value
    E.check('returns_the_view', E.same(got, view))
    E.check('returns_the_elements', E.all([
        E.same(got[i, j], x) for i, row in enumerate(want)
        for j, x in enumerate(row)] if view.ndim == 2 else
        [E.same(got[i], x) for i, x in enumerate(want)]))
    E.check('other_field_stays_empty', s.data.b.empty)
    close(s)
