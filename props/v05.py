"""V05: a tree is valid iff every node in it is, and the error says where."""
from sx.case import registry
from props.common import (COUNT, LARGE, PLACES, close, large_node,
                          large_schema, new_storage)

CASES, case = registry()
ASSUMPTIONS = ['no linked arrays (see V04)']
BACKENDS = ['inmem', 'npz', 'hdf5', 'mat']


def leaf(kind):
    """Schema node of a leaf with a constraint that can be broken."""
    from dsch import schema
    return {'String': lambda: schema.String(min_length=1, max_length=3),
            'Bytes': lambda: schema.Bytes(min_length=1, max_length=3),
            'Scalar': lambda: schema.Scalar('int32', min_value=0),
            'Array': lambda: schema.Array('int16', max_value=0),
            'Shape': lambda: schema.Array('float64', max_shape=(4,)),
            }[kind]()


def put(E, node, kind, name, maybe=True):
    """Leave the leaf empty or set it; returns the condition that it is ok."""
    if maybe and E.choice(name + '?', [True, False]):
        return True
    if kind in ('String', 'Bytes'):
        v = (E.text if kind == 'String' else E.blob)(name, 6)
        good = E.all([len(v) >= 1, len(v) <= 3])
    elif kind == 'Scalar':
        v = E.scalar(name, 'int32')
        good = v.item() >= 0
    elif kind == 'Array':
        v = E.array(name, 'int16', (2,))
        good = E.all([x <= 0 for x in v.tolist()])
    else:
        v = E.absarray(name, 'float64', 1, 8)
        good = v.shape[0] <= 4
    node.value = v
    return good


def verdict(E, validate, conds, own, top=''):
    """Compare the outcome of validate with the conditions of all nodes.

    conds: {path: condition that the node is valid}; own: {path: function that
    validates just the node itself}.
    """
    from dsch import exceptions
    kind, err = E.outcome(validate)
    E.check('tree_valid_iff_all_nodes_valid',
            E.iff(kind == 'ok', E.all([conds[p] for p in sorted(conds)])))
    if kind == 'ok':
        return
    if top in conds and len(conds) == 1:
        E.check('top_level_leaf_error',
                isinstance(err, exceptions.ValidationError))
        return
    if isinstance(err, exceptions.ValidationError):
        # A top-level list may violate its own limits.
        E.check('direct_error_only_from_the_top_level', '' in conds)
        E.check('top_level_really_invalid', E.no(conds['']))
        return
    E.check('error_names_a_subnode',
            isinstance(err, exceptions.SubnodeValidationError))
    path = err.node_path()
    E.check('error_path_exists', path in conds, path)
    E.check('error_path_is_invalid_node', E.no(conds[path]), path)
    cause = err.original_cause()
    E.check('original_cause_is_the_validation_error',
            isinstance(cause, exceptions.ValidationError))
    k2, own_err = E.outcome(own[path])
    E.check('original_cause_is_the_nodes_own_error',
            k2 == 'exc' and cause.message == own_err.message, path)


def itself(node):
    return lambda: node.schema_node.validate(node) \
        if hasattr(node, 'append') else node.validate()


@case(grid={'kind': ['String', 'Bytes', 'Scalar', 'Array', 'Shape']},
      bounds='a single leaf node, empty or any value')
def top_level(E, kind):
    storage = new_storage(E, 'inmem', leaf(kind))
    good = put(E, storage.data, kind, 'v')
    verdict(E, storage.validate, {'': good}, {'': storage.data.validate})


KINDS = ['String', 'Bytes', 'Scalar', 'Array', 'Shape']


@case(grid={'backend': BACKENDS, 'nested': ['flat', 'comp', 'list']},
      bounds='compilations of 3-4 leaves of two kinds, some optional, each '
             'empty or any value')
def compilations(E, backend, nested):
    from dsch import schema
    # Text and opaque sizes are not resolved by the file backends here.
    pairs = [('Scalar', 'Array')] if backend != 'inmem' and not E.thorough \
        else [('Scalar', 'Array'), ('String', 'Shape'), ('Bytes', 'Scalar')]
    k1, k2 = E.choice('kinds', pairs)
    inner = schema.Compilation({'b': leaf(k2), 'a': leaf(k1)},
                               optionals=['a'])
    conds, own = {}, {}

    def add(path, node, kind, name):
        conds[path] = put(E, node, kind, name)
        own[path] = itself(node)
    if nested == 'flat':
        node = schema.Compilation({'c': leaf(k1), 'a': leaf(k2),
                                   'b': leaf(k1)}, optionals=['b', 'c'])
        s = new_storage(E, backend, node)
        add('c', s.data.c, k1, 'c')
        add('a', s.data.a, k2, 'a')
        add('b', s.data.b, k1, 'b')
    elif nested == 'comp':
        node = schema.Compilation({'x': inner, 'y': leaf(k1), 'e':
                                   schema.Compilation({'f': inner})})
        s = new_storage(E, backend, node)
        add('x.b', s.data.x.b, k2, 'xb')
        add('y', s.data.y, k1, 'y')
        add('e.f.a', s.data.e.f.a, k1, 'efa')
        add('e.f.b', s.data.e.f.b, k2, 'efb')
    else:
        node = schema.Compilation({'l': schema.List(inner), 'm': leaf(k1)})
        s = new_storage(E, backend, node)
        n = E.choice('n', [1, 3])
        for i in range(n):
            s.data.l.append()
        add('l[%d].a' % (n - 1), s.data.l[n - 1].a, k1, 'la')
        add('l[0].b', s.data.l[0].b, k2, 'lb')
        add('m', s.data.m, k1, 'm')
    verdict(E, s.validate, conds, own)
    close(s)


@case(grid={'backend': BACKENDS, 'shape': ['leaves', 'lists', 'in_comp']},
      bounds='lists of 0..3 items (also lists of lists, and optional lists), '
             'arbitrary length limits and arbitrary item values')
def lists(E, backend, shape):
    from dsch import schema
    lo, hi = E.int('min_length', 0, 5), E.int('max_length', 0, 5)
    conds, own = {}, {}

    def in_limits(n):
        return E.all([n >= lo, n <= hi])
    n = E.choice('n', [0, 1, 2, 3])
    leafnode = leaf('Scalar')
    if shape == 'leaves':
        s = new_storage(E, backend, schema.List(leafnode, min_length=lo,
                                                max_length=hi))
        conds[''] = in_limits(n)
        for i in range(n):
            s.data.append()
            conds['[%d]' % i] = put(E, s.data[i], 'Scalar', 'v%d' % i,
                                    i == 1)
            own['[%d]' % i] = itself(s.data[i])
    elif shape == 'lists':
        # The outer list is fixed, the inner ones are limited.
        s = new_storage(E, backend, schema.List(schema.List(
            leafnode, min_length=lo, max_length=hi)))
        for i in range(2):
            s.data.append()
            m = n if i else 1
            conds['[%d]' % i] = in_limits(m)
            own['[%d]' % i] = itself(s.data[i])
            for j in range(m):
                s.data[i].append()
                p = '[%d][%d]' % (i, j)
                conds[p] = put(E, s.data[i][j], 'Scalar', 'v%d.%d' % (i, j),
                               False)
                own[p] = itself(s.data[i][j])
    else:
        optionals = E.choice('optionals', [['q'], []])
        s = new_storage(E, backend, schema.Compilation({
            'z': schema.List(schema.Compilation({'q': schema.List(
                leafnode, min_length=lo, max_length=hi)},
                optionals=optionals))}))
        for i in range(2):
            s.data.z.append()
            q = s.data.z[i].q
            m = n if i else 1
            conds['z[%d].q' % i] = in_limits(m)
            own['z[%d].q' % i] = itself(q)
            for j in range(m):
                q.append()
                p = 'z[%d].q[%d]' % (i, j)
                conds[p] = put(E, q[j], 'Scalar', 'v%d.%d' % (i, j), False)
                own[p] = itself(q[j])
    verdict(E, s.validate, conds, own)
    close(s)


@case(bounds='a subtree of a larger tree is validated on its own')
def subtrees(E):
    from dsch import schema
    inner = schema.Compilation({'a': leaf('Scalar'), 'b': leaf('String')})
    s = new_storage(E, 'inmem', schema.Compilation({
        'x': inner, 'y': inner, 'l': schema.List(inner)}))
    s.data.l.append()
    ca = put(E, s.data.x.a, 'Scalar', 'xa')
    cb = put(E, s.data.x.b, 'String', 'xb')
    cc = put(E, s.data.y.a, 'Scalar', 'ya')
    cd = put(E, s.data.l[0].b, 'String', 'lb')
    own = {'a': s.data.x.a.validate, 'b': s.data.x.b.validate}
    verdict(E, s.data.x.validate, {'a': ca, 'b': cb}, own)
    verdict(E, s.data.y.validate, {'a': cc}, {'a': s.data.y.a.validate})
    verdict(E, s.data.l.validate, {'[0].b': cd},
            {'[0].b': s.data.l[0].b.validate})


@case(bounds='the error text for concrete invalid nodes at four places')
def error_text(E):
    from dsch import schema
    s = new_storage(E, 'inmem', schema.Compilation({
        'a': schema.String(max_length=2), 'l': schema.List(
            schema.Compilation({'b': schema.String(max_length=2),
                                'm': schema.List(schema.String(
                                    max_length=2))}))}))
    for i in range(2):
        s.data.l.append()
    s.data.l[1].m.append()
    where = E.choice('where', ['a', 'l[0].b', 'l[1].b', 'l[1].m[0]'])
    node = {'a': s.data.a, 'l[0].b': s.data.l[0].b, 'l[1].b': s.data.l[1].b,
            'l[1].m[0]': s.data.l[1].m[0]}[where]
    node.value = E.str('v', 4, 3)
    kind, err = E.outcome(s.validate)
    E.check('error_path_is_exact', kind == 'exc' and err.node_path() == where)
    E.check('error_text_names_the_path', where in str(err), str(err))
    E.check('error_text_names_the_cause', err.original_cause().message in
            str(err))


@case(grid={'shape': LARGE},
      bounds='lists of 101 items, compilations of 40 fields, nesting of 11 '
             'levels; two arbitrary values at any of 5-6 places')
def large(E, shape):
    s = new_storage(E, 'inmem', large_schema(shape, lambda i: leaf('Scalar')))
    last = COUNT[shape] - 1
    conds, own = {}, {}
    large_node(s.data, shape, last, True)
    for i in sorted({E.choice('at', PLACES[shape]), last}):
        node, path = large_node(s.data, shape, i)
        conds[path] = put(E, node, 'Scalar', 'v%d' % i, False)
        own[path] = node.validate
    verdict(E, s.validate, conds, own)
