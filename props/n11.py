"""N11: sub-nodes cannot be overwritten and are found where expected."""
from sx.case import registry
from props.common import (COUNT, LARGE, PLACES, close, large_node,
                          large_schema, mixed, new_storage)

CASES, case = registry()
ASSUMPTIONS = ['field names are Python identifiers that do not collide with '
               'attributes of data nodes']
BACKENDS = ['inmem', 'npz', 'hdf5', 'mat']


def tree(E, backend):
    from dsch import schema
    leaf = schema.Scalar('int32')
    k = BACKENDS.index(backend) % 2
    node = mixed({
        'a': leaf, 'b': schema.String(), 'l': schema.List(leaf),
        'c': mixed({'d': leaf, 'm': schema.List(
            mixed({'e': leaf}, k))}, k)}, k)
    s = new_storage(E, backend, node)
    v = {n: E.scalar(n, 'int32') for n in ('a', 'd', 'i0', 'i1', 'e')}
    s.data.a.value = v['a']
    s.data.c.d.value = v['d']
    s.data.l.append(v['i0'])
    s.data.l.append(v['i1'])
    s.data.c.m.append({'e': v['e']})
    return s, v


def unchanged(E, s, v):
    d = s.data
    E.check('values_are_unchanged', E.all([
        E.same(d.a.value, v['a']), E.same(d.c.d.value, v['d']),
        E.same(d.l[0].value, v['i0']), E.same(d.l[1].value, v['i1']),
        E.same(d.c.m[0].e.value, v['e'])]))
    E.check('structure_is_unchanged', d.b.empty and len(d.l) == 2 and
            len(d.c.m) == 1)


NAMES = ['a', 'b', 'l', 'c', 'value', 'x', 'data', '_storage', '_x', 'empty',
         'subnodes', '__x', '__x__', '__doc__']


@case(grid={'backend': BACKENDS},
      bounds='assignment of an arbitrary value to any of 11 attributes and '
             'to list items, at three places of a tree')
def assignment(E, backend):
    from dsch import exceptions
    s, v = tree(E, backend)
    d = s.data
    place = E.choice('place', ['top', 'inner', 'item', 'list', 'sublist'])
    new = E.choice('value', ['int', 'node', 'none', 'list', 'nodes'])
    new = {'int': lambda: E.scalar('new', 'int32'), 'node': lambda: d.a,
           'none': lambda: None, 'list': lambda: [E.scalar('new', 'int32')],
           'nodes': lambda: [d.l[1]]}[new]()
    if place in ('list', 'sublist'):
        lst = d.l if place == 'list' else d.c.m
        idx = E.choice('index', [0, -1, 1, 2, slice(0, 1),
                                  slice(None), slice(1, 1)])
        kind, err = E.outcome(lst.__setitem__, idx, new)
        text = '[{}]'.format(idx)
    else:
        comp = {'top': d, 'inner': d.c, 'item': d.c.m[0]}[place]
        text = E.choice('name', NAMES + ['d', 'm', 'e'])
        kind, err = E.outcome(setattr, comp, text, new)
    E.check('assignment_raises_reset_subnode_error',
            E.is_a(err, exceptions.ResetSubnodeError))
    E.check('error_names_the_subnode', text in str(err), str(err))
    unchanged(E, s, v)
    close(s)


@case(grid={'backend': BACKENDS}, bounds='a tree with symbolic values')
def navigation(E, backend):
    s, v = tree(E, backend)
    d = s.data
    sub = s.schema_node.subnodes
    unchanged(E, s, v)
    for n in ('a', 'b', 'l', 'c'):
        E.check('field_has_its_schema_node',
                getattr(d, n).schema_node is sub[n], n)
        E.check('field_has_its_parent', getattr(d, n).parent is d, n)
        E.check('field_is_listed_by_dir', n in dir(d), n)
        E.check('same_node_every_time', getattr(d, n) is getattr(d, n), n)
    E.check('top_node_has_no_parent', d.parent is None)
    E.check('top_node_has_the_schema', d.schema_node is s.schema_node)
    E.check('items_have_schema_and_parent', E.all(
        [x.schema_node is sub['l'].subnode and x.parent is d.l
         for x in d.l]))
    E.check('nested_parents', d.c.m[0].e.parent is d.c.m[0] and
            d.c.m[0].parent is d.c.m and d.c.m.parent is d.c)
    for n in ('x', 'd', 'value', '_b', 'subnodes'):
        E.check('unknown_fields_raise_attribute_error', E.is_a(
            E.outcome(getattr, d, n)[1], AttributeError), n)
        E.check('hasattr_is_false', not hasattr(d, n), n)
        E.check('unknown_fields_not_listed', n not in dir(d), n)
        for node in (d, d.c, d.c.m[0]):
            if n not in node.schema_node.subnodes:
                E.check('values_for_unknown_fields_are_refused', E.outcome(
                    node.replace, {n: v['i1']})[0] == 'exc', n)
    unchanged(E, s, v)
    kind, err = E.outcome(d.c.m.append, {'unknown': 1})
    E.check('items_with_unknown_fields_are_refused', kind == 'exc', err)
    unchanged(E, s, v)
    close(s)


@case(grid={'backend': BACKENDS},
      bounds='any two of 12 field names that resemble internals')
def unusual_names(E, backend):
    from dsch import schema
    names = ['A', 'x1', 'item_0', 'length', 'schema', 'dsch_data', 'name',
             'T', 'i', 'node', 'item', 'keys', 'items', 'values']
    a = E.choice('a', names)
    b = E.choice('b', ['data_x', 'item_1', 'length', 'get', 'keys'])
    E.assume(a != b)
    s = new_storage(E, backend, schema.Compilation(
        {a: schema.Scalar('int32'), b: schema.Bool(),
         'c': schema.Compilation({b: schema.Scalar('int32')})}))
    v, w, f = E.scalar('v', 'int32'), E.scalar('w', 'int32'), E.flag('f')
    getattr(s.data, a).value = v
    getattr(s.data, b).value = f
    getattr(s.data.c, b).value = w
    E.check('fields_of_any_name', E.all([
        E.same(getattr(s.data, a).value, v),
        E.same(getattr(s.data, b).value, f),
        E.same(getattr(s.data.c, b).value, w)]))
    close(s)


@case(grid={'backend': BACKENDS, 'shape': LARGE},
      bounds='lists of 101 items, compilations of 40 fields, nesting of 11 '
             'levels; assignment at any of 5-6 places')
def large(E, backend, shape):
    from dsch import exceptions, schema
    s = new_storage(E, backend, large_schema(
        shape, lambda i: schema.Scalar('int32')))
    last = COUNT[shape] - 1
    large_node(s.data, shape, last, True)
    at = E.choice('at', PLACES[shape])
    node = large_node(s.data, shape, at)[0]
    v = E.scalar('v', 'int32')
    node.value = v
    other = large_node(s.data, shape, at and at - 1 or last)[0]
    if shape == 'items':
        kind, err = E.outcome(s.data.__setitem__, at, v)
    else:
        kind, err = E.outcome(node.parent.__setattr__,
                              'x' if shape == 'levels' else 'f%d' % at, v)
    E.check('large_tree_refuses_assignment', kind == 'exc' and
            E.is_a(err, exceptions.ResetSubnodeError))
    E.check('large_tree_is_unchanged',
            large_node(s.data, shape, at)[0] is node and
            E.same(node.value, v) and other.empty)
    up = 0
    while node.parent is not None:
        node = node.parent
        up += 1
    E.check('parents_lead_to_the_top', node is s.data and up == (
        at + at // 2 + 1 if shape == 'levels' else 1))
    close(s)
