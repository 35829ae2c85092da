"""N12: data_tree() mirrors the data."""
from sx.case import registry
from props.common import (COUNT, LARGE, PLACES, SIMPLE, close, large_node,
                          large_schema, mixed, leaf_schema, leaf_value, new_storage)

CASES, case = registry()
ASSUMPTIONS = []
BACKENDS = ['inmem', 'npz', 'hdf5', 'mat']


def same_tree(E, got, want):
    """Structural comparison; containers must be plain dicts and lists."""
    if isinstance(want, dict):
        return E.is_a(got, dict) and sorted(got) == sorted(want) and E.all(
            [same_tree(E, got[k], want[k]) for k in sorted(want)])
    if isinstance(want, list):
        return E.is_a(got, list) and len(got) == len(want) and E.all(
            [same_tree(E, x, y) for x, y in zip(got, want)])
    if want is None:
        return got is None
    return got is not None and E.same(got, want)


def prune(want):
    """The expected tree without the empty fields."""
    if isinstance(want, dict):
        return {k: prune(v) for k, v in want.items() if v is not None}
    if isinstance(want, list):
        return [prune(v) for v in want if v is not None]
    return want


@case(grid={'backend': BACKENDS, 'kind': SIMPLE + [
    'Scalar:int16', 'Scalar:float64', 'Array:int8:1', 'Array:float32:2']},
      bounds='a leaf node, empty or any value, on its own and in a '
             'compilation and list')
def leaves(E, backend, kind):
    from dsch import schema
    leaf = leaf_schema(kind)
    s = new_storage(E, backend, schema.Compilation(
        {'a': leaf, 'b': leaf, 'l': schema.List(leaf)}))
    a = leaf_value(E, 'a', kind, 1)
    c = leaf_value(E, 'c', kind, 1)
    s.data.a.value = a
    s.data.l.append(c)
    s.data.l.append()
    E.check('leaf_tree_is_its_value',
            same_tree(E, s.data.a.data_tree(), a))
    E.check('empty_leaf_tree_is_none', s.data.b.data_tree() is None and
            s.data.b.data_tree(include_empty=True) is None)
    full = {'a': a, 'b': None, 'l': [c, None]}
    E.check('tree_without_empty_fields',
            same_tree(E, s.data.data_tree(), prune(full)))
    E.check('tree_with_empty_fields',
            same_tree(E, s.data.data_tree(include_empty=True), full))
    close(s)


@case(grid={'backend': BACKENDS},
      bounds='compilation > list (0..2) > compilation > list (0..2), every '
             'other field optional; every leaf empty or any value')
def nested(E, backend):
    from dsch import schema
    leaf = schema.Scalar('int32')
    k = BACKENDS.index(backend) % 2
    s = new_storage(E, backend, mixed({
        'z': leaf, 'l': schema.List(mixed({
            'x': leaf, 'm': schema.List(leaf)}, k)),
        'c': mixed({'d': leaf, 'e': schema.Compilation({})}, k)}, k))

    def maybe(node, name):
        if E.choice(name + '?', [True, False]):
            v = E.scalar(name, 'int32')
            node.value = v
            return v
        return None
    want = {'z': maybe(s.data.z, 'z'), 'l': [],
            'c': {'d': maybe(s.data.c.d, 'd'), 'e': {}}}
    for i in range(E.choice('n', [0, 1, 2])):
        s.data.l.append()
        item = {'x': maybe(s.data.l[i].x, 'x%d' % i), 'm': []}
        for j in range(E.choice('m%d' % i, [0, 1, 2])):
            s.data.l[i].m.append()
            item['m'].append(maybe(s.data.l[i].m[j], 'v%d%d' % (i, j)))
        want['l'].append(item)
    E.check('nested_tree_without_empty_fields',
            same_tree(E, s.data.data_tree(), prune(want)))
    E.check('nested_tree_with_empty_fields',
            same_tree(E, s.data.data_tree(True), want))
    E.check('tree_is_repeatable',
            same_tree(E, s.data.data_tree(include_empty=True), want))
    for i, item in enumerate(want['l']):
        E.check('subtree', same_tree(E, s.data.l[i].data_tree(True), item))
    close(s)


@case(grid={'backend': BACKENDS},
      bounds='a modified data_tree does not change the storage')
def detached(E, backend):
    from dsch import schema
    s = new_storage(E, backend, schema.Compilation({
        'a': schema.Scalar('int32'), 'l': schema.List(
            schema.Scalar('int32'))}))
    v, w = E.scalar('v', 'int32'), E.scalar('w', 'int32')
    s.data.a.value = v
    s.data.l.append(w)
    t = s.data.data_tree()
    t['a'] = None
    t['l'].append(w)
    t['x'] = 1
    E.check('containers_are_copies', same_tree(
        E, s.data.data_tree(), {'a': v, 'l': [w]}))
    close(s)


@case(grid={'backend': BACKENDS, 'shape': LARGE},
      bounds='lists of 101 items, compilations of 40 fields, nesting of 11 '
             'levels; all leaves empty but two, or one empty at any of 5-6 '
             'places')
def large(E, backend, shape):
    from dsch import schema
    s = new_storage(E, backend, large_schema(
        shape, lambda i: schema.Scalar('int32')))
    last = COUNT[shape] - 1
    large_node(s.data, shape, last, True)
    at = E.choice('at', PLACES[shape])
    most = E.flag('most')
    some = [E.scalar('v%d' % i, 'int32') for i in range(5)]
    vals = {}
    for i in range(last + 1):
        if (i != at) if most else i in (at, last):
            vals[i] = some[i % 5]
            large_node(s.data, shape, i)[0].value = vals[i]
    if shape == 'items':
        want = [vals.get(i) for i in range(last + 1)]
    elif shape == 'fields':
        want = {'f%d' % i: vals.get(i) for i in range(last + 1)}
    else:
        want = {'x': vals.get(last)}
        for i in reversed(range(last)):
            want = {'x': vals.get(i), 'sub' if i % 2 else 'a':
                    [want] if i % 2 else want}
    E.check('large_tree_with_empty_fields',
            same_tree(E, s.data.data_tree(True), want))
    E.check('large_tree_without_empty_fields',
            same_tree(E, s.data.data_tree(), prune(want)))
    close(s)
