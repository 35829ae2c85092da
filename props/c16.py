"""C16: copies between storages are exact and independent."""
from sx.case import registry
from props.common import (COMPLEX, EXT, FLOATS, INTS, SIMPLE, close,
                          leaf_schema, leaf_value, mixed, new_storage)
from props.n12 import same_tree

CASES, case = registry()
ASSUMPTIONS = [
    'values are valid for their schema node; strings contain no NUL '
    'characters or surrogates; dates and times are naive']
BACKENDS = ['inmem', 'npz', 'hdf5', 'mat']
KINDS = SIMPLE + ['Scalar:int16', 'Scalar:uint64', 'Scalar:float64',
                  'Array:int8:1', 'Array:float64:2']
MORE = SIMPLE + ['Scalar:' + d for d in INTS + FLOATS + COMPLEX] + [
    'Array:%s:%d' % (d, n) for d in INTS + FLOATS + COMPLEX + ['bool']
    for n in (1, 2)] + ['Array:int8:0', 'Array:float16:3']


def target(backend, E, name='target'):
    return '::inmem::' if backend == 'inmem' else E.path(name + EXT[backend])


def copy_storage(E, how, src, dst_backend, name='target'):
    import dsch
    if how == 'create_from':
        return dsch.create_from(target(dst_backend, E, name), src)
    if how == 'save_as':
        return src.save_as(target(dst_backend, E, name))
    new = new_storage(E, dst_backend, src.schema_node, name)
    new.data.load_from(src.data)
    return new


@case(grid={'src': BACKENDS, 'dst': BACKENDS, 'kind': KINDS},
      grid_thorough={'kind': MORE},
      bounds='every pair of backends, every leaf type with an arbitrary value '
             '(texts up to 2 characters, arrays up to 4 elements), in a '
             'compilation and a list, with empty neighbours; copied by '
             'load_from, create_from or save_as')
def leaves(E, src, dst, kind):
    from dsch import schema
    leaf = leaf_schema(kind)
    node = schema.Compilation({'a': leaf, 'e': leaf, 'l': schema.List(leaf)})
    s = new_storage(E, src, node, 'source')
    v, w = leaf_value(E, 'v', kind, 2), leaf_value(E, 'w', kind, 1)
    s.data.a.value = v
    s.data.l.append()
    s.data.l.append(v)
    want = {'a': v, 'e': None, 'l': [None, v]}
    how = E.choice('how', ['load_from', 'create_from', 'save_as'])
    d = copy_storage(E, how, s, dst)
    E.check('copy_has_the_schema', d.schema_hash() == s.schema_hash() and
            d.schema_node == s.schema_node)
    E.check('copy_is_exact', same_tree(E, d.data.data_tree(True), want), how)
    E.check('source_is_unchanged',
            same_tree(E, s.data.data_tree(True), want), how)
    # Changes of either side are not seen by the other one.
    if E.choice('change', ['source', 'copy']) == 'source':
        x, y = s, d
    else:
        x, y = d, s
    x.data.a.value = w
    x.data.e.value = w
    x.data.l[0].value = w
    x.data.l[1].clear()
    x.data.l.append(w)
    E.check('copy_is_independent',
            same_tree(E, y.data.data_tree(True), want), how)
    E.check('changes_apply', same_tree(E, x.data.data_tree(True), {
        'a': w, 'e': w, 'l': [w, None, w]}))
    close(s)
    close(d)


@case(grid={'src': BACKENDS, 'dst': BACKENDS,
            'kind': ['String', 'Bytes', 'Scalar:int16', 'Array:int16:1',
                     'Bool', 'DateTime']},
      bounds='a top-level leaf, empty or any value, copied onto an empty or '
             'filled leaf')
def top_level(E, src, dst, kind):
    leaf = leaf_schema(kind)
    s = new_storage(E, src, leaf, 'source')
    d = new_storage(E, dst, leaf, 'target')
    filled = E.choice('filled', [True, False])
    v, w = leaf_value(E, 'v', kind, 1), leaf_value(E, 'w', kind, 1)
    if filled:
        s.data.value = v
    if E.choice('target', [True, False]):
        d.data.value = w
    d.data.load_from(s.data)
    if filled:
        E.check('leaf_copy_is_exact', E.same(d.data.value, v))
        E.check('source_leaf_is_unchanged', E.same(s.data.value, v))
        d.data.value = w
        E.check('leaf_copy_is_independent', E.same(s.data.value, v))
        d.data.clear()
        E.check('clearing_the_copy_keeps_the_source',
                E.same(s.data.value, v))
    else:
        E.check('empty_leaf_copies_as_empty', d.data.empty and s.data.empty)
    close(s)
    close(d)


def tree_schema(k=1):
    from dsch import schema
    leaf = schema.Scalar('int32')
    item = mixed({'x': leaf, 'm': schema.List(leaf),
                  's': schema.String()}, k)
    return mixed({'l': schema.List(item), 'z': leaf,
                  'c': mixed({'d': leaf, 'e': item}, k),
                  'k': schema.List(schema.List(leaf))}, k)


def fill(E, d, tag, items, optional=True):
    """Put arbitrary data in the tree; the expected data tree."""
    def maybe(node, name):
        if not optional or E.choice(name + '?', [True, False]):
            v = E.scalar(name, 'int32')
            node.value = v
            return v
        return None
    want = {'z': maybe(d.z, tag + 'z'), 'l': [], 'k': [],
            'c': {'d': maybe(d.c.d, tag + 'd'),
                  'e': {'x': None, 'm': [], 's': None}}}
    for i in range(items):
        d.l.append()
        item = {'x': maybe(d.l[i].x, tag + 'x%d' % i), 'm': [], 's': None}
        for j in range(1 - i % 2):
            d.l[i].m.append()
            item['m'].append(maybe(d.l[i].m[j], tag + 'v%d%d' % (i, j)))
        want['l'].append(item)
    if items == 1:
        v = E.str(tag + 's', 1, 1, lo=1)
        d.c.e.s.value = want['c']['e']['s'] = v
        w = E.scalar(tag + 'k', 'int32')
        d.k.append()
        d.k.append([w])
        d.k[1].append()
        want['k'] = [[], [w, None]]
    elif items == 2:
        d.k.append()
        want['k'] = [[]]
    return want


@case(grid={'src': BACKENDS, 'dst': BACKENDS, 'n': [0, 1, 2], 'old': [0, 1, 3]},
      bounds='a tree of compilations (every other field optional) and lists '
             'with 0..2 items, leaves empty or any value; copied onto a tree with '
             '0, 1 or 3 items, then saved')
def trees(E, src, dst, n, old):
    import dsch
    k = (n + old) % 2
    s = new_storage(E, src, tree_schema(k), 'source')
    d = new_storage(E, dst, tree_schema(k), 'target')
    want = fill(E, s.data, 'n', n)
    if old:
        fill(E, d.data, 'o', old, False)
    d.data.load_from(s.data)
    E.check('tree_copy_is_exact', same_tree(E, d.data.data_tree(True), want))
    E.check('source_tree_is_unchanged',
            same_tree(E, s.data.data_tree(True), want))
    s.data.l.clear()
    s.data.clear()
    s.data.l.append()
    E.check('tree_copy_is_independent',
            same_tree(E, d.data.data_tree(True), want))
    close(s)
    if dst != 'inmem':
        d.save()
        r = dsch.load(E.snapshot(d.storage_path, 'saved' + EXT[dst]))
        E.check('tree_copy_is_saved',
                same_tree(E, r.data.data_tree(True), want))
        close(r)
    close(d)


@case(grid={'src': BACKENDS, 'dst': BACKENDS},
      bounds='copies of a part of a tree onto a part of the same or another '
             'tree')
def subtrees(E, src, dst):
    s = new_storage(E, src, tree_schema(), 'source')
    want = fill(E, s.data, 'n', 1)
    d = new_storage(E, dst, tree_schema(), 'target')
    other = fill(E, d.data, 'o', 2, False)
    part = E.choice('part', ['list', 'item', 'comp_onto_item', 'same_storage',
                             'leaf', 'inner_list'])
    if part == 'list':
        d.data.l.load_from(s.data.l)
        other['l'] = want['l']
    elif part == 'item':
        d.data.l[1].load_from(s.data.l[0])
        other['l'][1] = want['l'][0]
    elif part == 'comp_onto_item':
        d.data.l[0].load_from(s.data.c.e)
        other['l'][0] = want['c']['e']
    elif part == 'same_storage':
        d.data.l[1].load_from(d.data.l[0])
        other['l'][1] = other['l'][0]
    elif part == 'leaf':
        d.data.c.d.load_from(s.data.l[0].x)
        other['c']['d'] = want['l'][0]['x']
    else:
        d.data.k[0].load_from(s.data.l[0].m)
        other['k'] = [want['l'][0]['m']]
    E.check('part_is_copied_and_the_rest_kept',
            same_tree(E, d.data.data_tree(True), other), part)
    E.check('source_of_part_is_unchanged',
            same_tree(E, s.data.data_tree(True), want), part)
    close(s)
    close(d)


@case(grid={'src': BACKENDS, 'dst': BACKENDS, 'dtype': ['int16', 'float64']},
      bounds='arrays of 0 to 2 dimensions and 1..3 elements changed in place after the copy, by '
             'item or slice, on either side')
def arrays_in_place(E, src, dst, dtype):
    from dsch import schema
    node = schema.Compilation({'a': schema.Array(dtype),
                               'l': schema.List(schema.Array(dtype, ndim=2)),
                               'o': schema.Array(dtype, ndim=0)})
    s = new_storage(E, src, node, 'source')
    v = E.array('v', dtype, E.choice('n', [(1,), (2,), (3,)]))
    m = E.array('m', dtype, (2, 1))
    s.data.a.value = v.copy()
    s.data.l.append(m.copy())
    o = E.array('o', dtype, ())
    s.data.o.value = o.copy()
    d = copy_storage(E, E.choice('how', ['load_from', 'create_from',
                                         'save_as']), s, dst)
    x, y = (s, d) if E.choice('change', [True, False]) else (d, s)
    w = E.scalar('w', dtype)
    x.data.o[()] = w
    if E.choice('key', ['item', 'slice']) == 'item':
        x.data.a[0] = w
        x.data.l[0][1, 0] = w
    else:
        x.data.a[:] = w
        x.data.l[0][:, 0] = w
    E.check('array_copy_is_independent', E.same(y.data.a.value, v))
    E.check('array_item_copy_is_independent', E.same(y.data.l[0].value, m))
    E.check('copy_without_dimensions_is_independent',
            E.same(y.data.o.value, o))
    E.check('in_place_change_applies', E.same(x.data.a.value[0], w))
    close(s)
    close(d)


@case(grid={'src': BACKENDS, 'dst': ['npz', 'hdf5', 'mat']},
      bounds='the copy is saved and loaded; the source, too; chains of '
             'copies over every backend')
def saved_copies(E, src, dst):
    import dsch
    s = new_storage(E, src, tree_schema(), 'source')
    want = fill(E, s.data, 'n', E.choice('n', [0, 1]))
    d = copy_storage(E, E.choice('how', ['create_from', 'save_as']), s, dst)
    d.save()
    s.data.clear()
    s.data.l.append()
    path = E.snapshot(d.storage_path, 'copy' + EXT[dst])
    close(d)
    r = dsch.load(path)
    E.check('saved_copy_is_exact', same_tree(E, r.data.data_tree(True), want))
    back = copy_storage(E, 'create_from', r, src, 'back')
    E.check('copy_of_loaded_is_exact',
            same_tree(E, back.data.data_tree(True), want))
    close(s)
    close(r)
    close(back)


@case(grid={'src': BACKENDS, 'dst': BACKENDS},
      bounds='every source state; the target file must not exist')
def refuses_to_overwrite(E, src, dst):
    """Nothing happens to existing files when copying onto them."""
    import dsch
    if dst == 'inmem':
        return
    t = new_storage(E, dst, tree_schema(), 'target')
    want = fill(E, t.data, 't', 1, False)
    t.save()
    s = new_storage(E, src, tree_schema(), 'source')
    fill(E, s.data, 's', 2, False)
    kind, err = E.outcome(E.choice('how', [s.save_as, lambda p:
                                           dsch.create_from(p, s)]),
                          t.storage_path)
    E.check('existing_target_is_refused', kind == 'exc' and
            isinstance(err, FileExistsError), err)
    path = E.snapshot(t.storage_path, 'now' + EXT[dst])
    r = dsch.load(path)
    E.check('existing_target_is_unchanged',
            same_tree(E, r.data.data_tree(True), want))
    close(r)
    close(s)
    close(t)


NAMES = ['clear', 'empty', 'complete', 'parent', 'value', 'schema_node',
         'validate', 'replace', 'load_from', 'data_tree', 'node_tree', 'save']


@case(grid={'src': BACKENDS, 'dst': BACKENDS},
      bounds='fields with the names of attributes of nodes; linked arrays')
def names(E, src, dst):
    from dsch import schema
    n = E.choice('name', NAMES)
    node = schema.Compilation({
        n: schema.Array('int16'), 'x': schema.Array('int16', depends_on=n)})
    s = new_storage(E, src, node, 'source')
    k = E.choice('k', [1, 2])
    want = {n: E.array('v', 'int16', (2,)), 'x': E.array('w', 'int16', (k,))}
    s.data.replace(want)
    d = copy_storage(E, E.choice('how', ['load_from', 'create_from']), s, dst)
    E.check('named_fields_are_copied', same_tree(
        E, d.data.data_tree(True), want))
    E.check('named_fields_are_linked',
            (E.outcome(d.validate)[0] == 'ok') == (k == 2) and
            (E.outcome(s.validate)[0] == 'ok') == (k == 2))
    close(s)
    close(d)


@case(grid={'src': BACKENDS, 'dst': BACKENDS},
      bounds='nesting of 8 levels, compilations and lists in turn, copied '
             'onto an empty tree')
def deep_trees(E, src, dst):
    from dsch import schema
    leaf = schema.Scalar('int32')
    first = E.choice('first', [0, 1])
    node, want = leaf, E.scalar('v', 'int32')
    for i in range(8):
        x = E.scalar('x%d' % i, 'int32')
        if i % 2 == first:
            node = schema.Compilation({'x': leaf, 'a': node, 'f%d' % i: leaf})
            want = {'x': x, 'a': want, 'f%d' % i: None}
        else:
            node = schema.List(node)
            want = [want, x] if i == 0 else [want]
    s = new_storage(E, src, node, 'source')
    s.data.replace(without_none(want))
    d = copy_storage(E, E.choice('how', ['load_from', 'create_from',
                                         'save_as']), s, dst)
    E.check('deep_copy_is_exact',
            same_tree(E, d.data.data_tree(True), want))
    s.data.clear()
    E.check('deep_copy_is_independent',
            same_tree(E, d.data.data_tree(True), want))
    close(s)
    close(d)


def without_none(x):
    if isinstance(x, dict):
        return {k: without_none(x[k]) for k in x if x[k] is not None}
    if isinstance(x, list):
        return [without_none(y) for y in x]
    return x


@case(grid={'src': BACKENDS, 'dst': BACKENDS, 'kind': ['String', 'Bytes',
                                                       'Array', 'List']},
      bounds='a text and a byte string of about 300 characters, an array of '
             '40 elements, lists of 12 items')
def long_values(E, src, dst, kind):
    from dsch import schema
    leaf = {'String': schema.String, 'Bytes': schema.Bytes,
            'Array': lambda: schema.Array('int16', ndim=2),
            'List': lambda: schema.List(schema.Scalar('int16'))}[kind]()
    if kind == 'String':
        v = '\xe4b' * 99 + E.str('v', 3, 3, lo=1) + 'c' * 99
    elif kind == 'Bytes':
        v = b'\0b' * 99 + E.bytes('v', 3, 3) + b'\0' * 99
    elif kind == 'Array':
        v = E.array('v', 'int16', (2, 20))
    else:
        v = [E.scalar('v%d' % i, 'int16') for i in range(12)]
    s = new_storage(E, src, schema.Compilation({'a': leaf, 'b': leaf}),
                    'source')
    s.data.b.replace(v)
    d = copy_storage(E, E.choice('how', ['load_from', 'create_from',
                                         'save_as']), s, dst)
    want = {'a': [] if kind == 'List' else None, 'b': v}
    E.check('long_copy_is_exact', same_tree(E, d.data.data_tree(True), want))
    close(s)
    close(d)


@case(grid={'backend': BACKENDS},
      bounds='copies of a node onto itself: the whole tree, a list, an item, '
             'a leaf, an array')
def onto_itself(E, backend):
    s = new_storage(E, backend, tree_schema(), 'source')
    want = fill(E, s.data, 'n', E.choice('n', [1, 2]))
    node = E.choice('node', [lambda d: d, lambda d: d.l, lambda d: d.l[0],
                             lambda d: d.z, lambda d: d.c, lambda d: d.k])
    node(s.data).load_from(node(s.data))
    E.check('copy_onto_itself_changes_nothing',
            same_tree(E, s.data.data_tree(True), want))
    close(s)
