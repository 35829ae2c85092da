"""I29: storages and nodes are independent of each other."""
from sx.case import registry
from props.b25 import OPS, STARTS, apply, compare, tree_schema
from props.common import EXT, close, new_storage
from props.n12 import same_tree
from props.o28 import Fixed

CASES, case = registry()
ASSUMPTIONS = ['arrays given to two storages are different objects (backends '
               'other than HDF5 keep the array they are given)']
BACKENDS = ['inmem', 'npz', 'hdf5', 'mat']
SOME = ['linked', 'append', 'edit_item', 'clear_list', 'resize', 'element',
        'some_texts', 'clear_part']


def pick(E, name, some):
    return E.choice(name, [o for o in OPS if o != 'dims'] if E.thorough
                    else some)


@case(grid={'first': BACKENDS, 'second': BACKENDS,
            'how': ['same', 'equal', 'copied', 'opened']},
      bounds='operations on one storage before and after one on another '
             '(out of 8, 3 and 1; thorough: 20, 20 and 3) with arbitrary '
             'values, where both use the same schema object or equal ones, '
             'or the second was copied from or is the file of the first; '
             'both are compared with storages that were used alone')
def pair(E, first, second, how):
    import dsch
    if how == 'opened' and (first != second or first == 'inmem'):
        E.done()
    v = Fixed(E, False)
    schema = tree_schema()

    def do(s, op, tag):
        return E.outcome(apply, E, v, s.data, op, tag)[0]

    def fill(s):
        for i, o in enumerate(STARTS['filled']):
            apply(E, v, s.data, o, 'start%d' % i)
    alone_a = new_storage(E, first, tree_schema(), 'alone_a')
    alone_b = new_storage(E, second, tree_schema(), 'alone_b')
    a = new_storage(E, first, schema, 'a')
    fill(a)
    fill(alone_a)
    fill(alone_b)
    if how == 'opened':
        a.save(force=True)
        b = dsch.load(E.snapshot(a.storage_path, 'b' + EXT[first]),
                      force=True)
    else:
        b = new_storage(E, second, schema if how == 'same' else tree_schema(), 'b')
        if how == 'copied':
            b.data.load_from(a.data)
        else:
            fill(b)
    op0, op1 = pick(E, 'op0', SOME), pick(E, 'op1', [
        'edit_item', 'resize', 'linked'])
    op2 = E.choice('op2', ['edit_item', 'element', 'append']
                   if E.thorough else ['edit_item'])
    for s, alone, op, tag in ((a, alone_a, op0, 'a0'), (b, alone_b, op1, 'b'),
                              (a, alone_a, op2, 'a1')):
        one, two = do(s, op, tag), do(alone, op, tag)
        E.check('operations_succeed_as_if_alone', one == two, (op, tag))
        if one == 'exc':
            break
    last = how == 'same' and first == second
    compare(E, alone_a.data, a.data, (op0, op1, op2), last and E.thorough)
    compare(E, alone_b.data, b.data, (op0, op1, op2), last)
    if hasattr(a, 'save'):
        a.save(force=True)
    close(a)
    compare(E, alone_b.data, b.data, 'other one closed')
    E.check('schemas_agree', b.schema_hash() == alone_b.schema_hash() ==
            tree_schema().hash())
    close(b)
    for x in (alone_a, alone_b):
        close(x)


def shared_schema(shared):
    """One schema node object is used several times in a tree, or not."""
    from dsch import schema
    once = {}

    def leaf(kind):
        if not shared or kind not in once:
            once[kind] = {
                's': lambda: schema.String(max_length=2),
                'n': lambda: schema.Scalar('int16', unit='m', max_value=9),
                'a': lambda: schema.Array('int16', max_shape=(2,)),
                'l': lambda: schema.List(leaf('s'), max_length=2),
                'c': lambda: schema.Compilation(
                    {'s': leaf('s'), 'n': leaf('n'), 'l': leaf('l')})
            }[kind]()
        return once[kind]
    return schema.Compilation(
        {'s': leaf('s'), 't': leaf('s'), 'n': leaf('n'), 'a': leaf('a'),
         'b': leaf('a'), 'l': leaf('l'), 'm': leaf('l'), 'c': leaf('c'),
         'd': leaf('c'), 'k': schema.List(leaf('c'))}, ['s', 'c'])


def change(E, v, d, op, tag):
    if op == 'text':
        d.s.value = v.get('str', tag + 's', 3, 1, lo=1)
    elif op == 'other_text':
        d.t.value = v.get('str', tag + 's', 3, 1, lo=1)
    elif op == 'array':
        d.a.value = v.get('array', tag + 'a', 'int16', (2,)).copy()
    elif op == 'element':
        d.a[0] = v.get('scalar', tag + 'e', 'int16')
    elif op == 'list':
        d.l.replace([v.get('str', tag + 's', 1, 1, lo=1), 'b'])
    elif op == 'other_list':
        d.m.append(v.get('str', tag + 's', 1, 1, lo=1))
    elif op == 'part':
        d.c.n.value = v.get('scalar', tag + 'n', 'int16')
        d.c.l.append('x')
    elif op == 'other_part':
        d.d.replace({'s': v.get('str', tag + 's', 1, 1, lo=1), 'n': v.get(
            'scalar', tag + 'n', 'int16'), 'l': ['y']})
    elif op == 'items':
        d.k.replace([{'n': v.get('scalar', tag + 'n', 'int16')},
                     {'s': 'z', 'l': ['p', 'q']}])
    elif op == 'copy':
        d.b.load_from(d.a)
        d.d.load_from(d.c)
        d.m.load_from(d.l)
    elif op == 'clear':
        d.s.clear()
        d.l.clear()
        d.c.clear()
        d.a.clear()


CHANGES = ['text', 'other_text', 'array', 'list', 'other_list', 'part',
           'other_part', 'items', 'copy', 'clear', 'element']


def states(d):
    r = []
    for x in (d.s, d.t, d.n, d.a, d.b, d.l, d.m, d.c, d.d, d.k, d.c.s, d.c.n,
              d.c.l, d.d.s, d.d.n, d.d.l, d):
        r.append((x.empty, x.complete))
    for x in list(d.k):
        r += [(y.empty, y.complete) for y in (x, x.s, x.n, x.l)]
    return r


@case(grid={'backend': BACKENDS, 'op': CHANGES},
      bounds='two (thorough: three) operations out of 11 with arbitrary '
             'values on a tree that uses the same schema nodes in several '
             'places, compared with a tree of separate schema nodes')
def nodes(E, backend, op):
    v = Fixed(E, False)
    a = new_storage(E, backend, shared_schema(True), 'shared')
    b = new_storage(E, backend, shared_schema(False), 'separate')
    E.check('schemas_agree', a.schema_hash() == b.schema_hash() and
            a.schema_node == b.schema_node)
    ops = [op, E.choice('op1', CHANGES)]
    if E.thorough:
        ops.append(E.choice('op2', CHANGES))
    for i, o in enumerate(ops):
        one, two = [E.outcome(change, E, v, s.data, o, 'op%d' % i)[0]
                    for s in (a, b)]
        E.check('operations_succeed_in_both', one == two, (o, one, two))
        E.check('flags_agree', states(a.data) == states(b.data), o)
        E.check('data_agrees', same_tree(E, a.data.data_tree(True),
                                         b.data.data_tree(True)), o)
        if one == 'exc':
            break
    used = {'text': 's', 'other_text': 't', 'array': 'a', 'list': 'l',
            'other_list': 'm', 'part': 'c', 'other_part': 'd', 'items': 'k',
            'element': 'a'}
    if op in used and one != 'exc':
        names = {used.get(o) for o in ops}
        if not names & {None}:
            E.check('only_the_used_nodes_are_set', all(
                E.implies(n not in names, getattr(a.data, n).empty)
                for n in 'stablmcdk'))
    close(a)
    close(b)


@case(grid={'first': BACKENDS, 'second': BACKENDS,
            'what': ['tree', 'list', 'leaf', 'item']},
      bounds='a tree, list, leaf or list item is copied with load_from and '
             'then one of the two is changed by one operation out of 8')
def copies(E, first, second, what):
    v = Fixed(E, False)
    a = new_storage(E, first, tree_schema(), 'a')
    b = new_storage(E, second, tree_schema(), 'b')
    for i, o in enumerate(STARTS['filled']):
        apply(E, v, a.data, o, 'start%d' % i)
    b.data.load_from(a.data)
    if what != 'tree':
        for s in (a, b):
            apply(E, v, s.data, 'linked', 'more')
    if what == 'list':
        b.data.l.load_from(a.data.l)
    elif what == 'leaf':
        b.data.t.load_from(a.data.t)
        b.data.u.load_from(a.data.u)
        b.data.a.load_from(a.data.a)
    elif what == 'item':
        b.data.l[1].load_from(a.data.l[1])
    E.check('copy_equals_original', same_tree(
        E, b.data.data_tree(True), a.data.data_tree(True)))
    changed, kept = (a, b) if E.choice('original', [True, False]) else (b, a)
    before = kept.data.data_tree(True)
    ref = new_storage(E, 'hdf5', tree_schema(), 'ref')
    ref.data.load_from(kept.data)
    op = pick(E, 'op', ['element', 'edit_item', 'resize', 'append',
                        'clear_list', 'clear_leaf', 'nested', 'some_texts'])
    E.outcome(apply, E, v, changed.data, op, 'op')
    compare(E, ref.data, kept.data, op)
    E.check('tree_of_the_other_is_unchanged', same_tree(
        E, kept.data.data_tree(True), before))
    for s in (a, b, ref):
        close(s)


def element(kind):
    from dsch import schema
    return {'array': lambda: schema.Array('int16'),
            'text': lambda: schema.String(max_length=2),
            'bytes': lambda: schema.Bytes(),
            'arrays': lambda: schema.List(schema.Array('int16')),
            'texts': lambda: schema.List(schema.String()),
            'part': lambda: schema.Compilation({
                'a': schema.Array('int16'), 'l': schema.List(
                    schema.Array('int16'))}),
            'parts': lambda: schema.List(schema.Compilation({
                'c': schema.Compilation({'a': schema.Array('int16')})}))
            }[kind]()


def item_value(E, v, kind, tag):
    def array(n):
        return v.get('array', tag + n, 'int16', (2,)).copy()
    return {'array': lambda: array('a'), 'text': lambda: 'x',
            'bytes': lambda: v.get('bytes', tag + 'b', 2, 1),
            'arrays': lambda: [array('a'), array('b')],
            'texts': lambda: ['x', 'y'],
            'part': lambda: {'a': array('a'), 'l': [array('b')]},
            'parts': lambda: [{'c': {'a': array('a')}}, {}]}[kind]()


def edits(E, v, kind, node, how):
    """Change one item in place."""
    new = v.get('scalar', 'new', 'int16')
    if kind in ('array', 'text', 'bytes'):
        if kind == 'array' and how == 'element':
            node[0] = new
        elif kind == 'array' and how == 'resize':
            node.resize((1,))
        elif how == 'clear':
            node.clear()
        else:
            node.value = item_value(E, v, kind, 'new')
    elif kind in ('arrays', 'texts'):
        if how == 'element':
            edits(E, v, kind[:-1], node[0], how)
        elif how == 'resize':
            node.append(item_value(E, v, kind[:-1], 'new'))
        elif how == 'clear':
            node.clear()
        else:
            node[-1].value = item_value(E, v, kind[:-1], 'new')
    elif kind == 'part':
        if how == 'element':
            node.l[0][1] = new
        elif how == 'resize':
            node.a.resize((3,))
        elif how == 'clear':
            node.l.clear()
        else:
            node.replace(item_value(E, v, kind, 'new'))
    else:
        if how == 'element':
            node[0].c.a[1] = new
        elif how == 'resize':
            node[1].c.a.value = item_value(E, v, 'array', 'new')
        elif how == 'clear':
            node[0].c.clear()
        else:
            node.replace(item_value(E, v, kind, 'new'))


@case(grid={'first': BACKENDS, 'second': BACKENDS,
            'kind': ['array', 'text', 'bytes', 'arrays', 'texts', 'part',
                     'parts']},
      bounds='lists of two items (arrays, texts, bytes, lists, compilations) '
             'are copied, then one item of one of them is changed in one of '
             '4 ways')
def items(E, first, second, kind):
    from dsch import schema
    v = Fixed(E, False)
    a = new_storage(E, first, schema.List(element(kind)), 'a')
    b = new_storage(E, second, schema.List(element(kind)), 'b')
    a.data.append(item_value(E, v, kind, 'i0'))
    a.data.append(item_value(E, v, kind, 'i1'))
    if E.choice('way', ['list', 'item']) == 'list':
        b.data.load_from(a.data)
    else:
        for x in a.data:
            b.data.append()
            b.data[-1].load_from(x)
    E.check('copied_list_equals_original', same_tree(
        E, b.data.data_tree(True), a.data.data_tree(True)))
    changed, kept = (a, b) if E.choice('original', [True, False]) else (b, a)
    ref = new_storage(E, 'hdf5', schema.List(element(kind)), 'ref')
    for i in ('i0', 'i1'):
        ref.data.append(item_value(E, v, kind, i))
    how = E.choice('how', ['element', 'resize', 'clear', 'value'])
    edits(E, v, kind, changed.data[E.choice('i', [0, 1])], how)
    E.check('other_list_is_unchanged', same_tree(
        E, kept.data.data_tree(True), ref.data.data_tree(True)), how)
    E.check('nodes_belong_to_their_list', all(
        x.parent is s.data for s in (a, b) for x in s.data))
    for s in (a, b, ref):
        close(s)


@case(grid={'backend': ['npz', 'mat', 'hdf5']},
      bounds='one file is loaded twice, before and after it was changed and '
             'saved with one operation out of 8 (thorough: 20); HDF5 files '
             'are closed in between, because they cannot be opened twice')
def same_file(E, backend):
    import dsch
    v = Fixed(E, False)
    made = new_storage(E, backend, tree_schema(), 'made')
    old, new = [new_storage(E, 'inmem', tree_schema()) for _ in range(2)]
    for x in (made, old, new):
        for i, o in enumerate(STARTS['filled']):
            apply(E, v, x.data, o, 'start%d' % i)
    made.save(force=True)
    path = made.storage_path
    close(made)
    a = dsch.load(path, force=True)
    if backend != 'hdf5':
        b = dsch.load(path, force=True)
    op = pick(E, 'op', SOME)
    for x in (a, new):
        apply(E, v, x.data, op, 'op')
    if backend != 'hdf5':
        compare(E, old.data, b.data, op)
        compare(E, old.data, dsch.load(path, force=True).data, op)
    a.save(force=True)
    close(a)
    c = dsch.load(path, force=True)
    compare(E, new.data, c.data, op)
    close(c)
    if backend != 'hdf5':
        compare(E, old.data, b.data, op)
        b.save(force=True)
        c = dsch.load(path, force=True)
        compare(E, old.data, c.data, op)
        compare(E, new.data, a.data, op)


@case(grid={'backend': ['npz', 'mat', 'hdf5'], 'kind': ['String', 'Array']},
      bounds='the limits of a loaded schema are changed to arbitrary ones; '
             'schemas of storages that were loaded before and after, or '
             'restored from the same JSON text, are not affected')
def schemas(E, backend, kind):
    import dsch
    from dsch import schema
    old, new = E.int('old', 0, 3), E.int('new', 0, 3)
    leaf = (schema.String(max_length=old) if kind == 'String' else
            schema.Array('int16', max_shape=(old,)))
    node = schema.Compilation({'a': leaf, 'l': schema.List(
        schema.Bool(), max_length=old)})
    s = new_storage(E, backend, node, 'made')
    text = node.to_json()
    s.data.a.value = (E.str('s', 3, lo=1) if kind == 'String' else
                      E.array('v', 'int16', (E.choice('n', [0, 1, 3]),)))
    valid = E.outcome(s.validate)[0] == 'ok'
    s.save(force=True)
    path = s.storage_path
    close(s)
    if backend != 'hdf5':
        before = dsch.load(path, force=True)
    a = dsch.load(path, force=True)
    b = schema.node_from_json(text)
    for x in (a.schema_node, b):
        x.subnodes['l'].max_length = new
        if kind == 'String':
            x.subnodes['a'].max_length = new
        else:
            x.subnodes['a'].max_shape = (new,)
    close(a)
    after = dsch.load(path, force=True)
    for x in [after] + ([before] if backend != 'hdf5' else []):
        E.check('other_schemas_are_unchanged',
                x.schema_node.to_json() == text, text)
        E.check('other_validity_is_unchanged', E.iff(
            E.outcome(x.validate)[0] == 'ok', valid))
    E.check('restored_schemas_are_independent',
            schema.node_from_json(text).to_json() == text)
    close(after)
