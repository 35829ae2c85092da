"""N09: empty, complete, clear() and value agree for every history."""
from sx.case import registry
from props.common import (COUNT, LARGE, PLACES, SIMPLE, close, large_node,
                          large_schema, leaf_schema, leaf_value, new_storage)

CASES, case = registry()
ASSUMPTIONS = ['no set_on_create nodes (see D22)']
BACKENDS = ['inmem', 'npz', 'hdf5', 'mat']


@case(grid={'backend': BACKENDS, 'kind': SIMPLE + [
    'Scalar:int8', 'Scalar:float64', 'Scalar:complex64', 'Array:int16:1',
    'Array:float32:2']},
      bounds='a leaf node: 4 steps of set (any value, also empty texts, '
             'False, zero and zero-size arrays) or clear')
def leaf_history(E, backend, kind):
    from dsch import exceptions, schema
    s = new_storage(E, backend, schema.Compilation({'x': leaf_schema(kind)}))
    x = s.data.x
    isset = False
    for step in range(4):
        E.check('empty_iff_no_value', E.iff(x.empty, not isset))
        E.check('complete_iff_value', E.iff(x.complete, isset))
        E.check('value_raises_iff_empty', E.iff(isset, E.outcome(
            lambda: x.value)[0] == 'ok'))
        if not isset:
            E.check('empty_value_raises_node_empty_error', E.is_a(
                E.outcome(lambda: x.value)[1], exceptions.NodeEmptyError))
            E.check('empty_node_validates',
                    E.outcome(x.validate)[0] == 'ok')
        if step == 3:
            break
        isset = E.choice('set%d' % step, [True, False])
        if isset:
            shapes = {1: [(0,), (2,)], 2: [(0, 2), (1, 1)]}.get(
                int(kind[-1]) if kind.startswith('Array') else None)
            x.value = leaf_value(E, 'v%d' % step, kind, 1, shapes)
        else:
            x.clear()
    close(s)


OPTIONALS = [None, ['a'], ['b', 'c'], ['c'], ['l'], ['a', 'b', 'c', 'l']]


def tree(E, backend, optionals):
    from dsch import schema
    leaf = schema.Scalar('int32')
    s = new_storage(E, backend, schema.Compilation({
        'a': leaf, 'b': schema.String(),
        'c': schema.Compilation({'d': leaf, 'e': schema.Bool()},
                                optionals=['e']),
        'l': schema.List(schema.Compilation({'x': leaf}))},
        optionals=optionals))
    return s


def compare(E, data, m, opts):
    """Compare all flags with the reference model m."""
    opts = opts or []
    nodes = {'a': data.a, 'b': data.b, 'd': data.c.d, 'e': data.c.e}
    for n in sorted(nodes):
        E.check('leaf_flags', nodes[n].empty == (not m[n]) and
                nodes[n].complete == m[n], n)
    E.check('list_length', len(data.l) == len(m['l']))
    for i, isset in enumerate(m['l']):
        E.check('item_flags', data.l[i].empty == (not isset) and
                data.l[i].complete == isset, i)
    lempty = not any(m['l'])
    E.check('list_empty_iff_all_items_empty', data.l.empty == lempty)
    lcomplete = all(m['l'])
    E.check('list_complete_iff_all_items_complete',
            data.l.complete == lcomplete)
    cempty = not m['d'] and not m['e']
    E.check('inner_empty', data.c.empty == cempty)
    E.check('inner_complete_ignores_optionals', data.c.complete == m['d'])
    E.check('compilation_empty_iff_all_fields_empty',
            data.empty == (not m['a'] and not m['b'] and cempty and lempty))
    need = {'a': m['a'], 'b': m['b'], 'c': m['d'], 'l': lcomplete}
    E.check('complete_iff_required_fields_complete', data.complete ==
            all([need[n] for n in sorted(need) if n not in opts]))


OPS = ['set_a', 'clear_a', 'set_b', 'clear_b', 'set_d', 'set_e', 'clear_c',
       'append', 'append_set', 'set_item', 'clear_item', 'clear_l',
       'replace_l', 'clear', 'replace']


@case(grid={'backend': BACKENDS, 'first': OPS},
      grid_thorough={'first': [a + '+' + b for a in OPS for b in OPS]},
      bounds='compilation with nested compilation and list, six sets of '
             'optional fields; histories of 3 (thorough: 4) operations out '
             'of 15, values symbolic')
def tree_history(E, backend, first):
    opts = E.choice('optionals', OPTIONALS)
    s = tree(E, backend, opts)
    data = s.data
    m = {'a': False, 'b': False, 'd': False, 'e': False, 'l': []}
    compare(E, data, m, opts)
    fixed = first.split('+')
    ops = list(fixed)
    n = E.choice('steps', [2, 0, 1])
    # Two fixed operations, then arbitrary ones.
    for i in range(n):
        ops.append(E.choice('op%d' % i, OPS) if i == 0 else
                   E.choice('op%d' % i, ['set_a', 'append_set', 'clear']))
    for i, op in enumerate(ops):
        if op == 'set_a':
            data.a.value = E.scalar('v%d' % i, 'int32')
            m['a'] = True
        elif op == 'clear_a':
            data.a.clear()
            m['a'] = False
        elif op == 'set_b':
            data.b.value = E.str('s%d' % i, 1, 1, lo=1)
            m['b'] = True
        elif op == 'clear_b':
            data.b.clear()
            m['b'] = False
        elif op == 'set_d':
            data.c.d.value = E.scalar('v%d' % i, 'int32')
            m['d'] = True
        elif op == 'set_e':
            data.c.e.value = E.flag('f%d' % i)
            m['e'] = True
        elif op == 'clear_c':
            data.c.clear()
            m['d'] = m['e'] = False
        elif op == 'append':
            data.l.append()
            m['l'].append(False)
        elif op == 'append_set':
            data.l.append({'x': E.scalar('v%d' % i, 'int32')})
            m['l'].append(True)
        elif op == 'set_item':
            if m['l']:
                data.l[0].x.value = E.scalar('v%d' % i, 'int32')
                m['l'][0] = True
        elif op == 'clear_item':
            if m['l']:
                data.l[-1].clear()
                m['l'][-1] = False
        elif op == 'clear_l':
            data.l.clear()
            m['l'] = []
        elif op == 'replace_l':
            data.l.replace([{'x': E.scalar('v%d' % i, 'int32')}])
            m['l'] = [True]
        elif op == 'clear':
            data.clear()
            m = {'a': False, 'b': False, 'd': False, 'e': False, 'l': []}
        else:
            data.replace({'a': E.scalar('v%d' % i, 'int32'),
                          'c': {'e': E.flag('f%d' % i)}})
            m['a'] = m['e'] = True
        compare(E, data, m, opts)
    E.check('storage_complete_is_data_complete',
            s.complete == data.complete)
    E.check('empty_fields_are_valid', E.outcome(s.validate)[0] == 'ok')
    close(s)


@case(grid={'backend': BACKENDS},
      bounds='compilations without fields, with only optional fields, lists '
             'of empty lists')
def corner_cases(E, backend):
    from dsch import schema
    what = E.choice('what', ['none', 'optional', 'lists'])
    if what == 'none':
        s = new_storage(E, backend, schema.Compilation({}))
        E.check('no_fields_is_empty_and_complete',
                s.data.empty and s.data.complete)
    elif what == 'optional':
        s = new_storage(E, backend, schema.Compilation(
            {'a': schema.Bool()}, optionals=['a']))
        E.check('only_optionals_is_empty_and_complete',
                s.data.empty and s.data.complete)
        s.data.a.value = E.flag('v')
        E.check('set_optional_is_complete',
                not s.data.empty and s.data.complete)
    else:
        s = new_storage(E, backend, schema.List(schema.List(schema.Bool())))
        E.check('new_list_is_empty_and_complete',
                s.data.empty and s.data.complete)
        s.data.append()
        E.check('list_of_empty_list', s.data.empty and s.data.complete)
        s.data[0].append()
        E.check('list_with_empty_item', s.data.empty and
                not s.data.complete and not s.complete)
        s.data[0][0].value = E.flag('v')
        E.check('list_with_item', not s.data.empty and s.data.complete)
    close(s)


@case(grid={'backend': BACKENDS, 'shape': LARGE},
      bounds='lists of 101 items, compilations of 40 fields, nesting of 11 '
             'levels; one leaf set, or all but one, at any of 5-6 places')
def large(E, backend, shape):
    from dsch import schema
    s = new_storage(E, backend, large_schema(
        shape, lambda i: schema.Scalar('int32')))
    last = COUNT[shape] - 1
    large_node(s.data, shape, last, True)
    E.check('large_tree_starts_empty', s.data.empty and not s.data.complete)
    at = E.choice('at', PLACES[shape])
    node = large_node(s.data, shape, at)[0]
    v, w = E.scalar('v', 'int32'), E.scalar('w', 'int32')
    node.value = v
    E.check('one_leaf_set_is_not_empty',
            not s.data.empty and not s.data.complete)
    node.clear()
    E.check('cleared_leaf_is_empty', s.data.empty and not s.data.complete)
    for i in range(last + 1):
        if i != at:
            large_node(s.data, shape, i)[0].value = w
    E.check('one_leaf_missing_is_not_complete',
            not s.data.empty and not s.data.complete and not s.complete)
    node.value = v
    E.check('all_leaves_set_is_complete',
            s.data.complete and s.complete and not s.data.empty)
    s.data.clear()
    E.check('cleared_tree_is_empty', s.data.empty)
    close(s)


@case(grid={'backend': ['inmem', 'hdf5']},
      bounds='two or three fields whose names contain or resemble each other, '
             'any of them optional, each empty or any value')
def similar_names(E, backend):
    from dsch import schema
    names = E.choice('names', [['a', 'ab', 'b'], ['ab', 'a'], ['x', 'X'],
                               ['item', 'item_1', 'item_10'],
                               ['optionals', 'o']])
    opts = [n for n in names if E.flag('optional ' + n)]
    if E.flag('tuple'):
        opts = tuple(opts)
    s = new_storage(E, backend, schema.Compilation(
        {n: schema.Bool() for n in names}, optionals=opts))
    isset = {}
    for n in names:
        isset[n] = E.flag('set ' + n)
        if isset[n]:
            getattr(s.data, n).value = E.flag('v ' + n)
    E.check('similar_names_empty', s.data.empty == (not any(
        isset.values())))
    E.check('similar_names_complete', s.data.complete == all(
        isset[n] or n in opts for n in names))
    for n in names:
        E.check('similar_names_field', getattr(s.data, n).empty !=
                isset[n])
    close(s)
