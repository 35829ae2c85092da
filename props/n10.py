"""N10: a list node behaves like a sequence for every history."""
from sx.case import registry
from props.common import (COUNT, PLACES, close, leaf_schema, leaf_value,
                          new_storage)

CASES, case = registry()
ASSUMPTIONS = ['at most 4 items (101 in the long_lists cases); values are valid for the item schema']
BACKENDS = ['inmem', 'npz', 'hdf5', 'mat']
KINDS = ['Scalar:int32', 'String', 'Bytes', 'Bool', 'Date', 'Array:int16:1']
OPS = ['append', 'append_empty', 'replace0', 'replace2', 'clear', 'set_first',
       'set_last', 'clear_first', 'clear_last']


SLICES = [slice(1, None), slice(None), slice(None, -1), slice(-2, None),
          slice(None, None, -1), slice(0, 9, 2), slice(5, 7), slice(-9, 2)]


def value(E, name, kind):
    shapes = [(2,), (0,)] if kind.startswith('Array') else None
    return leaf_value(E, name, kind, 1, shapes)


def compare(E, lst, m):
    E.check('length', len(lst) == len(m))
    for i, want in enumerate(m):
        if want is None:
            E.check('empty_item', lst[i].empty)
        else:
            E.check('item_value', not lst[i].empty and
                    E.same(lst[i].value, want[0]))
            E.check('negative_index', lst[i - len(m)] is lst[i])
    E.check('iteration_gives_all_items_in_order',
            [id(x) for x in lst] == [id(lst[i]) for i in range(len(m))])
    E.check('items_are_distinct', len(set([id(x) for x in lst])) == len(m))
    E.check('index_out_of_range', E.is_a(
        E.outcome(lambda: lst[len(m)])[1], IndexError))
    ids = [id(x) for x in lst]
    E.check('index_far_out_of_range_and_slices', all(
        [E.outcome(lambda: lst[i])[0] == 'exc' for i in (
            -len(m) - 1, -2 * len(m) - 1, len(m) + 1, 10**20)] +
        [[id(x) for x in lst[k]] == ids[k] for k in SLICES] +
        [[id(x) for x in reversed(lst)] == ids[::-1]]))


def step(E, op, lst, m, kind, tag):
    """Apply one operation to the list and to the model."""
    if op == 'append':
        m.append([value(E, tag, kind)])
        lst.append(m[-1][0])
    elif op == 'append_empty':
        m.append(None)
        lst.append()
    elif op in ('replace0', 'replace2'):
        m[:] = [[value(E, '%s.%d' % (tag, i), kind)]
                for i in range(int(op[-1]))]
        lst.replace([x[0] for x in m])
    elif op == 'clear':
        m[:] = []
        lst.clear()
    elif m and op in ('set_first', 'set_last'):
        i = 0 if op == 'set_first' else len(m) - 1
        m[i] = [value(E, tag, kind)]
        lst[i].value = m[i][0]
    elif m and op in ('clear_first', 'clear_last'):
        i = 0 if op == 'clear_first' else -1
        m[i] = None
        lst[i].clear()


@case(grid={'backend': BACKENDS, 'kind': KINDS, 'op': OPS},
      grid_thorough={'op': [a + '+' + b for a in OPS for b in OPS]},
      bounds='histories: two appends, one fixed and two arbitrary operations '
             '(thorough: one more), out of 9; all values arbitrary')
def leaf_items(E, backend, kind, op):
    from dsch import schema
    s = new_storage(E, backend, schema.Compilation(
        {'l': schema.List(leaf_schema(kind))}))
    lst = s.data.l
    m = []
    compare(E, lst, m)
    ops = ['append', 'append_empty'] + op.split('+')
    some = OPS if kind == 'Scalar:int32' or E.thorough else [
        'append', 'clear', 'set_first']
    ops.append(E.choice('op0', some))
    ops.append(E.choice('op1', ['append', 'replace2']))
    for i, o in enumerate(ops):
        step(E, o, lst, m, kind, 'v%d' % i)
        compare(E, lst, m)
    close(s)


@case(grid={'backend': BACKENDS},
      bounds='lists of lists and of compilations; histories of 4 operations')
def nested_items(E, backend):
    from dsch import schema
    s = new_storage(E, backend, schema.List(schema.Compilation({
        'x': schema.Scalar('int32'), 'm': schema.List(schema.Bytes())})))
    lst = s.data
    model = []
    for i in range(4):
        op = E.choice('op%d' % i, ['append', 'append_empty', 'inner', 'clear'])
        if op == 'append':
            v = E.scalar('v%d' % i, 'int32')
            b = E.bytes('b%d' % i, 1, 1)
            lst.append({'x': v, 'm': [b]})
            model.append([[v], [b]])
        elif op == 'append_empty':
            lst.append()
            model.append([None, []])
        elif op == 'inner':
            if model:
                b = E.bytes('b%d' % i, 1, 1)
                lst[0].m.append(b)
                model[0][1].append(b)
        else:
            lst.clear()
            model = []
    E.check('outer_length', len(lst) == len(model))
    for i, (x, inner) in enumerate(model):
        E.check('inner_value', lst[i].x.empty if x is None else
                E.same(lst[i].x.value, x[0]))
        E.check('inner_length', len(lst[i].m) == len(inner))
        for j, b in enumerate(inner):
            E.check('inner_item', E.same(lst[i].m[j].value, b))
    close(s)


@case(grid={'backend': BACKENDS, 'kind': ['Scalar:int32', 'Bool']},
      bounds='replace() given lists, tuples and generators of 0..2 values')
def replace_iterables(E, backend, kind):
    from dsch import schema
    s = new_storage(E, backend, schema.List(leaf_schema(kind)))
    for i in range(E.choice('old', [0, 1, 3])):
        s.data.append(value(E, 'old%d' % i, kind))
    new = [value(E, 'new%d' % i, kind) for i in range(E.choice('n', [0, 1,
                                                                     2]))]
    how = E.choice('how', ['list', 'tuple', 'generator', 'assign'])
    if how == 'assign':
        s.data.replace(new)
    else:
        s.data.replace({'list': new, 'tuple': tuple(new),
                        'generator': (x for x in new)}[how])
    compare(E, s.data, [[v] for v in new])
    close(s)


@case(grid={'backend': BACKENDS, 'kind': ['Scalar:int32', 'Bool']},
      bounds='replace() given values that are read from the list itself')
def replace_from_itself(E, backend, kind):
    from dsch import schema
    s = new_storage(E, backend, schema.List(leaf_schema(kind)))
    lst = s.data
    m = [[value(E, 'v%d' % i, kind)] for i in range(E.choice('n', [1, 2, 3]))]
    for v in m:
        lst.append(v[0])
    how = E.choice('how', ['list', 'generator', 'tail', 'tree', 'map'])
    if how == 'list':
        lst.replace([x.value for x in lst])
    elif how == 'generator':
        lst.replace(x.value for x in lst)
    elif how == 'map':
        lst.replace(map(lambda x: x.value, lst))
    elif how == 'tail':
        lst.replace(x.value for x in lst[1:])
        m = m[1:]
    else:
        lst.replace(lst.data_tree())
    compare(E, lst, m)
    close(s)


@case(grid={'backend': BACKENDS, 'kind': ['Scalar:int32', 'Bool']},
      bounds='a list of 101 items, one of them changed, cleared or removed by '
             'replace(), at any of 6 places')
def long_lists(E, backend, kind):
    from dsch import schema
    s = new_storage(E, backend, schema.List(leaf_schema(kind)))
    lst = s.data
    some = [value(E, 'v%d' % i, kind) for i in range(3)]
    m = [[some[i % 3]] for i in range(COUNT['items'])]
    if E.flag('append'):
        for x in m:
            lst.append(x[0])
    else:
        lst.replace([x[0] for x in m])
    at = E.choice('at', PLACES['items'])
    op = E.choice('op', ['set', 'clear', 'replace'])
    if op == 'set':
        m[at] = [value(E, 'w', kind)]
        lst[at].value = m[at][0]
    elif op == 'clear':
        m[at] = None
        lst[at].clear()
    else:
        del m[at]
        lst.replace([x.value for i, x in enumerate(lst) if i != at])
    E.check('long_list_length', len(lst) == len(m))
    E.check('long_list_items', E.all([
        lst[i].empty if x is None else E.same(lst[i].value, x[0])
        for i, x in enumerate(m)]))
    E.check('long_list_iteration',
            [id(x) for x in lst] == [id(lst[i]) for i in range(len(m))])
    E.check('long_list_slices', [id(x) for x in lst[5:60]] ==
            [id(lst[i]) for i in range(5, 60)])
    E.check('long_list_negative_index', lst[-70] is lst[len(m) - 70])
    close(s)
