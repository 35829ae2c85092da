"""T23: the printed tree shows every node with its position and value."""
from sx.case import registry
from props.common import (COUNT, LARGE, PLACES, close, large_node,
                          large_schema, mixed, new_storage)

CASES, case = registry()
ASSUMPTIONS = ['values are from small ranges: the text of a value is that of '
               'str()']
BACKENDS = ['inmem', 'npz', 'hdf5', 'mat']


def label(kind, text):
    return '(%s): %s' % (kind, text)


@case(grid={'backend': BACKENDS},
      bounds='leaves of every type, empty or a value of a small range, with '
             'unit and array shape')
def leaves(E, backend):
    import datetime
    import numpy as np
    from dsch import schema
    n, m = E.choice('n', [0, 1, 3]), E.choice('m', [1, 2])
    full = E.choice('full', [True, False])
    i = E.int('i', -2, 2)
    b = E.flag('b')
    vals = {
        'String': (schema.String(), 'spam eggs'),
        'Bytes': (schema.Bytes(), b'spam'),
        'Bool': (schema.Bool(), b),
        'Scalar': (schema.Scalar('int32', unit=E.choice('unit', [
            '', 'V', 'm/s'])), np.int32(i)),
        'Array': (schema.Array('int8', ndim=2), np.zeros((n, m), 'int8')),
        'Date': (schema.Date(), datetime.date(2020, 1, 2)),
        'DateTime': (schema.DateTime(), datetime.datetime(2020, 1, 2, 3, 4)),
        'Time': (schema.Time(), datetime.time(1, 2, 3)),
    }
    kind = E.choice('kind', sorted(vals))
    node, v = vals[kind]
    s = new_storage(E, backend, node)
    if full:
        s.data.value = v
    if not full:
        text = '<empty>'
    elif kind == 'Scalar':
        text = '%s %s' % (v, node.unit)
    elif kind == 'Array':
        text = '%dx%d array' % (n, m)
    else:
        text = str(v)
    want = {label(kind, text): {}}
    E.check('leaf_label', s.data.node_tree() == want)
    E.check('leaf_text', repr(s.data) == label(kind, text))
    close(s)


@case(grid={'backend': BACKENDS},
      bounds='compilations (every other field optional) and lists of 0..3 '
             'items, two levels, with equal or different values of a small '
             'range')
def trees(E, backend):
    from dsch import schema
    leaf = schema.Scalar('int8', unit='V')
    k = BACKENDS.index(backend) % 2
    s = new_storage(E, backend, mixed({
        'l': schema.List(leaf), 'b': leaf,
        'm': schema.List(mixed({'y': schema.Bool(), 'x': schema.Bool()},
                               k)), 'a': leaf}, k))
    n = E.choice('n', [0, 1, 2, 3])

    def put(node, name):
        if not E.choice(name + '?', [True, False]):
            return '<empty>'
        v = E.int(name, 0, 1)
        node.value = v
        return '%d V' % (1 if v == 1 else 0)
    a, b = put(s.data.a, 'a'), put(s.data.b, 'b')
    items = {}
    for i in range(n):
        s.data.l.append()
        items['[%d] %s' % (i, label('Scalar', put(
            s.data.l[i], 'l%d' % i) if i < 2 else '<empty>'))] = {}
    comps = {}
    for i in range(2):
        s.data.m.append()
        comps['[%d] (Compilation)' % i] = {'y (Bool): <empty>': {},
                                           'x (Bool): <empty>': {}}
    if n == 1:
        s.data.m[1].y.value = True
        comps['[1] (Compilation)'] = {'y (Bool): True': {},
                                      'x (Bool): <empty>': {}}
    want = {'(Compilation)': {
        'l (List)': items, 'b ' + label('Scalar', b): {},
        'm (List)': comps, 'a ' + label('Scalar', a): {}}}
    got = s.data.node_tree()
    E.check('tree_shows_every_node', got == want)
    E.check('order_of_items_is_kept',
            list(got['(Compilation)']['l (List)']) == list(items) and
            list(got['(Compilation)']['m (List)']) == list(comps))
    text = repr(s.data).split('\n')

    def lines(tree):
        out = []
        for k in tree:
            out.append(k)
            out += lines(tree[k])
        return out
    flat = lines(got)
    E.check('text_has_a_line_per_node', len(text) == len(flat) and all(
        [x.endswith(y) for x, y in zip(text, flat)]))
    E.check('fields_in_the_order_of_the_schema', flat == lines(want))
    E.check('printing_changes_nothing', s.data.node_tree() == want and
            lines(s.data.node_tree()) == flat and
            repr(s.data).split('\n') == text)
    close(s)


@case(grid={'kind': ['String', 'Bytes', 'unit'], 'where': [
    'top', 'comp', 'list']},
      bounds='texts (or units) of 0..340 characters with one of 11 parts at '
             'the start, in the middle or at the end')
def texts(E, kind, where):
    from dsch import schema
    n = E.choice('n', [0, 20, 70, 100, 250, 340])
    if kind == 'Bytes':
        v = b'ab ' * (n // 3) + E.choice('v', [b'', b' ', b'\xff\0', b'x'])
        text, node, kind = str(v), schema.Bytes(), 'Bytes'
    else:
        x = E.choice('x', ['', ' ', 'x', '<empty>', ': ', '(', '\t', '%s',
                           '{}', '\U0001f600', '\xa0'])
        k = E.choice('k', [0, n // 2, n])
        text = 'a\xe4b c'[:5] * (k // 5) + x + 'd e' * ((n - k) // 3)
        if kind == 'unit':
            node, kind, v = schema.Scalar('int8', unit=text), 'Scalar', 7
            text = '7 ' + text
        else:
            node, v, kind = schema.String(), text, 'String'
    if where == 'top':
        s = new_storage(E, 'inmem', node)
        s.data.replace(v)
        want = {label(kind, text): {}}
    elif where == 'comp':
        s = new_storage(E, 'inmem', schema.Compilation({'a': node}))
        s.data.replace({'a': v})
        want = {'(Compilation)': {'a ' + label(kind, text): {}}}
    else:
        s = new_storage(E, 'inmem', schema.List(node))
        s.data.replace([v])
        want = {'(List)': {'[0] ' + label(kind, text): {}}}
    got = s.data.node_tree()
    E.check('tree_shows_the_whole_text', got == want)


NUMBERS = {
    'int8': [-128, 127], 'uint8': [255], 'int64': [-2**63, 10**15 + 1],
    'uint64': [2**64 - 1], 'int32': [1234567, 1000000, -5],
    'float64': [0.1, 0.30000000000000004, 1e300, -1e-300, 1234567.125, 0.0,
                -0.0, 1e16, 123456789.0, float('inf'), float('nan')],
    'float32': [1 / 3, 16777216.0, 1e-40], 'float16': [0.1, 65504],
    'complex128': [1 + 2j, -0.1j, 1e10 + 1e-10j], 'bool': [True, False]}


@case(grid={'backend': BACKENDS, 'dtype': sorted(NUMBERS)},
      bounds='scalars of ten data types with 1..11 special values and 4 '
             'units')
def numbers(E, backend, dtype):
    import numpy as np
    from dsch import schema
    unit = E.choice('unit', ['', 'm', 'm/s^2', '%'])
    v = np.dtype(dtype).type(E.choice('v', NUMBERS[dtype]))
    s = new_storage(E, backend, schema.Compilation({
        'a': schema.Scalar(dtype, unit=unit), 'l': schema.List(
            schema.Scalar(dtype, unit=unit))}))
    s.data.a.value = v
    s.data.l.append(v)
    # Numbers of low precision may be shown with more digits.
    texts = [label('Scalar', '%s %s' % (x, unit)) for x in (
        v, '{}'.format(v), v.item())]
    E.check('number_is_shown_exactly', s.data.node_tree() in [
        {'(Compilation)': {'a ' + x: {}, 'l (List)': {'[0] ' + y: {}}}}
        for x in texts for y in texts])
    close(s)


@case(grid={'backend': BACKENDS, 'ndim': [0, 1, 2, 3, 4]},
      bounds='arrays of up to four dimensions of 0..3 or 11 elements; dates '
             'and times with and without fractions')
def shapes_and_times(E, backend, ndim):
    import datetime
    import numpy as np
    from dsch import schema
    shape = tuple(E.choice('n%d' % i, [0, 1, 2] if i % 2 else [1, 3, 11])
                  for i in range(ndim))
    us = E.choice('us', [0, 5, 500000])
    vals = {'a': np.ones(shape, 'int16'),
            'd': datetime.date(1, 2, 3),
            't': datetime.time(0, 0, us // 10**5, us),
            'x': datetime.datetime(9999, 12, 31, 23, 59, 0, us)}
    s = new_storage(E, backend, schema.Compilation({
        'a': schema.Array('int16', ndim=ndim), 'd': schema.Date(),
        't': schema.Time(), 'x': schema.DateTime()}))
    s.data.replace(vals)
    E.check('shape_and_times_are_shown', s.data.node_tree() == {
        '(Compilation)': {
            'a (Array): %s array' % 'x'.join([str(n) for n in shape]): {},
            'd (Date): 0001-02-03': {},
            't (Time): %s' % vals['t']: {},
            'x (DateTime): %s' % vals['x']: {}}})
    close(s)


@case(grid={'kind': ['Scalar', 'Bool', 'Compilation']},
      bounds='lists of 9..13 equal or empty items')
def long_lists(E, kind):
    from dsch import schema
    node = {'Scalar': schema.Scalar('int8'), 'Bool': schema.Bool(),
            'Compilation': schema.Compilation({'x': schema.Bool()})}[kind]
    s = new_storage(E, 'inmem', schema.List(node))
    n = E.choice('n', [9, 10, 11, 13])
    full = E.choice('full', [True, False])
    v = E.int('v', 0, 3) if kind == 'Scalar' else True
    for i in range(n):
        s.data.append()
        if full and kind != 'Compilation':
            s.data[i].value = v
    if kind == 'Compilation':
        items = {'[%d] (Compilation)' % i: {'x (Bool): <empty>': {}}
                 for i in range(n)}
    else:
        text = '<empty>' if not full else 'True' if kind == 'Bool' else \
            '%d ' % v
        items = {'[%d] %s' % (i, label(kind, text)): {} for i in range(n)}
    got = s.data.node_tree()
    E.check('long_list_shows_every_item', got == {'(List)': items})
    E.check('long_list_in_order', list(got['(List)']) == list(items))
    text = repr(s.data).split('\n')
    E.check('long_list_has_a_line_per_item', len(text) == 1 + n * (
        2 if kind == 'Compilation' else 1))
    close(s)


@case(grid={'shape': LARGE},
      bounds='lists of 101 items, compilations of 40 fields, nesting of 11 '
             'levels; one leaf set at any of 5-6 places')
def large(E, shape):
    from dsch import schema
    s = new_storage(E, 'inmem', large_schema(
        shape, lambda i: schema.Scalar('int8', unit='V')))
    last = COUNT[shape] - 1
    large_node(s.data, shape, last, True)
    at = E.choice('at', PLACES[shape])
    v = E.int('v', 0, 3)
    large_node(s.data, shape, at)[0].value = v
    value = ['<empty>'] * (last + 1)
    value[at] = '%d V' % v
    if shape == 'items':
        want = {'(List)': {'[%d] %s' % (i, label('Scalar', x)): {}
                           for i, x in enumerate(value)}}
    elif shape == 'fields':
        want = {'(Compilation)': {'f%d %s' % (i, label('Scalar', x)): {}
                                  for i, x in enumerate(value)}}
    else:
        tree = {'x ' + label('Scalar', value[last]): {}}
        for i in reversed(range(last)):
            tree = {'x ' + label('Scalar', value[i]): {}, (
                'sub (List)' if i % 2 else 'a (Compilation)'):
                {'[0] (Compilation)': tree} if i % 2 else tree}
        want = {'(Compilation)': tree}
    E.check('large_tree_shows_every_node', s.data.node_tree() == want)

    def count(tree):
        return sum([1 + count(t) for t in tree.values()])
    E.check('large_text_has_a_line_per_node',
            len(repr(s.data).split('\n')) == count(want))
