"""X27: a refused value changes nothing."""
from sx.case import registry
from props.common import EXT, close, leaf_schema, leaf_value, new_storage
from props.n12 import same_tree

CASES, case = registry()
ASSUMPTIONS = ['which values are refused is up to the backend; accepted ones '
               'are not subject of this property', 'the old and the new good '
               'values are valid for their schema node']
BACKENDS = ['inmem', 'npz', 'hdf5', 'mat']
KINDS = ['String', 'Bytes', 'Bool', 'Date', 'DateTime', 'Time',
         'Scalar:int16', 'Scalar:float64', 'Array:int16:1', 'Array:float32:2']


def refused(E, name, kind):
    """A value that some backends refuse for this kind of node."""
    k = kind.split(':')[0]
    how = E.choice(name + '?', {
        'String': ['any', 'none', 'five', 'list'],
        'Bytes': ['umlaut', 'object', 'ragged'],
        'Bool': ['list', 'ragged'],
        'Date': ['any', 'number', 'none', 'time'],
        'DateTime': ['any', 'number', 'none', 'date', 'time'],
        'Time': ['any', 'number', 'none', 'date']}.get(
            k, ['word', 'object', 'list', 'words', 'ragged', 'dict']))
    if how == 'any':
        return E.str(name, 2, surrogates=True)
    if how == 'number':
        return E.scalar(name, 'int16')
    if how == 'date':
        return E.date(name)
    if how == 'time':
        return E.time(name)
    if how == 'list':
        return [True, False] if k == 'Bool' else [1, 'a']
    if how == 'words':
        import numpy as np
        return np.array(['x', 'yz'])
    return {'none': None, 'five': 5, 'umlaut': 'a\xe4', 'object': object(),
            'ragged': [[1, 2], [3]], 'word': 'foo', 'dict': {'x': 1}}[how]


def value(E, name, kind, nmin=0):
    shapes = {'Array:int16:1': [(2,), (0,)], 'Array:float32:2': [(1, 2)]}
    return leaf_value(E, name, kind, 1, shapes.get(kind), nmin=nmin)


def put(node, value, how):
    if how == 'assign':
        node.value = value
    else:
        node.replace(value)


def reload(E, s, backend, n):
    if backend == 'inmem':
        return s
    import dsch
    s.save(force=True)
    path = E.snapshot(s.storage_path, 'copy%d%s' % (n, EXT[backend]))
    close(s)
    return dsch.load(path, force=True)


def holds(E, node, old):
    if old is None:
        return E.all([node.empty, not node.complete,
                      node.data_tree() is None])
    if node.empty:
        return False
    return E.all([node.complete, E.same(node.value, old[0]),
                  same_tree(E, node.data_tree(), old[0])])


@case(grid={'backend': BACKENDS, 'kind': KINDS,
            'start': ['empty', 'set', 'cleared', 'loaded']},
      bounds='a field that is empty, set to an arbitrary value, cleared or '
             'loaded, given one or two values of other kinds (texts of up to '
             'two characters with NUL and surrogates, numbers, dates, lists, '
             'objects); afterwards a good value, saving and loading')
def fields(E, backend, kind, start):
    from dsch import schema
    leaf = leaf_schema(kind)
    s = new_storage(E, backend, schema.Compilation({'a': leaf, 'b': leaf}))
    other = value(E, 'other', kind, 1)
    s.data.b.value = other
    old = None
    if start != 'empty':
        old = [value(E, 'old', kind)]
        s.data.a.value = old[0]
    if start == 'cleared':
        old = None
        s.data.a.clear()
    if start == 'loaded':
        s = reload(E, s, backend, 0)
    how = E.choice('how', ['assign', 'replace'])
    bad = refused(E, 'bad', kind)
    for i in range(2):
        if E.outcome(put, s.data.a, bad, how)[0] == 'ok':
            close(s)
            E.done()
        E.check('node_keeps_its_state', holds(E, s.data.a, old), (kind, i))
        E.check('other_node_keeps_its_value', holds(E, s.data.b, [other]))
    if E.choice('then', ['reload', 'good']) == 'good':
        new = value(E, 'new', kind, 1)
        E.check('good_value_is_accepted_afterwards',
                E.outcome(put, s.data.a, new, how)[0] == 'ok')
        old = [new]
        E.check('good_value_is_kept', holds(E, s.data.a, old))
    s = reload(E, s, backend, 1)
    E.check('loaded_node_has_the_state', holds(E, s.data.a, old))
    E.check('other_loaded_node_has_its_value', holds(E, s.data.b, [other]))
    close(s)


@case(grid={'backend': BACKENDS, 'kind': ['String', 'Date', 'Scalar:int16',
                                          'Bytes', 'Array:int16:1']},
      bounds='the same for a node at the top of the storage')
def top_level(E, backend, kind):
    s = new_storage(E, backend, leaf_schema(kind))
    old = None
    if E.choice('set', [True, False]):
        old = [value(E, 'old', kind)]
        s.data.value = old[0]
    bad = refused(E, 'bad', kind)
    if E.outcome(put, s.data, bad, 'assign')[0] == 'ok':
        close(s)
        E.done()
    E.check('top_node_keeps_its_state', holds(E, s.data, old))
    if old is None:
        old = [value(E, 'new', kind)]
        s.data.value = old[0]
    s = reload(E, s, backend, 0)
    E.check('loaded_top_node_has_the_state', holds(E, s.data, old))
    close(s)


def items(E, backend, kind):
    """Item schema, function for good values, function for refused ones."""
    from dsch import schema
    if kind == 'comp':
        node = schema.Compilation({
            'a': schema.Scalar('int16'), 'd': schema.Date(),
            'z': schema.String()})

        def good(n):
            return {'a': E.scalar(n + 'a', 'int16'), 'd': E.date(n + 'd'),
                    'z': E.str(n + 'z', 1, 1, lo=1)}

        def bad(n):
            r = good(n)
            f = E.choice(n + 'f', ['d', 'a', 'unknown', 'all'])
            if f == 'd':
                r['d'] = E.scalar(n + 'x', 'int16')
            elif f == 'a':
                r['a'] = 'foo'
            elif f == 'unknown':
                r['unknown'] = 1
            else:
                r = 5
            return r
    elif kind == 'list':
        node = schema.List(schema.Time())

        def good(n):
            return [E.time(n)]

        def bad(n):
            return E.choice(n + '?', [[E.time(n + 't'), 'x'], ['x'], 5])
    else:
        node = leaf_schema(kind)

        def good(n):
            return value(E, n, kind, 1)

        def bad(n):
            return refused(E, n, kind)
    return node, good, bad


def list_is(E, lst, want):
    return len(lst) == len(want) and same_tree(E, lst.data_tree(True), want)


@case(grid={'backend': BACKENDS,
            'kind': ['String', 'Date', 'Scalar:int16', 'comp', 'list']},
      bounds='appending to a list of 0..2 arbitrary items (loaded or not) a '
             'value that is refused at once or half-way, then a good one')
def appending(E, backend, kind):
    from dsch import schema
    node, good, bad = items(E, backend, kind)
    s = new_storage(E, backend, schema.Compilation({'l': schema.List(node)}))
    want = [good('old%d' % i) for i in range(E.choice('n', [0, 1, 2]))]
    for v in want:
        s.data.l.append(v)
    if E.choice('loaded', [False, True]):
        s = reload(E, s, backend, 0)
    x = bad('bad')
    if x is None or E.outcome(s.data.l.append, x)[0] == 'ok':
        close(s)
        E.done()
    E.check('list_is_unchanged', list_is(E, s.data.l, want))
    E.check('flags_are_unchanged', s.data.l.complete and
            s.data.l.empty == (not want))
    if E.choice('again', [False, True]):
        v = good('new')
        E.check('good_item_is_accepted_afterwards',
                E.outcome(s.data.l.append, v)[0] == 'ok')
        want.append(v)
        E.check('good_item_is_appended', list_is(E, s.data.l, want))
    s = reload(E, s, backend, 1)
    E.check('loaded_list_is_the_same', list_is(E, s.data.l, want))
    close(s)


@case(grid={'backend': BACKENDS, 'kind': ['String', 'Date', 'comp', 'list']},
      bounds='replacing a list of 0..2 items by three of which one is '
             'refused: the list holds those before it')
def replacing_lists(E, backend, kind):
    from dsch import schema
    node, good, bad = items(E, backend, kind)
    s = new_storage(E, backend, schema.Compilation({'l': schema.List(node)}))
    for i in range(E.choice('n', [0, 2])):
        s.data.l.append(good('old%d' % i))
    k = E.choice('k', [0, 1, 2])
    new = [good('new%d' % i) for i in range(3)]
    x = bad('bad')
    if x is None:
        E.done()
    if E.outcome(s.data.l.replace, new[:k] + [x] + new[k + 1:])[0] == 'ok':
        close(s)
        E.done()
    E.check('items_before_the_refused_one', list_is(E, s.data.l, new[:k]))
    s.data.l.append(new[2])
    E.check('list_can_be_extended', list_is(E, s.data.l, new[:k] + [new[2]]))
    s = reload(E, s, backend, 0)
    E.check('loaded_list_agrees', list_is(E, s.data.l, new[:k] + [new[2]]))
    close(s)


@case(grid={'backend': BACKENDS, 'kind': ['String', 'Scalar:int16', 'comp',
                                          'list']},
      bounds='replacing a list of 0..2 items by something that is no '
             'sequence, or whose iteration fails: nothing changes')
def no_lists(E, backend, kind):
    from dsch import schema
    node, good, bad = items(E, backend, kind)
    s = new_storage(E, backend, schema.Compilation({'l': schema.List(node)}))
    want = [good('old%d' % i) for i in range(E.choice('n', [0, 1, 2]))]
    for v in want:
        s.data.l.append(v)
    x = E.choice('what', ['number', 'none', 'object', 'function', 'failing'])
    new = good('new')

    def failing():
        yield new
        raise RuntimeError('failed')
    kind, err = E.outcome(s.data.l.replace, {
        'number': lambda: 5, 'none': lambda: None,
        'object': object, 'function': lambda: len, 'failing': failing}[x]())
    if kind == 'ok':
        close(s)
        E.done()
    E.check('list_is_not_replaced', list_is(E, s.data.l, want), x)
    s = reload(E, s, backend, 0)
    E.check('loaded_list_is_not_replaced', list_is(E, s.data.l, want), x)
    close(s)


@case(grid={'backend': BACKENDS},
      bounds='setting three fields of a compilation at once, any of them '
             'refused: that one keeps its value, the others hold the old or '
             'the new one')
def replacing_compilations(E, backend):
    from dsch import schema
    s = new_storage(E, backend, schema.Compilation({
        'a': schema.Scalar('int16'), 'd': schema.DateTime(),
        'z': schema.Time()}))
    old = {'a': E.scalar('olda', 'int16'), 'd': E.datetime('oldd'),
           'z': E.time('oldz')}
    if E.choice('set', [True, False]):
        s.data.replace(old)
    else:
        old = {}
    new = {'a': E.scalar('newa', 'int16'), 'd': E.datetime('newd'),
           'z': E.time('newz')}
    f = E.choice('field', ['a', 'd', 'z', 'unknown'])
    new[f] = E.choice('bad', ['foo', [1, 'x']])
    order = E.choice('order', [['a', 'd', 'z'], ['z', 'd', 'a']])
    if E.outcome(s.data.replace, {k: new[k] for k in order + [
            x for x in new if x not in order]})[0] == 'ok':
        close(s)
        E.done()
    for k in order:
        was = holds(E, getattr(s.data, k), [old[k]] if old else None)
        E.check('field_is_old_or_new', was if k == f else E.any(
            [was, holds(E, getattr(s.data, k), [new[k]])]), k)
    close(s)


@case(grid={'backend': BACKENDS},
      bounds='an array of 2 arbitrary elements; element access out of range, '
             'with words or with too many values; resizing to words')
def elements(E, backend):
    from dsch import schema
    s = new_storage(E, backend, schema.Compilation({
        'a': schema.Array('int16', max_shape=(3,))}))
    old = E.array('old', 'int16', (2,))
    s.data.a.value = old.copy()
    how = E.choice('how', ['range', 'negative', 'word', 'many', 'axis',
                           'size'])
    x = E.scalar('x', 'int16')

    def change():
        if how == 'range':
            s.data.a[E.int('i', 2, 4)] = x
        elif how == 'negative':
            s.data.a[E.int('i', -5, -3)] = x
        elif how == 'word':
            s.data.a[0] = 'foo'
        elif how == 'many':
            s.data.a[0:2] = E.array('y', 'int16', (3,))
        elif how == 'axis':
            s.data.a[0, 0] = x
        else:
            s.data.a.resize('foo')
    if E.outcome(change)[0] == 'ok':
        close(s)
        E.done()
    E.check('array_is_unchanged', holds(E, s.data.a, [old]))
    s = reload(E, s, backend, 0)
    E.check('loaded_array_is_unchanged', holds(E, s.data.a, [old]))
    close(s)


@case(grid={'backend': BACKENDS},
      bounds='copying any text of up to two characters (with NUL and '
             'surrogates) into a node that may refuse it')
def copying(E, backend):
    from dsch import schema
    node = schema.Compilation({'s': schema.String()})
    source = new_storage(E, 'inmem', node)
    s = new_storage(E, backend, node)
    text = E.str('text', 2, surrogates=True)
    source.data.s.value = text
    old = None
    if E.choice('set', [True, False]):
        old = [E.str('old', 1, lo=1)]
        s.data.s.value = old[0]
    if E.outcome(s.data.s.load_from, source.data.s)[0] == 'ok':
        close(s)
        E.done()
    E.check('target_keeps_its_state', holds(E, s.data.s, old))
    E.check('source_keeps_its_value', E.same(source.data.s.value, text))
    close(s)
