"""F18: save() writes valid data only, unless forced."""
import numpy as np

from sx.case import registry
from props.common import (EXT, FLOATS, INTS, SIMPLE, close, leaf_schema,
                          leaf_value, new_storage)
from props.n12 import same_tree

CASES, case = registry()
ASSUMPTIONS = [
    'strings contain no NUL characters or surrogates; dates and times are '
    'naive',
    'HDF5 data is written as it is set, so that the content of HDF5 files '
    'after a refused save() is not checked']
FILES = ['npz', 'hdf5', 'mat']


def content(path):
    with open(path, 'rb') as f:
        return f.read()


def gate(E, s, valid, backend, change, tree, old_tree=None):
    """save() of the storage raises iff the data is not valid.

    change puts the data into the node, tree is the expected data then; valid
    says whether it is to be accepted.
    """
    import dsch
    from dsch import exceptions
    errors = (exceptions.ValidationError, exceptions.SubnodeValidationError)
    saved = E.choice('saved_before', [True, False])
    if saved:
        s.save()
    before = content(s.storage_path) if saved or backend == 'hdf5' else None
    change(s)
    vkind, verr = E.outcome(s.validate)
    skind, serr = E.outcome(s.save)
    E.check('save_fails_iff_validation_fails',
            E.all([E.iff(skind == 'ok', vkind == 'ok'),
                   E.iff(skind == 'ok', valid)]), serr)
    if skind == 'exc':
        E.check('refused_by_validation_error', isinstance(serr, errors) and
                type(serr) is type(verr), serr)
        import os
        if backend != 'hdf5':
            E.check('refused_save_writes_nothing',
                    (content(s.storage_path) == before) if saved else
                    not os.path.exists(s.storage_path))
        E.check('refused_save_keeps_the_data',
                same_tree(E, s.data.data_tree(True), tree))
        E.check('save_is_refused_again', E.outcome(s.save)[0] == 'exc')
        s.save(force=True)
        E.check('save_is_refused_after_a_forced_one',
                E.outcome(s.save)[0] == 'exc')
    path = E.snapshot(s.storage_path, 'copy' + EXT[backend])
    close(s)
    r = dsch.load(path, force=True)
    E.check('saved_data_is_in_the_file',
            same_tree(E, r.data.data_tree(True), tree))
    close(r)


@case(grid={'backend': FILES, 'kind': ['String', 'Bytes', 'int16', 'float64',
                                       'uint64', 'shape', 'ndim', 'range'],
            'where': ['top', 'comp', 'item', 'deep']},
      bounds='a leaf with arbitrary limits and value, anywhere in the tree; '
             'never saved or saved with valid data before')
def leaves(E, backend, kind, where):
    from dsch import schema
    if kind in ('String', 'Bytes'):
        lo, hi = E.int('lo', 0, 4), E.int('hi', 0, 4)
        leaf = getattr(schema, kind)(min_length=lo, max_length=hi)
        v = (E.str('v', 2, lo=1) if kind == 'String' else E.bytes('v', 2))
        valid = E.all([len(v) >= lo, len(v) <= hi])
    elif kind == 'shape':
        lo, hi = E.int('lo', 1, 4), E.int('hi', 1, 4)
        leaf = schema.Array('int8', min_shape=(lo,), max_shape=(hi,))
        n = E.choice('n', [1, 2, 3])
        v = E.array('v', 'int8', (n,))
        valid = E.all([lo <= n, n <= hi])
    elif kind == 'ndim':
        leaf = schema.Array('int8', ndim=E.choice('ndim', [1, 2, 3]),
                            max_shape=None)
        v = E.array('v', 'int8', E.choice('n', [(1,), (2, 1), (0, 1)]))
        valid = v.ndim == leaf.ndim
        if backend == 'mat':
            E.assume(valid)       # MATLAB arrays have two dimensions at least
    elif kind == 'range':
        lo, hi = E.int('lo', -99, 99), E.int('hi', -99, 99)
        leaf = schema.Array('int16', min_value=lo, max_value=hi)
        v = E.array('v', 'int16', (2,))
        valid = E.all([E.all([x >= lo, x <= hi]) for x in v.tolist()])
    else:
        if kind == 'float64':
            lo, hi = E.float('lo'), E.float('hi')
            E.assume(E.all([lo == lo, hi == hi, lo > float('-inf'),
                            hi < float('inf'), lo < float('inf'),
                            hi > float('-inf')]))
        else:
            lo, hi = E.int('lo', -2**64, 2**64), E.int('hi', -2**64, 2**64)
        leaf = schema.Scalar(kind, min_value=lo, max_value=hi)
        v = E.scalar('v', kind)
        if kind == 'float64':
            E.assume(v == v)
        valid = E.all([v.item() >= lo, v.item() <= hi])
    other = E.flag('other')
    if where == 'top':
        s = new_storage(E, backend, leaf)

        def change(s):
            s.data.value = v
        tree = v
    elif where == 'comp':
        s = new_storage(E, backend, schema.Compilation(
            {'a': leaf, 'b': schema.Bool()}))

        def change(s):
            s.data.a.value = v
            s.data.b.value = other
        tree = {'a': v, 'b': other}
    elif where == 'item':
        s = new_storage(E, backend, schema.List(leaf))

        def change(s):
            s.data.append()
            s.data.append(v)
        tree = [None, v]
    else:
        s = new_storage(E, backend, schema.Compilation({
            'z': schema.Bool(), 'l': schema.List(schema.Compilation(
                {'m': schema.List(leaf)}))}))

        def change(s):
            s.data.l.append()
            s.data.l.append()
            s.data.l[1].m.append(v)
            s.data.z.value = other
        tree = {'l': [{'m': []}, {'m': [v]}], 'z': other}
    gate(E, s, valid, backend, change, tree)


@case(grid={'backend': FILES, 'where': ['top', 'comp', 'nested']},
      bounds='lists of 0..3 items with arbitrary length limits')
def lists(E, backend, where):
    from dsch import schema
    lo, hi = E.int('lo', 0, 4), E.int('hi', 0, 4)
    E.assume(lo == 0)
    lst = schema.List(schema.Bool(), min_length=lo, max_length=hi)
    n = E.choice('n', [0, 1, 2, 3])
    vals = [E.flag('v%d' % i) for i in range(n)]
    if where == 'top':
        s = new_storage(E, backend, lst)

        def change(s):
            s.data.replace(vals)
        tree = vals
    elif where == 'comp':
        s = new_storage(E, backend, schema.Compilation(
            {'l': lst, 'b': schema.Bool()}))

        def change(s):
            s.data.l.replace(vals)
        tree = {'l': vals, 'b': None}
    else:
        s = new_storage(E, backend, schema.List(schema.List(
            schema.Compilation({'l': lst}))))

        def change(s):
            s.data.append()
            s.data[0].append()
            s.data[0][0].l.replace(vals)
        tree = [[{'l': vals}]]
    gate(E, s, n <= hi, backend, change, tree)


@case(grid={'backend': FILES, 'where': ['top', 'comp', 'item', 'deep'],
            'state': ['new', 'cleared', 'empty_items']},
      bounds='a list without any value, of 0..2 empty items, whose limits '
             'are arbitrary; storages that hold no data at all')
def no_values(E, backend, where, state):
    from dsch import schema
    lo, hi = E.int('lo', 0, 4), E.int('hi', 0, 4)
    n = E.choice('n', [1, 2]) if state == 'empty_items' else 0
    if n == 0 and where != 'item':
        E.assume(hi == 2)
    lst = schema.List(schema.Bool(), min_length=lo, max_length=hi)
    node, get, tree = {
        'top': lambda: (lst, lambda d: d, [None] * n),
        'comp': lambda: (schema.Compilation(
            {'b': schema.Bool(), 'l': lst}), lambda d: d.l,
            {'b': None, 'l': [None] * n}),
        'item': lambda: (schema.List(lst), lambda d: d[0], [[None] * n]),
        'deep': lambda: (schema.Compilation({'c': schema.Compilation(
            {'l': lst}, optionals=['l'])}), lambda d: d.c.l,
            {'c': {'l': [None] * n}})}[where]()
    s = new_storage(E, backend, node)

    def change(s):
        if where == 'item' and not len(s.data):
            s.data.append()
        x = get(s.data)
        if state == 'cleared':
            x.append(True)
            x.clear()
        for _ in range(n):
            x.append()
    # Storages with such data cannot be saved before.
    kind, err = E.outcome(s.validate)
    vkind = 'ok' if kind == 'ok' else 'exc'
    change(s)
    valid = E.all([lo <= n, n <= hi])
    kind, err = E.outcome(s.save)
    E.check('save_fails_iff_a_limit_is_broken', E.iff(kind == 'ok', valid),
            err)
    if where != 'item':
        E.check('new_storage_is_valid_iff_it_may_be_empty',
                E.iff(vkind == 'ok', lo <= 0))
    if kind == 'exc':
        from dsch import exceptions
        E.check('refused_by_validation', isinstance(err, (
            exceptions.ValidationError, exceptions.SubnodeValidationError)))
        import os
        if backend != 'hdf5':
            E.check('nothing_is_written', not os.path.exists(s.storage_path))
        s.save(force=True)
    import dsch
    path = E.snapshot(s.storage_path, 'copy' + EXT[backend])
    close(s)
    E.check('loading_fails_iff_a_limit_is_broken', E.iff(
        E.outcome(dsch.load, path)[0] == 'ok', valid))
    r = dsch.load(path, force=True)
    E.check('saved_structure_is_in_the_file',
            same_tree(E, r.data.data_tree(True), tree))
    close(r)


@case(grid={'backend': FILES},
      bounds='arrays linked to another one, 1..3 elements each')
def linked(E, backend):
    from dsch import schema
    s = new_storage(E, backend, schema.Compilation({
        't': schema.Array('float64'),
        'u': schema.Array('int8', depends_on='t')}))
    n, m = E.choice('n', [1, 2, 3]), E.choice('m', [1, 2, 3])
    t, u = E.array('t', 'float64', (n,)), E.array('u', 'int8', (m,))

    def change(s):
        s.data.t.value = t
        s.data.u.value = u
    gate(E, s, n == m, backend, change, {'t': t, 'u': u})


@case(grid={'backend': FILES, 'kind': SIMPLE + ['Scalar:int8',
                                                'Array:float32:1']},
      bounds='valid data of every type; save() and save(force=True) after '
             'each change write the current data')
def valid_data(E, backend, kind):
    import dsch
    from dsch import schema
    leaf = leaf_schema(kind)
    s = new_storage(E, backend, schema.Compilation(
        {'a': leaf, 'l': schema.List(leaf)}))
    for i in range(2):
        v = leaf_value(E, 'v%d' % i, kind, 1)
        s.data.a.value = v
        s.data.l.append(v)
        force = E.choice('force%d' % i, [True, False])
        r, err = E.outcome(s.save, force)
        E.check('valid_data_is_saved', r == 'ok', err)
        path = E.snapshot(s.storage_path, 'copy%d%s' % (i, EXT[backend]))
        t = dsch.load(path)
        E.check('valid_data_is_in_the_file', E.same(t.data.a.value, v) and
                E.same(t.data.l[i].value, v) and len(t.data.l) == i + 1)
        close(t)
    close(s)


@case(grid={'backend': FILES, 'what': ['value', 'invalid_value', 'clear',
                                       'list', 'other_field']},
      bounds='valid data saved once, then one change that is not saved (or '
             'whose saving is refused) before the file is read')
def unsaved_changes(E, backend, what):
    import dsch
    from dsch import schema
    s = new_storage(E, backend, schema.Compilation({
        'a': schema.Scalar('int16', max_value=99), 'b': schema.Bool(),
        'l': schema.List(schema.Bool())}))
    v, w = E.scalar('v', 'int16'), E.scalar('w', 'int16')
    E.assume(v.item() <= 99)
    E.assume(E.iff(w.item() <= 99, what != 'invalid_value'))
    E.assume(E.no(v.item() == w.item()))
    flag = E.flag('flag')
    s.data.a.value = v
    s.data.l.append(flag)
    s.save()
    if what == 'clear':
        s.data.clear()
    elif what == 'list':
        s.data.l.append(flag)
    elif what == 'other_field':
        s.data.b.value = flag
    else:
        s.data.a.value = w
    if what == 'invalid_value' and E.choice('try', [True, False]):
        kind, err = E.outcome(s.save)
        E.check('invalid_data_is_refused', kind == 'exc', err)
    path = E.snapshot(s.storage_path, 'copy' + EXT[backend])
    if backend == 'hdf5':
        # What is left when the process ends without saving.
        close(s)
        path = E.snapshot(s.storage_path, 'copy2' + EXT[backend])
    r = dsch.load(path, force=True)
    E.check('unsaved_changes_do_not_reach_the_file',
            same_tree(E, r.data.data_tree(True),
                      {'a': v, 'b': None, 'l': [flag]}))
    close(r)


@case(grid={'backend': FILES, 'where': ['top', 'comp', 'item'],
            'how': ['element', 'slice', 'resize', 'linked', 'equal_shape']},
      bounds='an array of 2 elements, changed in place: an element or a '
             'slice, the length, or that of its variable; arbitrary limits')
def arrays_in_place(E, backend, where, how):
    from dsch import schema
    lo, hi = E.int('lo', -99, 99), E.int('hi', -99, 99)
    if how == 'linked' and where == 'top':
        return
    leaf = schema.Array('int16', min_value=lo, max_value=hi, max_shape=(3,),
                        depends_on='t' if how == 'linked' else None)
    fields = {'a': leaf, 't': schema.Array('int8', max_shape=(9,))}
    comp = schema.Compilation(fields)
    s = new_storage(E, backend, {'top': leaf, 'comp': comp,
                                 'item': schema.List(comp)}[where])
    v, w = E.array('v', 'int16', (2,)), E.scalar('w', 'int16')
    t = E.array('t', 'int8', (2,))
    E.assume(E.all([E.all([lo <= x, x <= hi]) for x in v.tolist()]))
    if where == 'item':
        s.data.append()
    node = {'top': lambda: s.data, 'comp': lambda: s.data.a,
            'item': lambda: s.data[0].a}[where]()
    node.value = v.copy()
    if where != 'top':
        (s.data if where == 'comp' else s.data[0]).t.value = t.copy()
    if how in ('element', 'slice', 'equal_shape'):
        size, want = 2, [v[0], w]
    else:
        size = E.choice('size', [1, 3])
        want = [v[0], v[1], np.int16(0)][:size]
    data = v.copy() if size == 2 else np.zeros(size, 'int16')
    if how == 'linked':
        size, data, t = 2, v, np.zeros(size, 'int8')
        t[:] = 1
        want = [v[0], v[1]]
    else:
        for i, x in enumerate(want):
            data[i] = x

    def change(s):
        if how == 'element':
            node[1] = w
        elif how == 'slice':
            node[1:] = w
        elif how == 'equal_shape':
            node.value = data.copy()
        elif how == 'linked':
            node.parent.t.value = t.copy()
        else:
            node.resize((size,))
    tree = data if where == 'top' else {'a': data, 't': t}
    gate(E, s, E.all([E.all([lo <= x, x <= hi]) for x in data.tolist()] +
                     [how != 'linked' or t.shape[0] == 2]),
         backend, change, [tree] if where == 'item' else tree)


@case(grid={'backend': ['npz', 'mat']},
      bounds='a save that fails as the folder is missing, of valid or forced '
             'invalid data, then another one with arbitrary new data')
def failed_save(E, backend):
    import os
    import dsch
    from dsch import schema
    hi = E.int('hi', -99, 99)
    path = E.path('folder/data' + EXT[backend])
    s = dsch.create(path, schema.Compilation({
        'a': schema.Scalar('int16', max_value=hi), 'b': schema.Bool()}))
    v, w = E.scalar('v', 'int16'), E.scalar('w', 'int16')
    s.data.a.value = v
    force = E.choice('force', [False, True])
    kind, err = E.outcome(s.save, force)
    E.check('save_fails', kind == 'exc')
    E.check('error_is_that_of_the_system', E.iff(
        isinstance(err, OSError), E.any([force, v.item() <= hi])), err)
    E.check('data_is_kept', same_tree(
        E, s.data.data_tree(True), {'a': v, 'b': None}))
    os.mkdir(os.path.dirname(path))
    if E.choice('change', [True, False]):
        s.data.a.value = v = w
    kind, err = E.outcome(s.save)
    E.check('later_save_fails_iff_invalid',
            E.iff(kind == 'ok', v.item() <= hi), err)
    if kind == 'exc':
        E.check('nothing_was_written', os.listdir(os.path.dirname(path)) == [])
        s.save(force=True)
    r = dsch.load(path, force=True)
    E.check('current_data_is_in_the_file', same_tree(
        E, r.data.data_tree(True), {'a': v, 'b': None}))
    close(r)
    close(s)
