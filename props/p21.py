"""P21: PseudoStorage handles paths and data nodes alike."""
import os

from sx.case import registry
from props.common import EXT, close, new_storage
from props.n12 import same_tree
from props.s07 import configs_equal, one

CASES, case = registry()
ASSUMPTIONS = ['SHA-256 is collision free']
FILES = ['npz', 'hdf5', 'mat']
BACKENDS = ['inmem'] + FILES


def content(path):
    with open(path, 'rb') as f:
        return f.read()


def small(E, p=''):
    from dsch import schema
    return schema.Compilation({
        'a': schema.Scalar('int32', max_value=E.int(p + 'max', -2**31, 2**31)),
        'l': schema.List(schema.String())})


def snapshot_tree(E, path, name, backend):
    import dsch
    r = dsch.load(E.snapshot(path, name + EXT[backend]), force=True)
    t = r.data.data_tree(True)
    close(r)
    return t


def release(ps, s):
    if s is not None:
        close(s)


@case(grid={'backend': FILES},
      bounds='no file at the path; opened at once, by open() or by with; '
             'arbitrary data set; closed by close() or with, also by an '
             'exception; then opened again')
def new_file(E, backend):
    import dsch
    node = small(E)
    path = E.path('x' + EXT[backend])
    v = E.scalar('v', 'int32')
    E.assume(v.item() <= node.subnodes['a'].max_value)
    defer = E.choice('defer', [True, False])
    ps = dsch.PseudoStorage(path, node, defer_open=defer)
    if defer:
        E.check('deferred_is_closed', ps.data is None and ps.storage is None
                and ps.schema_node is None and not os.path.exists(path))
    how = E.choice('how', ['open_close', 'with', 'with_exception'])
    want = {'a': v, 'l': ['x']}

    def use(p):
        E.check('storage_is_available', p.storage is not None and
                p.storage.storage_path == path)
        E.check('new_storage_is_empty', p.data.empty)
        E.check('data_is_that_of_the_storage', p.data is p.storage.data)
        E.check('new_storage_has_the_schema', p.schema_node == node and
                p.storage.schema_node == node)
        p.data.a.value = v
        p.data.l.append('x')
        return p.storage
    if how == 'open_close':
        if defer:
            ps.open()
        s = use(ps)
        ps.close()
    elif how == 'with':
        with ps as p:
            E.check('with_gives_the_object', p is ps)
            s = use(p)
    else:
        from dsch import exceptions
        exc = E.choice('exception', [
            ZeroDivisionError, KeyboardInterrupt, SystemExit, StopIteration,
            GeneratorExit, FileNotFoundError, exceptions.NodeEmptyError])
        try:
            with ps as p:
                s = use(p)
                raise exc()
        except exc:
            err = True
        else:
            err = False
        E.check('exceptions_pass_through', err)
    E.check('closed_has_no_data', ps.data is None and ps.storage is None and
            ps.schema_node is None)
    E.check('closing_saves_the_data', same_tree(
        E, snapshot_tree(E, path, 'first', backend), want))
    close(s)
    w = E.scalar('w', 'int32')
    E.assume(w.item() <= node.subnodes['a'].max_value)
    with ps as p:
        E.check('opening_again_loads_the_data',
                same_tree(E, p.data.data_tree(True), want))
        p.data.a.value = w
        s = p.storage
    E.check('changes_are_saved_again', same_tree(
        E, snapshot_tree(E, path, 'second', backend), {'a': w, 'l': ['x']}))
    close(s)


@case(grid={'backend': FILES, 'kind': ['String', 'Date', 'ScalarInt',
                                       'ArrayRange']},
      bounds='an existing file; its schema and the wanted one are arbitrary '
             'configurations of a leaf type; a third one is the alternative, '
             'as a schema or hash')
def existing_file(E, backend, kind):
    import dsch
    from dsch import exceptions
    a, b = one(E, kind, 'a.'), one(E, kind, 'b.')
    if kind == 'ArrayRange':
        E.assume(a.ndim == 1)
    s = new_storage(E, backend, a)
    s.data.clear()
    s.save()
    path = s.storage_path
    close(s)
    before = content(path)
    alt = E.choice('alternatives', ['none', 'empty', 'schema', 'hash',
                                    'second', 'other'])
    if alt in ('schema', 'hash', 'second'):
        c = E.choice('alternative', [True, False]) and a or \
            one(E, 'String', 'c.')
        same_alt = c is a or (kind == 'String' and configs_equal(E, a, c))
        alts = {'schema': [c], 'hash': [c.hash()],
                'second': ['0' * 64, b, c.hash()]}[alt]
    else:
        alts = {'none': None, 'empty': [], 'other': ['x', b]}[alt]
        same_alt = False
    allowed = E.any([configs_equal(E, a, b), same_alt])
    ps = dsch.PseudoStorage(path, b, defer_open=True,
                            schema_alternatives=alts)
    k, err = E.outcome(ps.open)
    E.check('opened_iff_schema_is_supported', E.iff(k == 'ok', allowed), err)
    if k == 'ok':
        E.check('schema_node_is_the_actual_one', ps.schema_node == a and
                ps.data is ps.storage.data)
        s = ps.storage
        ps.close()
        close(s)
        if E.choice('again', [False, True]):
            # The schema of a new file is always the first one.
            os.remove(path)
            ps.open()
            E.check('new_file_has_the_first_schema', ps.schema_node == b and
                    ps.storage.schema_node == b)
            close(ps.storage)
    else:
        E.check('mismatch_is_invalid_schema_error',
                isinstance(err, exceptions.InvalidSchemaError), err)
        E.check('refused_has_no_data', ps.data is None and
                ps.storage is None and ps.schema_node is None)
        if backend != 'hdf5':     # HDF5 marks opened files
            E.check('refused_keeps_the_file', content(path) == before)


@case(grid={'backend': BACKENDS, 'part': ['all', 'leaf', 'item', 'list']},
      bounds='a data node of any storage, of an arbitrary schema, as a '
             'whole, a field, item or list')
def data_nodes(E, backend, part):
    import dsch
    from dsch import exceptions, schema
    v, w = E.scalar('v', 'int32'), E.scalar('w', 'int32')
    inner = small(E, 'a.')
    outer = schema.Compilation({'c': inner, 'm': schema.List(inner)})
    s = new_storage(E, backend, outer)
    s.data.c.a.value = v
    s.data.m.append()
    s.data.m[0].a.value = v
    node = {'all': s.data, 'leaf': s.data.c.a, 'item': s.data.m[0],
            'list': s.data.m}[part]
    other = small(E, 'b.')
    want = {'all': schema.Compilation({'c': other, 'm': schema.List(other)}),
            'leaf': other.subnodes['a'], 'item': other,
            'list': schema.List(other)}[part]
    same = inner.subnodes['a'].max_value == other.subnodes['a'].max_value
    exists = os.path.exists(s.storage_path)
    alt = E.choice('alternatives', [None, [], ['x'], [node.schema_node],
                                    [node.schema_node.hash()]])
    defer = E.choice('defer', [True, False])
    if defer:
        ps = dsch.PseudoStorage(node, want, defer_open=True,
                                schema_alternatives=alt)
        E.check('deferred_node_is_closed', ps.data is None)
        k, err = E.outcome(ps.open)
    else:
        k, err = E.outcome(dsch.PseudoStorage, node, want,
                           schema_alternatives=alt)
        ps = err
    E.check('node_opened_iff_schema_is_supported', E.iff(
        k == 'ok', E.any([same, alt is not None and len(alt) > 0 and
                          alt != ['x']])), err)
    if k == 'exc':
        E.check('node_mismatch_is_invalid_schema_error',
                isinstance(err, exceptions.InvalidSchemaError), err)
        if defer:
            E.check('refused_node_is_no_data', ps.data is None and
                    ps.storage is None and ps.schema_node is None)
        close(s)
        return
    E.check('data_is_the_node', ps.data is node and ps.storage is None and
            ps.schema_node == node.schema_node)
    target = {'all': lambda d: d.c.a, 'leaf': lambda d: d,
              'item': lambda d: d.a, 'list': lambda d: d[0].a}[part]
    target(ps.data).value = w
    E.check('node_is_changed_in_place', E.same(target(node).value, w))
    ps.close()
    E.check('closed_node_has_no_data', ps.data is None and
            ps.storage is None and ps.schema_node is None)
    E.check('closing_keeps_the_data', E.same(target(node).value, w))
    if backend != 'hdf5':
        E.check('closing_a_node_saves_nothing',
                os.path.exists(s.storage_path) == exists)
    with ps as p:
        E.check('node_can_be_opened_again', p.data is node)
    close(s)


@case(grid={'backend': BACKENDS, 'kind': ['list', 'none', 'text', 'array']},
      bounds='a list, compilation without fields, text or array on the top '
             'level, given as a path or node, without or with an arbitrary '
             'value; opened before or by with')
def top_level(E, backend, kind):
    import dsch
    from dsch import schema
    node, v, w = {
        'list': lambda: (schema.List(schema.Scalar('int32')),
                         [E.scalar('v', 'int32')], [E.scalar('w', 'int32')]),
        'none': lambda: (schema.Compilation({}), {}, {}),
        'text': lambda: (schema.String(), E.choice('text', ['', 'x']),
                         E.str('w', 1, lo=1)),
        'array': lambda: (schema.Array('int16'), E.array(
            'v', 'int16', E.choice('n', [(0,), (1,), (2,)])),
            E.array('w', 'int16', (2,)))}[kind]()
    s = new_storage(E, backend, node)
    full = E.choice('full', [True, False])
    if full:
        s.data.replace(v)
    empty = {'list': [], 'none': {}}.get(kind)
    target = s.data
    if backend != 'inmem' and E.choice('path', [True, False]):
        s.save()
        close(s)
        target = s.storage_path
    ps = dsch.PseudoStorage(target, node, E.choice('defer', [True, False]))
    data = ps.data
    with ps as p:
        s = p.storage or s
        E.check('data_stays_the_same', p is ps and (
            data is None or p.data is data))
        E.check('top_level_data_is_found', same_tree(
            E, p.data.data_tree(True), v if full else empty))
        p.data.replace(w)
    E.check('top_level_is_closed', ps.data is None)
    if target is s.data:
        E.check('top_level_node_is_changed',
                same_tree(E, target.data_tree(True), w))
    else:
        E.check('top_level_change_is_saved', same_tree(
            E, snapshot_tree(E, s.storage_path, 'first', backend), w))
    close(s)


@case(grid={'what': ['node', 'inmem'] + FILES},
      bounds='open() of an open object, close() of a closed one')
def states(E, what):
    import dsch
    from dsch import schema
    node = schema.Compilation({'a': schema.Scalar('int32')})
    v = E.scalar('v', 'int32')
    if what == 'node':
        s = new_storage(E, 'inmem', node)
        ps = dsch.PseudoStorage(s.data, node)
    elif what == 'inmem':
        ps = dsch.PseudoStorage('::inmem::', node)
    else:
        ps = dsch.PseudoStorage(E.path('x' + EXT[what]), node)
    ps.data.a.value = v
    data, storage = ps.data, ps.storage
    k, err = E.outcome(ps.open)
    E.check('open_of_open_is_refused', k == 'exc' and
            isinstance(err, RuntimeError), err)
    E.check('refused_open_keeps_the_data', ps.data is data and
            ps.storage is storage and E.same(ps.data.a.value, v))
    with ps as p:
        E.check('with_uses_the_open_data', p.data is data and
                E.same(p.data.a.value, v))
    E.check('with_closes', ps.data is None and ps.storage is None)
    E.check('close_of_closed_does_nothing',
            E.outcome(ps.close)[0] == 'ok' and ps.data is None)
    release(ps, storage)


@case(grid={'backend': FILES},
      bounds='data outside arbitrary limits is never saved by closing')
def invalid_data(E, backend):
    import dsch
    from dsch import exceptions
    node = small(E)
    v, w = E.scalar('v', 'int32'), E.scalar('w', 'int32')
    path = E.path('x' + EXT[backend])
    hi = node.subnodes['a'].max_value
    E.assume(v.item() <= hi)
    ps = dsch.PseudoStorage(path, node)
    ps.data.a.value = v
    s = ps.storage
    ps.close()
    close(s)
    ps.open()
    ps.data.a.value = w
    s = ps.storage
    before = content(path)
    k, err = E.outcome(ps.close)
    E.check('closed_iff_data_is_valid', E.iff(k == 'ok', w.item() <= hi), err)
    if k == 'exc':
        E.check('invalid_data_is_reported',
                isinstance(err, exceptions.SubnodeValidationError), err)
        if backend != 'hdf5':
            E.check('invalid_data_is_not_saved', content(path) == before)
        E.check('refused_close_keeps_the_data', ps.storage is s and
                ps.data is s.data and E.same(ps.data.a.value, w) and
                ps.schema_node is s.schema_node)
        ps.data.a.value = v
        k, err = E.outcome(ps.close)
        E.check('repaired_data_can_be_saved', k == 'ok' and
                ps.data is None and ps.storage is None, err)
        E.check('repaired_data_is_saved', same_tree(
            E, snapshot_tree(E, path, 'repaired', backend),
            {'a': v, 'l': []}))
    close(s)


@case(grid={'backend': FILES},
      bounds='closed without any data, by close() or with, also when it was '
             'opened again; an optional list with at least n items')
def no_data(E, backend):
    import dsch
    from dsch import exceptions, schema
    n = E.choice('min_length', [None, 0, 1])
    node = schema.Compilation({'l': schema.List(
        schema.String(), min_length=n)}, optionals=['l'])
    path = E.path('x' + EXT[backend])
    ps = dsch.PseudoStorage(path, node)
    s = ps.storage
    k, err = E.outcome(E.choice('how', [
        ps.close, lambda: ps.__exit__(None, None, None)]))
    E.check('closed_iff_empty_data_is_valid', (k == 'ok') == (not n), err)
    if n:
        E.check('invalid_empty_data_is_reported',
                isinstance(err, exceptions.SubnodeValidationError), err)
        if backend != 'hdf5':
            E.check('invalid_empty_data_is_not_saved',
                    not os.path.exists(path))
        close(s)
        return
    E.check('empty_data_is_saved', os.path.exists(path) and same_tree(
        E, snapshot_tree(E, path, 'first', backend), {'l': []}))
    close(s)
    ps.open()
    s = ps.storage
    ps.data.l.append('x')
    ps.data.clear()
    ps.close()
    E.check('emptied_data_is_saved', same_tree(
        E, snapshot_tree(E, path, 'second', backend), {'l': []}))
    close(s)


@case(grid={'backend': ['npz', 'mat'], 'how': ['close', 'with', 'error']},
      bounds='the folder of the file disappears before closing')
def cannot_be_saved(E, backend, how):
    import dsch
    v = E.scalar('v', 'int32')
    node = small(E)
    E.assume(v.item() <= node.subnodes['a'].max_value)
    folder = E.path('folder')
    os.mkdir(folder)
    ps = dsch.PseudoStorage(os.path.join(folder, 'x' + EXT[backend]), node)
    ps.data.a.value = v
    os.rmdir(folder)

    def leave():
        if how == 'close':
            ps.close()
        else:
            with ps:
                if how == 'error':
                    raise ZeroDivisionError()
    k, err = E.outcome(leave)
    E.check('failed_saving_is_reported',
            k == 'exc' and isinstance(err, OSError), err)


@case(grid={'backend': FILES},
      bounds='a file with arbitrary valid or invalid data')
def invalid_file(E, backend):
    import dsch
    from dsch import exceptions, schema
    node = small(E)
    v = E.scalar('v', 'int32')
    s = new_storage(E, backend, node)
    s.data.a.value = v
    s.save(force=True)
    path = s.storage_path
    close(s)
    ps = dsch.PseudoStorage(path, node, defer_open=True,
                            schema_alternatives=E.choice('accepted', [
                                None, [schema.Bool()], [node.hash()]]))
    k, err = E.outcome(ps.open)
    E.check('file_opened_iff_valid', E.iff(
        k == 'ok', v.item() <= node.subnodes['a'].max_value), err)
    if k == 'ok':
        E.check('valid_file_is_loaded', E.same(ps.data.a.value, v))
        close(ps.storage)
    else:
        E.check('invalid_file_is_reported',
                isinstance(err, exceptions.SubnodeValidationError), err)
        E.check('invalid_file_gives_no_data', ps.data is None and
                ps.storage is None)
