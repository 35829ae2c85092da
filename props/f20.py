"""F20: load() hands out valid data of the required schema only."""
from sx.case import registry
from props.common import EXT, close, new_storage
from props.n12 import same_tree
from props.s07 import configs_equal, one

CASES, case = registry()
ASSUMPTIONS = ['SHA-256 is collision free', 'strings contain no NUL '
               'characters or surrogates; dates and times are naive']
FILES = ['npz', 'hdf5', 'mat']


def content(path):
    with open(path, 'rb') as f:
        return f.read()


def leaf_setup(E, kind, backend):
    """(schema leaf, arbitrary value, is it valid)."""
    from dsch import schema
    if kind in ('String', 'Bytes'):
        lo, hi = E.int('lo', 0, 4), E.int('hi', 0, 4)
        v = E.str('v', 2, lo=1) if kind == 'String' else E.bytes('v', 2)
        return (getattr(schema, kind)(min_length=lo, max_length=hi), v,
                E.all([len(v) >= lo, len(v) <= hi]))
    if kind == 'shape':
        lo, hi = E.int('lo', 1, 4), E.int('hi', 1, 4)
        n = E.choice('n', [1, 2, 3])
        return (schema.Array('int8', ndim=2, min_shape=(lo, None),
                             max_shape=(hi, None)),
                E.array('v', 'int8', (n, 2)), E.all([lo <= n, n <= hi]))
    if kind == 'range':
        lo, hi = E.int('lo', -99, 99), E.int('hi', -99, 99)
        v = E.array('v', 'int16', (2,))
        return (schema.Array('int16', min_value=lo, max_value=hi), v,
                E.all([E.all([x >= lo, x <= hi]) for x in v.tolist()]))
    lo, hi = E.int('lo', -2**64, 2**64), E.int('hi', -2**64, 2**64)
    v = E.scalar('v', kind)
    return (schema.Scalar(kind, min_value=lo, max_value=hi), v,
            E.all([v.item() >= lo, v.item() <= hi]))


@case(grid={'backend': FILES, 'kind': ['String', 'Bytes', 'int16', 'uint64',
                                       'shape', 'range'],
            'where': ['top', 'comp', 'item', 'deep']},
      bounds='a file with an arbitrary leaf value and arbitrary limits, '
             'anywhere in the tree')
def valid_only(E, backend, kind, where):
    import dsch
    from dsch import exceptions, schema
    leaf, v, valid = leaf_setup(E, kind, backend)
    if where == 'top':
        s = new_storage(E, backend, leaf)
        s.data.value = v
        tree = v
    elif where == 'comp':
        s = new_storage(E, backend, schema.Compilation(
            {'b': schema.Bool(), 'a': leaf}))
        s.data.a.value = v
        tree = {'a': v, 'b': None}
    elif where == 'item':
        s = new_storage(E, backend, schema.List(leaf))
        s.data.append()
        s.data.append(v)
        tree = [None, v]
    else:
        s = new_storage(E, backend, schema.List(schema.Compilation(
            {'z': schema.Bool(), 'm': schema.List(leaf)})))
        s.data.append()
        s.data.append()
        s.data[1].m.append(v)
        tree = [{'z': None, 'm': []}, {'z': None, 'm': [v]}]
    s.save(force=True)
    path = E.snapshot(s.storage_path, 'copy' + EXT[backend])
    forced = E.snapshot(s.storage_path, 'forced' + EXT[backend])
    required = E.choice('required', [None, 'schema', 'hash'])
    close(s)
    kw = {}
    if required == 'schema':
        kw['required_schema'] = s.schema_node
    elif required == 'hash':
        kw['required_schema_hash'] = s.schema_hash()
    kind, r = E.outcome(dsch.load, path, **kw)
    E.check('loaded_iff_valid', E.iff(kind == 'ok', valid), r)
    if kind == 'ok':
        E.check('loaded_data_is_the_saved_data',
                same_tree(E, r.data.data_tree(True), tree))
        close(r)
    else:
        error = exceptions.ValidationError if where == 'top' else \
            exceptions.SubnodeValidationError
        E.check('refused_by_validation_error', type(r) is error, r)
        if where == 'deep':
            E.check('error_names_the_node', r.node_path() == '[1].m[0]')
    kind, r = E.outcome(dsch.load, forced, force=True, **kw)
    E.check('forced_load_always_works', kind == 'ok', r)
    E.check('forced_load_gives_the_data',
            same_tree(E, r.data.data_tree(True), tree))
    E.check('forced_load_data_can_be_validated', E.iff(
        E.outcome(r.validate)[0] == 'ok', valid))
    close(r)


@case(grid={'backend': FILES, 'kind': ['String', 'Bytes', 'Date',
                                       'ScalarInt', 'ScalarFloat',
                                       'ArrayRange']},
      grid_thorough={'kind': ['String', 'Bytes', 'Date', 'DateTime', 'Time',
                              'ScalarInt', 'ScalarFloat', 'ArrayShape',
                              'ArrayRange']},
      bounds='two arbitrary configurations of a leaf type (see S07): that of '
             'the file, and the required one; by schema or hash or both')
def required_leaf(E, backend, kind):
    import dsch
    from dsch import exceptions
    a, b = one(E, kind, 'a.'), one(E, kind, 'b.')
    if kind == 'ArrayRange':
        E.assume(a.ndim == 1)
    same = configs_equal(E, a, b)
    s = new_storage(E, backend, a)
    s.data.clear()
    s.save()
    path = E.snapshot(s.storage_path, 'copy' + EXT[backend])
    close(s)
    before = content(path)
    force = E.choice('force', [True, False])
    how = E.choice('how', ['schema', 'hash', 'schema_first', 'hash_first'])
    kw = {'schema': dict(required_schema=b),
          'hash': dict(required_schema_hash=b.hash()),
          'schema_first': dict(required_schema=b,
                               required_schema_hash=a.hash()),
          'hash_first': dict(required_schema=a,
                             required_schema_hash=b.hash())}[how]
    kind, r = E.outcome(dsch.load, path, force=force, **kw)
    E.check('loaded_iff_schema_matches', E.iff(kind == 'ok', same), r)
    if kind == 'exc':
        E.check('mismatch_is_invalid_schema_error',
                isinstance(r, exceptions.InvalidSchemaError), r)
        if backend != 'hdf5':     # HDF5 marks opened files
            E.check('refused_load_keeps_the_file', content(path) == before)
    else:
        E.check('loaded_schema_is_the_required', r.schema_node == b)
        close(r)


@case(grid={'backend': FILES},
      bounds='nested schemas which differ in one limit at any depth, or in '
             'names, types and optional fields')
def required_tree(E, backend):
    import dsch
    from dsch import exceptions, schema

    def build(p, diff):
        leaf = schema.String(max_length=E.int(p + 'max', 5, 99))
        f = {'x': schema.List(leaf, max_length=E.int(p + 'lmax', 5, 99)),
             'y': schema.Scalar('int8', unit=E.str(p + 'unit', 1))}
        if diff == 'name':
            f['z'] = f.pop('y')
        elif diff == 'type':
            f['y'] = schema.Bool()
        elif diff == 'extra':
            f['z'] = schema.Bool()
        elif diff == 'dtype':
            f['y'] = schema.Scalar('int16', unit=f['y'].unit)
        inner = schema.Compilation(f, optionals=['x'] if diff == 'opt'
                                   else [])
        return schema.List(schema.Compilation({'c': inner}))
    diff = E.choice('diff', [None, 'name', 'type', 'extra', 'dtype', 'opt'])
    a, b = build('a.', None), build('b.', diff)

    def config(n):
        i = n.subnode.subnodes['c'].subnodes
        return [i['x'].subnode.max_length, i['x'].max_length] + (
            [i['y'].unit] if diff is None else [])
    same = diff is None and E.all([E.same(x, y) for x, y in
                                   zip(config(a), config(b))])
    s = new_storage(E, backend, a)
    s.data.append()
    v = E.str('v', 2, 1, lo=1)
    s.data[0].c.x.append(v)
    s.save()
    path = E.snapshot(s.storage_path, 'copy' + EXT[backend])
    close(s)
    kw = dict(required_schema=b) if E.choice('how', [True, False]) else \
        dict(required_schema_hash=b.hash())
    kind, r = E.outcome(dsch.load, path, **kw)
    E.check('tree_loaded_iff_schema_matches', E.iff(kind == 'ok', same), r)
    if kind == 'ok':
        E.check('tree_data_is_loaded', E.same(r.data[0].c.x[0].value, v))
        close(r)
    else:
        E.check('tree_mismatch_is_invalid_schema_error',
                isinstance(r, exceptions.InvalidSchemaError), r)


def variants(h):
    return [h, h[:-1], h[:8], h[:1], h + h[-1], h + ' ', ' ' + h, h.upper(),
            h[::-1], h[1:], '0' * len(h), ' ', '*', 'sha256', h * 2, h + '\n']


@case(grid={'backend': FILES, 'how': ['alone', 'schema']},
      bounds='16 texts similar to the hash of the schema (parts of it, longer '
             'ones, upper case), alone or besides the right schema; forced or '
             'not; an arbitrary value')
def required_hash(E, backend, how):
    import dsch
    from dsch import exceptions, schema
    node = schema.Compilation({'a': schema.Scalar('int32')})
    s = new_storage(E, backend, node)
    v = E.scalar('v', 'int32')
    s.data.a.value = v
    h = s.schema_hash()
    s.save()
    path = E.snapshot(s.storage_path, 'copy' + EXT[backend])
    close(s)
    i = E.choice('variant', list(range(len(variants('x')))))
    x = variants(h)[i]
    kind, r = E.outcome(dsch.load, path, required_schema_hash=x,
                        force=E.choice('force', [False, True]),
                        required_schema=node if how == 'schema' else None)
    E.check('loaded_iff_hash_is_equal', (kind == 'ok') == (x == h), (x, r))
    if kind == 'ok':
        E.check('data_is_loaded', E.same(r.data.a.value, v))
        close(r)
    else:
        E.check('other_hash_is_invalid_schema_error',
                isinstance(r, exceptions.InvalidSchemaError), r)


@case(grid={'backend': FILES},
      bounds='linked arrays of 1..3 elements and lists of 0..2 items with '
             'arbitrary limits, stored unchecked')
def structures(E, backend):
    import dsch
    from dsch import exceptions, schema
    hi = E.int('hi', 0, 3)
    s = new_storage(E, backend, schema.Compilation({
        't': schema.Array('float64'),
        'u': schema.Array('int8', depends_on='t'),
        'l': schema.List(schema.Bool(), max_length=hi)}))
    n, m, k = (E.choice('n', [1, 2, 3]), E.choice('m', [1, 2]),
               E.choice('k', [0, 1, 2]))
    s.data.t.value = E.array('t', 'float64', (n,))
    s.data.u.value = E.array('u', 'int8', (m,))
    for i in range(k):
        s.data.l.append(E.flag('l%d' % i))
    s.save(force=True)
    path = E.snapshot(s.storage_path, 'copy' + EXT[backend])
    close(s)
    kind, r = E.outcome(dsch.load, path)
    E.check('structure_loaded_iff_valid', E.iff(
        kind == 'ok', E.all([n == m, k <= hi])), r)
    if kind == 'exc':
        E.check('structure_refused_by_validation_error',
                isinstance(r, exceptions.SubnodeValidationError), r)
    else:
        close(r)
