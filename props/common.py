"""Helpers shared by the harnesses (instrumented in symbolic runs)."""


def accepted(E, fn, *args):
    """True if fn accepts, False if it rejects by a dsch validation error."""
    from dsch import exceptions
    kind, r = E.outcome(fn, *args)
    if kind == 'ok':
        return True
    E.check('rejects_by_validation_error',
            isinstance(r, (exceptions.ValidationError,
                           exceptions.SubnodeValidationError)), r)
    return False


def leaf_schema(kind):
    """Schema node for a leaf kind such as 'String' or 'Array:float64:1'."""
    from dsch import schema
    parts = kind.split(':')
    if parts[0] == 'Scalar':
        return schema.Scalar(parts[1])
    if parts[0] == 'Array':
        return schema.Array(parts[1], ndim=int(parts[2]))
    return getattr(schema, parts[0])()


def leaf_value(E, name, kind, nmax=2, shapes=None, lo=1, nmin=0):
    """An arbitrary value that is valid for the leaf kind."""
    parts = kind.split(':')
    if parts[0] == 'String':
        return E.str(name, nmax, nmin, lo=lo)
    if parts[0] == 'Bytes':
        return E.bytes(name, nmax, nmin)
    if parts[0] == 'Bool':
        return E.flag(name)
    if parts[0] == 'Date':
        return E.date(name)
    if parts[0] == 'DateTime':
        return E.datetime(name)
    if parts[0] == 'Time':
        return E.time(name)
    if parts[0] == 'Scalar':
        return E.scalar(name, parts[1])
    ndim = int(parts[2])
    if shapes is None:
        shapes = {0: [()], 1: [(2,), (0,), (1,), (3,)],
                  2: [(2, 2), (1, 2), (1, 3), (2, 1), (0, 2)],
                  3: [(1, 2, 1), (2, 1, 2)]}[ndim]
    return E.array(name, parts[1], E.choice(name + '.shape', shapes))


INTS = ['int8', 'uint8', 'int16', 'uint16', 'int32', 'uint32', 'int64',
        'uint64']
FLOATS = ['float16', 'float32', 'float64']
COMPLEX = ['complex64', 'complex128']
SIMPLE = ['String', 'Bytes', 'Bool', 'Date', 'DateTime', 'Time']
EXT = {'npz': '.npz', 'hdf5': '.h5', 'mat': '.mat'}


def new_storage(E, backend, node, name='file'):
    import dsch
    if backend == 'inmem':
        return dsch.create('::inmem::', node)
    return dsch.create(E.path(name + EXT[backend]), node)


def close(storage):
    """Release the HDF5 file of a storage, as the end of a process does."""
    f = getattr(storage, '_storage', None)
    if f is not None and hasattr(f, 'close'):
        f.close()


def mixed(fields, k=0):
    """A compilation in which every other field is optional.

    k=0: the second, fourth, ...; k=1: the first, third, ... one.
    """
    from dsch import schema
    return schema.Compilation(fields, optionals=[
        n for i, n in enumerate(fields) if (i + k) % 2])


# Structures that are larger than those of most cases: in width and depth.
LARGE = ['items', 'fields', 'levels']
PLACES = {'items': [0, 9, 10, 36, 63, 100], 'fields': [0, 9, 10, 32, 39],
          'levels': [0, 1, 4, 7, 10]}
COUNT = {'items': 101, 'fields': 40, 'levels': 11}


def large_schema(shape, leaf, extra=None):
    """A schema with COUNT[shape] leaves; leaf(i) gives the i-th schema node.

    items: a list, fields: a compilation f0, f1, ..., levels: compilations and
    lists in turn, with a leaf x on every second level, which counts for two.
    """
    from dsch import schema
    if shape == 'items':
        return schema.List(leaf(0))
    if shape == 'fields':
        return schema.Compilation({'f%d' % i: leaf(i)
                                   for i in range(COUNT[shape])})
    node = schema.Compilation({'x': leaf(COUNT[shape] - 1)})
    for i in reversed(range(COUNT[shape] - 1)):
        fields = {'x': leaf(i)}
        if i % 2:
            fields['sub'] = schema.List(node)
        else:
            fields['a'] = node
        node = schema.Compilation(fields)
    return node


def large_node(data, shape, i, grow=False):
    """The i-th leaf of such a tree and its path.

    Missing list items are appended if grow is set.
    """
    if shape == 'items':
        while grow and len(data) <= i:
            data.append()
        return data[i], '[%d]' % i
    if shape == 'fields':
        return getattr(data, 'f%d' % i), 'f%d' % i
    path = ''
    for k in range(i):
        if k % 2:
            data = data.sub
            if grow and not len(data):
                data.append()
            data = data[0]
            path += 'sub[0].'
        else:
            data = data.a
            path += 'a.'
    return data.x, path + 'x'
