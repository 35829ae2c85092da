"""C17: copying needs identical schemas; a refused copy changes nothing."""
from sx.case import registry
from props.common import (COUNT, LARGE, PLACES, close, large_node,
                          large_schema, new_storage)
from props.n12 import same_tree
from props.s07 import KINDS, configs_equal, one

CASES, case = registry()
ASSUMPTIONS = ['SHA-256 is collision free']
BACKENDS = ['inmem', 'npz', 'hdf5', 'mat']
PAIRS = [('inmem', 'inmem'), ('inmem', 'hdf5'), ('npz', 'inmem'),
         ('hdf5', 'npz'), ('mat', 'hdf5'), ('hdf5', 'mat')]


def refused_iff(E, src, dst, same, read, new):
    """src may be copied onto dst iff same; else dst keeps its data."""
    from dsch import exceptions
    old = read()
    kind, r = E.outcome(dst.load_from, src)
    E.check('accepted_iff_identical_schemas', E.iff(kind == 'ok', same),
            r)
    if kind == 'ok':
        E.check('accepted_copy_is_exact', same_tree(E, read(), new()))
    else:
        E.check('refused_by_incompatible_nodes_error',
                isinstance(r, exceptions.IncompatibleNodesError), r)
        E.check('refused_copy_changes_nothing', same_tree(E, read(), old))


@case(grid={'src': BACKENDS, 'dst': BACKENDS, 'kind': [
    'String', 'Bytes', 'ScalarInt', 'ArrayShape', 'ArrayRange']},
      skip=lambda src, dst, kind: (src, dst) not in PAIRS,
      grid_thorough={'kind': [k for k in KINDS if k != 'ArrayLinked']},
      bounds='two arbitrary configurations of a leaf type (see S07), source '
             'and target empty or filled; six pairs of backends')
def leaves(E, src, dst, kind):
    a, b = one(E, kind, 'a.'), one(E, kind, 'b.')
    if kind in ('ArrayRange',):
        # The number of dimensions must match the stored value.
        E.assume(a.ndim == 1)
        E.assume(b.ndim == 1)
    s = new_storage(E, src, a, 'source')
    d = new_storage(E, dst, b, 'target')

    def value(name, node):
        if kind == 'String':
            return E.str(name, 1, 1, lo=1)
        if kind == 'Bytes':
            return E.bytes(name, 1, 1)
        if kind in ('ScalarInt', 'ScalarFloat'):
            return E.scalar(name, node.dtype)
        if kind == 'Date':
            return E.date(name)
        if kind == 'Time':
            return E.time(name)
        if kind == 'DateTime':
            return E.datetime(name)
        return E.array(name, node.dtype, (1,) * node.ndim)
    if kind == 'ArrayShape' or not E.choice('empty', [True, False]):
        if kind != 'ArrayShape':
            s.data.value = value('v', a)
            d.data.value = value('w', b)
    refused_iff(E, s.data, d.data, configs_equal(E, a, b),
                lambda: d.data.data_tree(True), lambda: s.data.data_tree(True))
    close(s)
    close(d)


@case(grid={'src': BACKENDS, 'dst': BACKENDS},
      skip=lambda src, dst: (src, dst) not in PAIRS,
      bounds='a tree whose schemas differ in at most one arbitrary place: a '
             'limit, unit, field name or type at any depth')
def trees(E, src, dst):
    from dsch import schema
    where = E.choice('where', ['max', 'lmax', 'unit', 'sc', 'name', 'type',
                               'optionals', 'extra', 'less'])

    def build(p, other):
        def limit(name, hi=99):
            # The same number in both schemas, but for the place.
            if where == name:
                return E.int(p + name, 5, hi)
            return 7
        inner = {'x': schema.List(schema.String(max_length=limit('max')),
                                  max_length=limit('lmax')),
                 'y': schema.Scalar('int8', max_value=limit('sc'),
                                    unit=E.str(p + 'unit', 1)
                                    if where == 'unit' else 'V')}
        outer = {'a': schema.Compilation(inner), 'b': schema.Bool(),
                 'c': schema.List(schema.Bool())}
        opt = None
        if other and where == 'name':
            outer['d'] = outer.pop('b')
        elif other and where == 'type':
            outer['b'] = schema.Date()
        elif other and where == 'extra':
            outer['d'] = schema.Bool()
        elif other and where == 'less':
            del outer['c']
        elif other and where == 'optionals':
            opt = ['b']
        return schema.Compilation(outer, optionals=opt)
    a, b = build('a.', False), build('b.', True)

    def config(n):
        i = n.subnodes['a'].subnodes
        return [i['x'].subnode.max_length, i['x'].max_length,
                i['y'].max_value, i['y'].unit]
    same = where not in ('name', 'type', 'optionals', 'extra', 'less') and \
        E.all([E.same(x, y) for x, y in zip(config(a), config(b))])
    s = new_storage(E, src, a, 'source')
    d = new_storage(E, dst, b, 'target')
    s.data.a.x.append(E.str('v', 1, 1, lo=1))
    s.data.a.y.value = E.scalar('y', 'int8')
    s.data.c.append(E.flag('c'))
    d.data.a.x.append('old')
    d.data.a.y.value = E.scalar('z', 'int8')
    part = E.choice('part', ['all', 'a', 'x', 'y', 'item', 'b'])

    def pick(n):
        if part == 'all':
            return n
        if part == 'b':
            return n.b
        return {'a': n.a, 'x': n.a.x, 'y': n.a.y, 'item': n.a.x[0]}[part]
    if part == 'b':
        E.assume(where not in ('name',))
        same = where != 'type'
    elif part == 'a':
        same = E.all([E.same(x, y) for x, y in zip(config(a), config(b))])
    elif part == 'x':
        same = E.all([E.same(x, y) for x, y in zip(config(a)[:2],
                                                   config(b)[:2])])
    elif part == 'item':
        same = E.same(config(a)[0], config(b)[0])
    elif part == 'y':
        same = E.all([E.same(x, y) for x, y in zip(config(a)[2:],
                                                   config(b)[2:])])
    refused_iff(E, pick(s.data), pick(d.data), same,
                lambda: pick(d.data).data_tree(True),
                lambda: pick(s.data).data_tree(True))
    close(s)
    close(d)


@case(grid={'backend': BACKENDS},
      bounds='source and target of two different types, all pairs')
def types(E, backend):
    from dsch import schema
    nodes = {'str': schema.String(), 'bytes': schema.Bytes(),
             'bool': schema.Bool(), 'date': schema.Date(),
             'dt': schema.DateTime(), 'time': schema.Time(),
             'i8': schema.Scalar('int8'), 'i16': schema.Scalar('int16'),
             'arr': schema.Array('int8'), 'arr2': schema.Array('int8', ndim=2),
             'list': schema.List(schema.Bool()),
             'list2': schema.List(schema.String()),
             'comp': schema.Compilation({'a': schema.Bool()}),
             'comp2': schema.Compilation({'z': schema.Bool()})}
    s = new_storage(E, 'inmem', schema.Compilation(nodes))
    d = new_storage(E, backend, schema.Compilation(nodes))
    x, y = E.scalar('x', 'int8'), E.str('y', 1, 1, lo=1)
    for n in (s.data, d.data):
        n.i8.value = x
        n.str.value = y
        n.list.append(True)
        n.comp.a.value = False
    a, b = E.choice('a', sorted(nodes)), E.choice('b', sorted(nodes))
    refused_iff(E, getattr(s.data, a), getattr(d.data, b), a == b,
                lambda: d.data.data_tree(True), lambda: s.data.data_tree(True))
    close(d)


@case(grid={'shape': LARGE, 'src': ['inmem', 'npz', 'hdf5']},
      bounds='compilations of 40 fields, nesting of 11 levels, whose schemas '
             'differ at most in an arbitrary limit at any of 5 places')
def large(E, shape, src):
    from dsch import schema
    at = E.choice('at', PLACES[shape] if shape != 'items' else [0])
    lo, hi = E.int('lo', 0, 999), E.int('hi', 0, 999)
    s = new_storage(E, src, large_schema(shape, lambda i: schema.String(
        max_length=lo if i == at else 7)), 'source')
    d = new_storage(E, 'inmem', large_schema(shape, lambda i: schema.String(
        max_length=hi if i == at else 7)), 'target')
    for t, text in ((s, 'new'), (d, 'old')):
        large_node(t.data, shape, COUNT[shape] - 1, True)[0].value = text
    refused_iff(E, s.data, d.data, lo == hi,
                lambda: d.data.data_tree(True), lambda: s.data.data_tree(True))
    close(s)
