"""V04: linked arrays match the size of their independent variables."""
from sx.case import registry
from props.common import accepted, close, new_storage

CASES, case = registry()
NMAX = 50
ASSUMPTIONS = ['dimensions up to %d; independent variables are '
               'one-dimensional' % NMAX]

DEPS = ['t', 't,x', 't,-', '-,t', '-,-', 't,t', 't,x,y', '-,t,-', 'y,-,t']


def names_of(deps):
    return tuple(None if d == '-' else d for d in deps.split(','))


def make_schema(E, deps, optional=False):
    from dsch import schema
    names = names_of(deps)
    # Field order must not matter: 'a'/'z' come before/after 't', 'x', 'y'.
    u = E.choice('dependent', ['a', 'z'])
    nodes = {}
    if u == 'a':
        nodes[u] = None
    for n in ('t', 'x', 'y'):
        nodes[n] = schema.Array('float64')
    arg = names if len(names) > 1 or names[0] is None else names[0]
    nodes[u] = schema.Array('int32', ndim=len(names), depends_on=arg)
    return u, names, schema.Compilation(
        nodes, optionals=sorted(nodes) if optional else None)


def matches(E, names, dims, sizes):
    return E.all([dims[i] == sizes[n] for i, n in enumerate(names)
                  if n is not None])


def fill(E, comp, u, names, prefix=''):
    """Set the dependent array and all its independent variables."""
    dims = E.absarray(prefix + 'u', 'int32', len(names), NMAX)
    sizes = {}
    first = E.choice(prefix + 'first', ['dependent', 'independent'])
    if first == 'dependent':
        getattr(comp, u).value = dims
    for n in ('t', 'x', 'y'):
        if n in names:
            v = E.absarray(prefix + n, 'float64', 1, NMAX)
            getattr(comp, n).value = v
            sizes[n] = v.shape[0]
    if first == 'independent':
        getattr(comp, u).value = dims
    return matches(E, names, dims.shape, sizes)


@case(grid={'deps': DEPS},
      bounds='1-3 dimensions, each linked to any or no variable; all sizes '
             'arbitrary in 0..%d' % NMAX)
def linked(E, deps):
    u, names, node = make_schema(E, deps)
    storage = new_storage(E, 'inmem', node)
    good = fill(E, storage.data, u, names)
    E.check('accepted_iff_sizes_match',
            E.iff(accepted(E, storage.validate), good))


@case(grid={'deps': ['t', 't,-', '-,t', 'x,t']},
      bounds='the same after JSON serialisation of the schema')
def linked_reloaded(E, deps):
    from dsch import schema
    u, names, node = make_schema(E, deps)
    node = schema.node_from_json(node.to_json())
    storage = new_storage(E, 'inmem', node)
    good = fill(E, storage.data, u, names)
    E.check('reloaded_accepted_iff_sizes_match',
            E.iff(accepted(E, storage.validate), good))


@case(grid={'deps': ['t', '-,t']},
      bounds='compilations in a list of 1..2 items and inside a compilation '
             'with fields of the same names but arbitrary other sizes')
def linked_nested(E, deps):
    from dsch import schema
    u, names, node = make_schema(E, deps)
    where = E.choice('where', ['list', 'nested'])
    if where == 'list':
        storage = new_storage(E, 'inmem', schema.List(node))
        good = []
        for i in range(E.choice('items', [1, 2])):
            storage.data.append()
            good.append(fill(E, storage.data[i], u, names, 'i%d' % i))
        good = E.all(good)
    else:
        storage = new_storage(E, 'inmem', schema.Compilation({
            't': schema.Array('float64'), 'inner': node,
            'x': schema.Array('float64')}))
        for n in ('t', 'x'):
            if E.choice('outer?' + n, [True, False]):
                getattr(storage.data, n).value = E.absarray(
                    'outer.' + n, 'float64', 1, NMAX)
        good = fill(E, storage.data.inner, u, names)
    E.check('nested_accepted_iff_sizes_match',
            E.iff(accepted(E, storage.validate), good))


@case(grid={'deps': ['t', 't,x', '-,t'], 'backend': ['inmem', 'npz', 'hdf5',
                                                      'mat']},
      bounds='histories: 2 replacements after a first validation; all sizes '
             'arbitrary in 1..%d' % NMAX)
def linked_history(E, deps, backend):
    from dsch import schema
    names = names_of(deps)
    nodes = {n: schema.Array('float64') for n in ('t', 'x')}
    nodes['u'] = schema.Array('int32', ndim=len(names), depends_on=names)
    storage = new_storage(E, backend, schema.Compilation(nodes))
    data = storage.data
    fields = ['u'] + [n for n in ('t', 'x') if n in names]
    sizes = {}

    def put(what, tag):
        v = E.absarray(tag + what, 'int32' if what == 'u' else 'float64',
                       len(names) if what == 'u' else 1, NMAX)
        for n in v.shape:
            E.assume(n > 0)
        getattr(data, what).value = v
        sizes[what] = v.shape[0] if what != 'u' else v.shape
    for f in fields:
        put(f, 'first.')
    for step in range(3):
        E.check('accepted_iff_current_sizes_match',
                E.iff(accepted(E, storage.validate),
                      matches(E, names, sizes['u'], sizes)))
        if step < 2:
            put(E.choice('what%d' % step, fields), 'new%d.' % step)
    close(storage)


@case(bounds='an unset dependent array; arbitrary independent variables')
def dependent_unset(E):
    u, names, node = make_schema(E, E.choice('deps', DEPS),
                                 E.choice('optional', [True, False]))
    storage = new_storage(E, 'inmem', node)
    for n in ('t', 'x', 'y'):
        if E.choice('set?' + n, [True, False]):
            getattr(storage.data, n).value = E.absarray(n, 'float64', 1, NMAX)
    E.check('unset_dependent_array_is_valid', accepted(E, storage.validate))


@case(grid={'deps': DEPS}, bounds='direct use of the schema node')
def schema_level(E, deps):
    from dsch import schema
    names = names_of(deps)
    node = schema.Array('int32', ndim=len(names), depends_on=names)
    u = E.absarray('u', 'int32', len(names), NMAX)
    ind = []
    good = []
    for i, n in enumerate(names):
        v = None if n is None else E.absarray('v%d' % i, 'float64', 1, NMAX)
        ind.append(v)
        if v is not None:
            good.append(v.shape[0] == u.shape[i])
    E.check('schema_node_accepts_iff_sizes_match',
            E.iff(accepted(E, node.validate, u, ind), E.all(good)))


@case(bounds='number of names 1..3 against number of dimensions 1..3')
def names_per_dimension(E):
    from dsch import schema
    n, ndim = E.choice('n', [1, 2, 3]), E.choice('ndim', [1, 2, 3])
    how = E.choice('how', ['ndim', 'shape'])
    kw = {'ndim': ndim} if how == 'ndim' else {'max_shape': (5,) * ndim}
    kind, r = E.outcome(schema.Array, 'int8',
                        depends_on=('t', 'x', 'y')[:n], **kw)
    E.check('one_name_per_dimension', (kind == 'ok') == (n == ndim) and
            (kind == 'ok' or isinstance(r, ValueError)))


@case(bounds='a set dependent array with at least one variable missing, all '
             'fields optional or not; also within a compilation that has fields of '
             'the same names')
def independent_missing(E):
    from dsch import schema
    u, names, node = make_schema(E, E.choice('deps', ['t', 't,x', '-,t']),
                                 E.choice('optional', [True, False]))
    nested = E.choice('nested', [False, True])
    if nested:
        # A variable of the same name elsewhere is no replacement.
        node = schema.Compilation({
            't': schema.Array('float64'), 'inner': node,
            'x': schema.Array('float64')})
    storage = new_storage(E, 'inmem', node)
    data = storage.data
    if nested:
        for n in ('t', 'x'):
            getattr(data, n).value = E.absarray('outer.' + n, 'float64', 1,
                                                NMAX)
        data = data.inner
    getattr(data, u).value = E.absarray('u', 'int32', len(names), NMAX)
    missing = 0
    for n in ('t', 'x', 'y'):
        if E.choice('set?' + n, [True, False]):
            getattr(data, n).value = E.absarray(n, 'float64', 1, NMAX)
        elif n in names:
            missing += 1
    E.assume(missing > 0)
    E.check('missing_variable_is_not_accepted',
            not accepted(E, storage.validate))


@case(bounds='independent variables of 2 or 3 dimensions')
def independent_dimensions(E):
    from dsch import schema
    k = E.choice('k', [2, 3])
    how = E.choice('how', ['t', 't,-', '-,t'])
    names = names_of(how)
    storage = new_storage(E, 'inmem', schema.Compilation({
        't': schema.Array('float64', ndim=k),
        'u': schema.Array('int32', ndim=len(names), depends_on=names)}))
    storage.data.t.value = E.absarray('t', 'float64', k, NMAX)
    storage.data.u.value = E.absarray('u', 'int32', len(names), NMAX)
    E.check('variables_must_be_one_dimensional',
            E.outcome(storage.validate)[0] == 'exc')


@case(grid={'kind': ['array', 'scalar'], 'deps': ['t', 't,-', 'x,t']},
      bounds='a single number as the independent variable, i.e. an array '
             'without dimensions or a scalar: the linked size is 1')
def single_number(E, kind, deps):
    from dsch import schema
    names = names_of(deps)
    s = new_storage(E, 'inmem', schema.Compilation({
        't': schema.Array('float64', ndim=0) if kind == 'array' else
        schema.Scalar('float64'),
        'x': schema.Array('int32'),
        'u': schema.Array('int32', ndim=len(names), depends_on=names)}))
    s.data.t.value = E.array('t', 'float64', ()) if kind == 'array' else \
        E.scalar('t', 'float64')
    dims = E.absarray('u', 'int32', len(names), NMAX)
    x = E.absarray('x', 'int32', 1, NMAX)
    s.data.u.value = dims
    s.data.x.value = x
    E.check('single_number_has_size_1', E.iff(
        accepted(E, s.validate),
        matches(E, names, dims.shape, {'t': 1, 'x': x.shape[0]})))


@case(grid={'order': ['utx', 'xtu', 'tux']},
      bounds='a chain of two links, two arrays linked to the same variable, '
             'and an array linked to itself; all sizes arbitrary in 0..%d'
             % NMAX)
def several_links(E, order):
    from dsch import schema
    nodes = {'u': schema.Array('int32', depends_on='t'),
             't': schema.Array('float64', depends_on='x'),
             'x': schema.Array('float64', depends_on='x')}
    nodes = {n: nodes[n] for n in order}
    nodes['v'] = schema.Array('int8', ndim=2, depends_on=('x', 't'))
    s = new_storage(E, 'inmem', schema.Compilation(nodes))
    n = {k: E.absarray(k, str(nodes[k].dtype), nodes[k].ndim, NMAX)
         for k in nodes}
    for k in nodes:
        s.data._subnodes[k].value = n[k]
    t, x, v = n['t'].shape[0], n['x'].shape[0], n['v'].shape
    E.check('all_links_are_checked', E.iff(
        accepted(E, s.validate),
        E.all([n['u'].shape[0] == t, t == x, v[0] == x, v[1] == t])))
