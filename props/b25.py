"""B25: all backends behave alike; files are a faithful continuation."""
from sx.case import registry
from props.common import EXT, close, new_storage
from props.n12 import same_tree

CASES, case = registry()
ASSUMPTIONS = ['values have the type of their schema node but may break its '
               'limits; strings contain no NUL characters or surrogates; '
               'dates and times are naive; in mat files, arrays have the '
               'declared number of dimensions (the format cannot hold another '
               'one, so an invalid array saved with force comes back valid); '
               'resizing keeps the number of dimensions']
FILES = ['npz', 'hdf5', 'mat']
OPS = ['text', 'number', 'array', 'linked', 'items', 'append', 'append_empty',
       'edit_item', 'clear_item', 'clear_list', 'clear_leaf', 'clear_part',
       'flags', 'dates', 'copy', 'nested', 'resize', 'element', 'texts',
       'some_texts', 'dims', 'reshape']


def tree_schema():
    from dsch import schema
    item = schema.Compilation({
        'n': schema.Scalar('int16', unit='m', min_value=0),
        's': schema.String(max_length=2),
        'k': schema.List(schema.Bytes(max_length=1), max_length=2)},
        optionals=['s'])
    return schema.Compilation({
        'a': schema.Array('int16', unit='V', ndim=2, max_shape=(2, None)),
        't': schema.Array('int16'),
        'u': schema.Array('int16', depends_on='t', max_value=100),
        'l': schema.List(item, min_length=1, max_length=2),
        'c': schema.Compilation({'b': schema.Bool(), 'd': schema.Date(),
                                 'e': schema.DateTime(), 'f': schema.Time()},
                                optionals=['d', 'e', 'f']),
        's': schema.String(min_length=1),
        'q': schema.List(schema.String(max_length=1)),
        'n': schema.Scalar('float32')}, optionals=['a', 't', 'u'])


class Values:
    """Inputs are the same for every storage."""

    def __init__(self, E):
        self.E = E
        self.made = {}

    def get(self, fn, name, *args, **kw):
        if name not in self.made:
            if fn == 'choice' and name.startswith('start'):
                self.made[name] = args[0][1]    # few initial states
            elif fn == 'bytes' and name.startswith('start'):
                self.made[name] = self.E.bytes(name, 1, 1)
            elif fn == 'str' and name.startswith('start'):
                self.made[name] = self.E.str(name, 1, 1, **kw)
            else:
                self.made[name] = getattr(self.E, fn)(name, *args, **kw)
        return self.made[name]


def apply(E, v, d, op, tag):
    """Apply one operation to the data of one storage."""
    def num(n, dtype='int16'):
        return v.get('scalar', tag + n, dtype)
    if op == 'text':
        d.s.value = v.get('str', tag + 's', 3, 0 if E.thorough else 2, lo=1)
    elif op == 'number':
        d.n.value = num('n', 'float32')
    elif op == 'array':
        d.a.value = v.get('array', tag + 'a', 'int16', v.get(
            'choice', tag + 'shape', [(1, 1), (2, 1), (3, 1)])).copy()
    elif op == 'linked':
        d.t.value = v.get('array', tag + 't', 'int16', v.get(
            'choice', tag + 'n', [(1,), (2,)])).copy()
        d.u.value = v.get('array', tag + 'u', 'int16', (2,)).copy()
    elif op == 'items':
        d.l.replace([{'n': num('n0')}, {'s': v.get('str', tag + 's', 1, 1, lo=1),
                                        'k': [v.get('bytes', tag + 'k', 1)]}])
    elif op == 'append':
        d.l.append({'n': num('n')})
    elif op == 'append_empty':
        d.l.append()
    elif op == 'edit_item':
        d.l[0].n.value = num('n')
        d.l[-1].k.append(v.get('bytes', tag + 'b', 2, 1))
    elif op == 'clear_item':
        d.l[-1].clear()
    elif op == 'clear_list':
        d.l.clear()
    elif op == 'clear_leaf':
        d.n.clear()
        d.s.clear()
        d.u.clear()
    elif op == 'clear_part':
        d.c.clear()
    elif op == 'flags':
        d.c.b.value = v.get('flag', tag + 'b')
    elif op == 'dates':
        d.c.replace({'d': v.get('date', tag + 'd'), 'e': v.get(
            'datetime', tag + 'e'), 'f': v.get('time', tag + 'f')})
    elif op == 'copy':
        d.l[-1].load_from(d.l[0])
    elif op == 'nested':
        d.l[0].replace({'n': num('n'), 'k': [b'', v.get('bytes', tag + 'k',
                                                        1, 1)]})
    elif op == 'texts':
        d.q.append(v.get('str', tag + 'q', 1, 1, lo=1))
    elif op == 'some_texts':
        d.q.append()
        d.q.append(v.get('str', tag + 'q', 1, 1, lo=1))
        d.q.append()
    elif op == 'reshape':
        d.a.resize(v.get('choice', tag + 'reshape', [(2, 3), (1, 2), (2, 0)]))
        d.a[:1, -1:] = num('new')
    elif op == 'dims':
        d.t.value = v.get('array', tag + 't', 'int16', (2, 1)).copy()
        d.a.value = v.get('array', tag + 'a', 'int16', v.get(
            'choice', tag + 'dims', [(1, 1, 2), (2,)])).copy()
    elif op == 'resize':
        d.u.resize((3,))
        d.t.resize((1,))
    elif op == 'element':
        d.t[0] = num('t')
        d.a[0, 0] = num('a')


def flags(d):
    leaves = [d, d.s, d.n, d.a, d.t, d.u, d.c, d.c.b, d.c.d, d.l, d.q]
    leaves += list(d.q)
    for x in d.l:
        leaves += [x, x.n, x.s, x.k] + list(x.k)
    return [(x.empty, x.complete) for x in leaves]


def compare(E, x, y, label, last=False):
    """x: data of the reference, y: of the other backend."""
    E.check('flags_agree', flags(x) == flags(y), label)
    E.check('data_agrees', same_tree(E, y.data_tree(True),
                                     x.data_tree(True)), label)
    E.check('data_without_empty_agrees', same_tree(E, y.data_tree(),
                                                   x.data_tree()), label)
    if not last:
        return
    # With several invalid nodes, any of them may be reported.
    a, b = E.outcome(x.validate), E.outcome(y.validate)
    E.check('validation_agrees', a[0] == b[0], (label, a, b))
    if a[0] == b[0] == 'exc':
        E.check('kind_of_error_agrees', type(a[1]) is type(b[1]), label)


def reload(E, s, backend, n):
    import dsch
    s.save(force=True)
    path = E.snapshot(s.storage_path, 'copy%d%s' % (n, EXT[backend]))
    close(s)
    return dsch.load(path, force=True)


STARTS = {'empty': [], 'filled': ['text', 'number', 'array', 'linked',
                                  'items', 'flags', 'dates']}


@case(grid={'backend': FILES, 'op': OPS, 'start': ['empty', 'filled']},
      grid_thorough={'op': [a + '+' + b for a in OPS for b in OPS]},
      bounds='histories from an empty or filled tree of every node type: one '
             'fixed and one arbitrary operation (thorough: one more) out of '
             '22, with arbitrary values that may break limits, saving and '
             'loading the file in between or not; the in-memory backend is '
             'the reference')
def histories(E, backend, op, start):
    if backend == 'mat' and 'dims' in op or 'dims+reshape' in op:
        E.done()
    ref = new_storage(E, 'inmem', tree_schema())
    s = new_storage(E, backend, tree_schema())
    v = Values(E)
    for i, o in enumerate(STARTS[start]):
        for x in (ref, s):
            apply(E, v, x.data, o, 'start%d' % i)
    if start == 'filled':
        compare(E, ref.data, s.data, 'start')
        s = reload(E, s, backend, 0)
    second = E.choice('op', [
        o for o in OPS if (o != 'dims' or backend != 'mat') and (
            o != 'reshape' or 'dims' not in op)
    ] if E.thorough else [
        'append', 'edit_item', 'clear_list', 'array', 'copy'])
    for i, o in enumerate(op.split('+') + [second]):
        outcomes = [E.outcome(apply, E, v, x.data, o, 'op%d' % i)
                    for x in (ref, s)]
        E.check('operation_succeeds_in_both_or_none',
                outcomes[0][0] == outcomes[1][0], (o, outcomes))
        if outcomes[0][0] == 'exc':
            E.done()
        compare(E, ref.data, s.data, o)
        if i == 0 and E.choice('reload', [True, False]):
            s = reload(E, s, backend, 1)
            compare(E, ref.data, s.data, 'loaded')
    s = reload(E, s, backend, 2)
    compare(E, ref.data, s.data, 'loaded at the end', E.thorough)
    E.check('schemas_agree', ref.schema_hash() == s.schema_hash() and
            ref.schema_node == s.schema_node)
    close(s)


@case(grid={'backend': FILES, 'op': OPS},
      bounds='validity of an empty tree after one operation with arbitrary '
             'values that may break limits, before and after loading')
def verdicts(E, backend, op):
    if backend == 'mat' and op == 'dims':
        E.done()
    ref = new_storage(E, 'inmem', tree_schema())
    s = new_storage(E, backend, tree_schema())
    v = Values(E)
    for o in ['items', op] if op in ('edit_item', 'clear_item', 'nested') \
            else [op]:
        outcomes = [E.outcome(apply, E, v, x.data, o, o) for x in (ref, s)]
        E.check('first_operation_succeeds_in_both_or_none',
                outcomes[0][0] == outcomes[1][0], (o, outcomes))
    if E.choice('reload', [True, False]):
        s = reload(E, s, backend, 0)
    compare(E, ref.data, s.data, op, True)
    close(s)
