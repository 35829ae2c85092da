"""O28: looking at data never changes it, and always shows the current state."""
import datetime

import numpy as np
from sx.case import registry
from props.b25 import OPS, STARTS, Values, apply, compare, flags, tree_schema
from props.common import EXT, close, new_storage
from props.n12 import same_tree

CASES, case = registry()
ASSUMPTIONS = ['values have the type and number of dimensions of their schema '
               'node but may break its limits']
BACKENDS = ['inmem', 'npz', 'hdf5', 'mat']
LOOKS = ['values', 'trees', 'validate', 'print', 'schema', 'copy', 'save',
         'refused']


class Fixed(Values):
    """The initial values are fixed; printed texts and dates are as well."""

    def __init__(self, E, printed):
        super().__init__(E)
        self.printed = printed

    def get(self, fn, name, *args, **kw):
        fixed = name.startswith('start') or (self.printed and fn in (
            'scalar', 'str', 'bytes', 'date', 'datetime', 'time')) or (
                fn == 'choice' and not self.E.thorough)
        if name in self.made or not fixed:
            return super().get(fn, name, *args, **kw)
        self.made[name] = {
            'str': 'x', 'bytes': b'y', 'flag': True,
            'choice': args[0][1] if fn == 'choice' else None,
            'date': datetime.date(2020, 2, 29),
            'datetime': datetime.datetime(2020, 2, 29, 23, 59, 1, 5),
            'time': datetime.time(1, 2, 3, 4)}.get(fn)
        if fn == 'array':
            self.made[name] = self.E.array(name, *args)
        elif fn == 'scalar':
            self.made[name] = np.dtype(args[0]).type(3)
        return self.made[name]


def leaves(d):
    r = [d.s, d.n, d.a, d.t, d.u, d.c.b, d.c.d, d.c.e, d.c.f] + list(d.q)
    for x in d.l:
        r += [x.n, x.s] + list(x.k)
    return r


def look(E, s, how, tag):
    """Use the data without changing it."""
    import dsch
    d = s.data
    if how == 'values':
        flags(d)
        for x in leaves(d):
            if not x.empty:
                x.value
                x.value
        if not d.t.empty:
            d.t[0], d.t[:], d.t[-1]
    elif how == 'trees':
        d.data_tree()
        tree = d.data_tree(include_empty=True)
        tree.clear()
        d.l.data_tree().append(1)
        d.c.data_tree()
    elif how == 'validate':
        E.outcome(s.validate)
        E.outcome(d.validate)
        for x in leaves(d):
            E.outcome(x.validate)
        E.outcome(s.validate)
    elif how == 'print':
        d.node_tree()
        d.l.node_tree()
        dir(d)
        for x in leaves(d):
            x.node_tree()
    elif how == 'schema':
        s.schema_hash()
        s.schema_node.hash()
        s.schema_node.to_json()
        s.schema_node.to_dict().clear()
        s.schema_node == tree_schema()
        d.l.schema_node.hash()
    elif how == 'copy':
        t = dsch.create('::inmem::', tree_schema())
        t.data.load_from(d)
        t.data.l.clear()
        t.data.c.clear()
        t.data.s.value = 'changed'
        t.data.q.append('changed')
    elif how == 'save':
        if hasattr(s, 'save'):
            E.outcome(s.save)
            s.save(force=True)
    else:
        E.outcome(setattr, d, 's', 'x')
        E.outcome(lambda: d.l[99])
        E.outcome(lambda: d.nothing)
        E.outcome(d.s.load_from, d.n)
        if len(d.l):
            E.outcome(d.l.load_from, d.q)


@case(grid={'backend': BACKENDS, 'how': LOOKS, 'start': ['empty', 'filled']},
      grid_thorough={'how': LOOKS + [a + '+' + b for a in LOOKS for b in LOOKS
                                     if a != b]},
      bounds='histories of two operations out of 10 and 2 (thorough: 20 and 5)'
             ' with arbitrary values on an empty tree of every node type or one '
             'filled with arbitrary arrays and fixed values, in two storages; one is looked at '
             'before, between and after them')
def observer(E, backend, how, start):
    quiet = new_storage(E, backend, tree_schema(), 'quiet')
    s = new_storage(E, backend, tree_schema(), 'seen')
    v = Fixed(E, 'print' in how)
    for i, o in enumerate(STARTS[start]):
        for x in (quiet, s):
            apply(E, v, x.data, o, 'start%d' % i)
    some = [o for o in OPS if o != 'dims'] if E.thorough else ['linked', 'append', 'edit_item', 'copy',
                                   'clear_list', 'clear_part', 'resize',
                                   'element', 'some_texts', 'clear_item']
    ops = [E.choice('op0', some), E.choice('op1', [
        'edit_item', 'text', 'clear_item', 'clear_leaf', 'array'
    ] if E.thorough else ['edit_item', 'resize'])]
    for i, o in enumerate(ops):
        for h in how.split('+'):
            look(E, s, h, 'look%d' % i)
        compare(E, quiet.data, s.data, o)
        outcomes = [E.outcome(apply, E, v, x.data, o, 'op%d' % i)
                    for x in (quiet, s)]
        E.check('operation_succeeds_with_or_without_looking',
                outcomes[0][0] == outcomes[1][0], (o, outcomes))
        if outcomes[0][0] == 'exc':
            break
    look(E, s, how.split('+')[0], 'look')
    compare(E, quiet.data, s.data, ops, E.thorough or how == 'validate')
    E.check('schemas_agree', quiet.schema_hash() == s.schema_hash() and
            quiet.schema_node == s.schema_node)
    if how == 'trees':
        E.check('second_look_shows_the_same', same_tree(
            E, s.data.data_tree(True), s.data.data_tree(True)))
    close(quiet)
    close(s)


@case(grid={'backend': ['npz', 'hdf5', 'mat'], 'how': LOOKS},
      bounds='the same for a filled tree that was loaded from a file, which '
             'stays unchanged on disk unless it is saved')
def loaded(E, backend, how):
    import dsch
    s = new_storage(E, backend, tree_schema(), 'made')
    v = Fixed(E, 'print' in how)
    for i, o in enumerate(STARTS['filled'] + ['some_texts']):
        apply(E, v, s.data, o, 'start%d' % i)
    s.save(force=True)
    close(s)
    quiet, s = [dsch.load(E.snapshot(s.storage_path, n + EXT[backend]),
                          force=True) for n in ('quiet', 'seen')]
    look(E, s, how, 'look')
    compare(E, quiet.data, s.data, how)
    o = E.choice('op', ['edit_item', 'append', 'linked', 'clear_part'])
    for x in (quiet, s):
        apply(E, v, x.data, o, 'op')
    look(E, s, how, 'again')
    compare(E, quiet.data, s.data, (how, o), how == 'validate')
    for x in (quiet, s):
        x.save(force=True)
        close(x)
    quiet, s = [dsch.load(E.snapshot(x.storage_path, 'end' + n + EXT[
        backend]), force=True) for n, x in (('q', quiet), ('s', s))]
    compare(E, quiet.data, s.data, 'saved')
    close(quiet)
    close(s)


@case(grid={'backend': ['npz', 'hdf5', 'mat'], 'how': LOOKS},
      bounds='a file of one of two initial trees and arbitrary arrays is '
             'loaded, looked at and left without saving, twice')
def unsaved(E, backend, how):
    import dsch
    made = new_storage(E, backend, tree_schema(), 'made')
    v = Fixed(E, 'print' in how)
    start = E.choice('start', ['empty', 'filled'])
    for i, o in enumerate(STARTS[start]):
        apply(E, v, made.data, o, 'start%d' % i)
    made.save(force=True)
    close(made)
    paths = [E.snapshot(made.storage_path, n + EXT[backend])
             for n in ('quiet', 'seen')]
    for i in range(2):
        s = dsch.load(paths[1], force=True)
        look(E, s, how, 'look%d' % i)
        close(s)
    quiet, s = [dsch.load(p, force=True) for p in paths]
    compare(E, quiet.data, s.data, how)
    E.check('schemas_agree', quiet.schema_hash() == s.schema_hash() and
            quiet.schema_node == s.schema_node)
    close(quiet)
    close(s)


@case(grid={'part': ['unit', 'limit', 'optionals', 'subnode', 'field',
                     'depends', 'default']},
      bounds='a parameter of a schema with arbitrary limits is changed after '
             'the schema was hashed, serialised and compared')
def schema_changes(E, part):
    from dsch import schema
    lo, hi = E.int('lo', 0, 9), E.int('hi', 0, 9)

    def build(changed):
        unit = 'new' if changed and part == 'unit' else 'old'
        limit = hi if changed and part == 'limit' else lo
        fields = {'n': schema.Scalar('int16', unit=unit),
                  't': schema.Array('int8'),
                  'u': schema.Array('int8', depends_on=None if changed and
                                    part == 'depends' else 't'),
                  'l': schema.List(schema.Bool() if changed and
                                   part == 'subnode' else
                                   schema.String(max_length=limit))}
        if changed and part == 'field':
            fields['new'] = schema.Date()
        return schema.Compilation(fields, optionals=[
            'n'] if changed and part == 'optionals' else ['t'])
    node, other = build(False), build(False)
    first = node.hash()
    E.check('equal_before', node == other and first == other.hash())
    node.to_json()
    if part == 'unit':
        node.subnodes['n'].unit = 'new'
    elif part == 'limit':
        node.subnodes['l'].subnode.max_length = hi
    elif part == 'optionals':
        node.optionals = ['n']
    elif part == 'subnode':
        node.subnodes['l'].subnode = schema.Bool()
    elif part == 'field':
        node.subnodes['new'] = schema.Date()
    elif part == 'default':
        # A list that was not given by anyone belongs to one node only.
        made = schema.Compilation({'n': schema.Bool()})
        made.optionals.append('n')
        E.check('defaults_are_not_shared', len(schema.Compilation(
            {'n': schema.Bool()}).optionals) == 0)
        E.done()
    else:
        node.subnodes['u'].depends_on = None
    want = build(True)
    E.check('hash_shows_the_change', node.hash() == want.hash())
    E.check('equality_shows_the_change', node == want)
    E.check('json_shows_the_change', schema.node_from_json(
        node.to_json()) == want)
    E.check('hash_differs_iff_changed', E.iff(
        node.hash() == first, lo == hi if part == 'limit' else False))
    E.check('the_other_is_unchanged', other.hash() == first)
