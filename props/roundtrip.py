"""Round trips through files, shared by R13 (npz), R14 (hdf5), R15 (mat)."""
from sx.case import registry
from props.common import (COMPLEX, EXT, FLOATS, INTS, SIMPLE, close,
                          leaf_schema, leaf_value, mixed, new_storage)
from props.n12 import same_tree

ASSUMPTIONS = [
    'values are valid for their schema node; strings contain no NUL '
    'characters or surrogates; dates and times are naive; NaN payload bits '
    'are not compared',
    'a file is read back from a copy made right after save() returned']

QUICK = SIMPLE + ['Scalar:' + d for d in ('int8', 'uint64', 'int64',
                                          'float16', 'float64',
                                          'complex128')] + [
    'Array:bool:1', 'Array:int8:1', 'Array:uint64:2', 'Array:float16:1',
    'Array:float64:2', 'Array:complex64:1', 'Array:int16:3',
    'Array:float32:0', 'Array:>i4:1', 'Array:>f8:0', 'Array:>u2:2']
FULL = SIMPLE + ['Scalar:' + d for d in INTS + FLOATS + COMPLEX] + [
    'Array:%s:%d' % (d, n) for d in INTS + FLOATS + COMPLEX + ['bool']
    for n in (0, 1, 2, 3)]


def build(backend):
    CASES, case = registry()

    def reload(E, storage, n, force=False):
        """Save, then load a copy made right afterwards."""
        import dsch
        storage.save(force=force)
        path = E.snapshot(storage.storage_path, 'copy%d%s' % (n, EXT[backend]))
        close(storage)
        new = dsch.load(path, force=force)
        E.check('schema_survives', new.schema_hash() ==
                storage.schema_hash())
        return new

    @case(grid={'kind': QUICK, 'where': ['top', 'comp', 'list', 'deep']},
          grid_thorough={'kind': FULL},
          bounds='every leaf type with an arbitrary value (texts up to 2 '
                 'characters, arrays up to 4 elements), at top level, in a '
                 'compilation, a list or deep inside')
    def leaves(E, kind, where):
        from dsch import schema
        leaf = leaf_schema(kind)
        v = leaf_value(E, 'v', kind, 2)
        if where == 'top':
            s = new_storage(E, backend, leaf)
            s.data.value = v
            get = lambda d: d
        elif where == 'comp':
            s = new_storage(E, backend, schema.Compilation(
                {'b': schema.Bool(), 'a': leaf}))
            s.data.a.value = v
            get = lambda d: d.a
        elif where == 'list':
            s = new_storage(E, backend, schema.List(leaf))
            s.data.append(v)
            get = lambda d: d[0]
        else:
            s = new_storage(E, backend, schema.Compilation({
                'l': schema.List(schema.Compilation({
                    'm': schema.List(leaf), 'c': leaf}))}))
            s.data.l.append()
            s.data.l[0].m.append()
            s.data.l[0].m.append(v)
            s.data.l[0].c.value = v
            get = lambda d: d.l[0].m[1]
        for i in range(2):
            s = reload(E, s, i)
            node = get(s.data)
            E.check('value_survives', E.same(node.value, v), i)
            E.check('node_is_not_empty', node.complete and not node.empty)
            E.check('schema_node_survives', node.schema_node == leaf)
            if where == 'comp':
                E.check('empty_field_survives', s.data.b.empty)
            elif where == 'deep':
                E.check('other_values_survive', s.data.l[0].m[0].empty and
                        E.same(s.data.l[0].c.value, v))
        close(s)

    def tree(E, k):
        from dsch import schema
        leaf = schema.Scalar('int32')
        item = mixed({'x': leaf, 'm': schema.List(leaf),
                      's': schema.String()}, k)
        return new_storage(E, backend, mixed({
            'z': leaf, 'l': schema.List(item), 'b': schema.Bytes(),
            'c': mixed({'d': leaf, 'e': item, 'k': schema.List(
                schema.List(schema.Bool()))}, k)}, k))

    @case(grid={'n': [0, 1, 2, 3]},
          bounds='a tree of nested compilations (every other field '
                 'optional) and lists, lists of 0..3 items, every leaf empty '
                 'or any value')
    def trees(E, n):
        s = tree(E, n % 2)
        d = s.data

        def maybe(node, name):
            if E.choice(name + '?', [True, False]):
                v = E.scalar(name, 'int32')
                node.value = v
                return v
            return None
        want = {'z': maybe(d.z, 'z'), 'l': [], 'b': None,
                'c': {'d': maybe(d.c.d, 'd'), 'k': [],
                      'e': {'x': None, 'm': [], 's': None}}}
        for i in range(n):
            d.l.append()
            item = {'x': None, 'm': [], 's': None}
            if i != 1:
                item['x'] = maybe(d.l[i].x, 'x%d' % i)
            for j in range(E.choice('m%d' % i, [0, 2]) if i < 2 else 1):
                d.l[i].m.append()
                item['m'].append(maybe(d.l[i].m[j], 'v%d%d' % (i, j))
                                 if j == 0 else None)
            want['l'].append(item)
        if n == 2:
            d.c.k.append()
            d.c.k.append([E.flag('k')])
            d.c.k[1].append()
            want['c']['k'] = [[], [d.c.k[1][0].value, None]]
            v = E.str('s', 1, 1, lo=1)
            d.c.e.s.value = v
            want['c']['e']['s'] = v
        s = reload(E, s, 0)
        E.check('tree_survives', same_tree(E, s.data.data_tree(True), want))
        s = reload(E, s, 1)
        E.check('tree_survives_twice',
                same_tree(E, s.data.data_tree(True), want))
        close(s)

    EDITS = ['set', 'clear', 'append', 'append_set', 'set_item',
             'clear_item', 'clear_list', 'replace_list', 'inner', 'text']

    def edit(E, d, op, m, tag):
        if op == 'set':
            d.z.value = m['z'] = E.scalar(tag, 'int32')
        elif op == 'clear':
            d.z.clear()
            m['z'] = None
        elif op == 'append':
            d.l.append()
            m['l'].append({'x': None, 'm': [], 's': None})
        elif op == 'append_set':
            v = E.scalar(tag, 'int32')
            d.l.append({'x': v, 'm': [v]})
            m['l'].append({'x': v, 'm': [v], 's': None})
        elif op == 'set_item' and m['l']:
            d.l[-1].x.value = m['l'][-1]['x'] = E.scalar(tag, 'int32')
            v = E.str(tag + 's', 2, 1, lo=1)
            d.l[0].s.value = m['l'][0]['s'] = v
        elif op == 'clear_item' and m['l']:
            d.l[0].clear()
            m['l'][0] = {'x': None, 'm': [], 's': None}
        elif op == 'clear_list':
            d.l.clear()
            m['l'] = []
        elif op == 'replace_list':
            v = E.scalar(tag, 'int32')
            d.l.replace([{'x': v}])
            m['l'] = [{'x': v, 'm': [], 's': None}]
        elif op == 'inner':
            v = E.scalar(tag, 'int32')
            d.c.d.value = m['c']['d'] = v
            d.c.e.m.append(v)
            m['c']['e']['m'].append(v)
            d.c.k.append()
            m['c']['k'].append([])
        elif op == 'text':
            d.b.value = m['b'] = E.bytes(tag + 'b', 2)

    @case(grid={'op': EDITS}, grid_thorough={
        'op': [a + '+' + b for a in EDITS for b in EDITS]},
          bounds='histories of edits with a save and load after each: a '
                 'filled tree, then one fixed and one arbitrary edit '
                 '(thorough: one more), out of 10')
    def histories(E, op):
        s = tree(E, EDITS.index(op.split('+')[0]) % 2)
        m = {'z': None, 'l': [], 'b': None, 'c': {
            'd': None, 'k': [], 'e': {'x': None, 'm': [], 's': None}}}
        for i, o in enumerate(['append_set', 'append', 'set_item', 'text']):
            edit(E, s.data, o, m, 'init%d' % i)
        s = reload(E, s, 0)
        E.check('initial_state_survives',
                same_tree(E, s.data.data_tree(True), m))
        for i, o in enumerate(op.split('+') + [E.choice('op', EDITS)]):
            edit(E, s.data, o, m, 'edit%d' % i)
            E.check('edit_is_visible',
                    same_tree(E, s.data.data_tree(True), m))
            s = reload(E, s, i + 1)
            E.check('edited_state_survives',
                    same_tree(E, s.data.data_tree(True), m), o)
        close(s)

    @case(grid={'op': EDITS},
          bounds='several saves of the same storage object; the file always '
                 'has the state of the last save')
    def repeated_saves(E, op):
        import dsch
        s = tree(E, (EDITS.index(op) + 1) % 2)
        m = {'z': None, 'l': [], 'b': None, 'c': {
            'd': None, 'k': [], 'e': {'x': None, 'm': [], 's': None}}}
        for i, o in enumerate(['append_set', 'text', op,
                               E.choice('op', EDITS)]):
            edit(E, s.data, o, m, 'edit%d' % i)
            s.save()
            path = E.snapshot(s.storage_path, 'snap%d%s' % (i, EXT[backend]))
            r = dsch.load(path)
            E.check('file_has_the_saved_state',
                    same_tree(E, r.data.data_tree(True), m), i)
            close(r)
        close(s)

    @case(grid={'kind': SIMPLE + ['Scalar:int16', 'Array:float64:1',
                                  'Array:int8:2']},
          bounds='a leaf set twice and cleared around saves')
    def leaf_changes(E, kind):
        from dsch import schema
        s = new_storage(E, backend, schema.Compilation(
            {'a': leaf_schema(kind), 'l': schema.List(leaf_schema(kind))}))
        v, w = leaf_value(E, 'v', kind, 1), leaf_value(E, 'w', kind, 2)
        s.data.a.value = v
        s.data.l.append(w)
        s = reload(E, s, 0)
        s.data.a.value = w
        s.data.l[0].value = v
        s.data.l.append(v)
        s = reload(E, s, 1)
        E.check('changed_values_survive', E.all([
            E.same(s.data.a.value, w), E.same(s.data.l[0].value, v),
            E.same(s.data.l[1].value, v)]))
        s.data.a.clear()
        s.data.l[0].clear()
        s = reload(E, s, 2)
        E.check('cleared_leaves_survive', s.data.a.empty and
                s.data.l[0].empty and len(s.data.l) == 2)
        E.check('values_survive_beside_cleared',
                E.same(s.data.l[1].value, v))
        close(s)

    @case(bounds='compilations without fields, lists of lists, empty lists')
    def corner_cases(E):
        from dsch import schema
        leaf = schema.Scalar('int32')
        empty = schema.Compilation({})
        what = E.choice('what', ['none', 'list_of_none', 'comp_of_none',
                                 'empty_list', 'list_of_empty_lists',
                                 'linked', 'limits', 'one_elem_arrays'])
        want = None
        if what == 'none':
            s = new_storage(E, backend, empty)
            want = {}
        elif what == 'list_of_none':
            s = new_storage(E, backend, schema.List(empty))
            for _ in range(2):
                s.data.append()
            want = [{}, {}]
        elif what == 'comp_of_none':
            s = new_storage(E, backend, schema.Compilation(
                {'a': empty, 'b': leaf}))
            want = {'a': {}, 'b': None}
        elif what == 'empty_list':
            s = new_storage(E, backend, schema.List(leaf))
            want = []
        elif what == 'list_of_empty_lists':
            s = new_storage(E, backend, schema.List(schema.List(leaf)))
            v = E.scalar('v', 'int32')
            n = E.choice('n', [1, 2, 3])
            for _ in range(n):
                s.data.append()
            want = [[] for _ in range(n)]
            if E.choice('set', [True, False]):
                s.data[0].append(v)
                want[0] = [v]
        elif what == 'linked':
            s = new_storage(E, backend, schema.Compilation({
                't': schema.Array('float64'), 'u': schema.Array(
                    'int8', ndim=2, depends_on=('t', None))}))
            want = {'t': E.array('t', 'float64', (2,)),
                    'u': E.array('u', 'int8', (2, E.choice('m', [1, 3])))}
            s.data.replace(want)
        elif what == 'limits':
            s = new_storage(E, backend, schema.Compilation({
                'a': schema.Array('int16', min_shape=(1, None),
                                  max_shape=(3, None)),
                'b': schema.Array('int16', min_shape=(2,), max_shape=(2,),
                                  min_value=-5),
                'c': schema.Array('int16', max_shape=(0,))}))
            want = {'a': E.array('a', 'int16', E.choice('shape', [
                (1, 1), (3, 1), (1, 2)])), 'b': E.array('b', 'int16', (2,)),
                'c': E.array('c', 'int16', (0,))}
            for x in want['b'].tolist():
                E.assume(x >= -5)
            s.data.replace(want)
        else:
            s = new_storage(E, backend, schema.List(
                schema.Array('int16', ndim=2)))
            want = [E.array('v%d' % i, 'int16', sh) for i, sh in enumerate(
                [(1, 1), (1, 2), (2, 1)])]
            s.data.replace(want)
        for i in range(2):
            s = reload(E, s, i)
            E.check('corner_case_survives',
                    same_tree(E, s.data.data_tree(True), want), what)
        close(s)

    @case(grid={'n': [11, 101]}, bounds='lists of 11 and 101 items')
    def long_lists(E, n):
        from dsch import schema
        s = new_storage(E, backend, schema.List(schema.Scalar('int32')))
        vals = [E.scalar('v%d' % i, 'int32') for i in range(n)]
        s.data.replace(vals)
        s = reload(E, s, 0)
        E.check('long_list_survives', len(s.data) == n and E.all(
            [E.same(x.value, v) for x, v in zip(s.data, vals)]))
        close(s)

    @case(grid={'how': ['comps', 'lists', 'mixed'], 'n': [4, 6, 9]},
          bounds='nesting up to 9 levels: compilations, lists and both, with '
                 'a neighbour on every level')
    def deep_nesting(E, how, n):
        from dsch import schema
        leaf = schema.Scalar('int32')
        node = leaf
        for i in range(n):
            if how == 'comps' or how == 'mixed' and i % 2:
                node = schema.Compilation({'x': leaf, 'a': node,
                                           'f%d' % i: leaf})
            else:
                node = schema.List(node)
        v = E.scalar('v', 'int32')
        vals = [E.scalar('x%d' % i, 'int32') for i in range(n)]
        want = v
        for i in range(n):
            if how == 'comps' or how == 'mixed' and i % 2:
                want = {'x': vals[i], 'a': want,
                        'f%d' % i: vals[i - 1]}
            else:
                want = [want, vals[i]] if i == 0 else [want]
        s = new_storage(E, backend, node)
        s.data.replace(want)
        for i in range(2):
            s = reload(E, s, i)
            E.check('deep_data_survives',
                    same_tree(E, s.data.data_tree(True), want), how)
        close(s)

    @case(grid={'kind': ['String', 'Bytes', 'Array']},
          bounds='one long text (700 characters, three arbitrary ones), one '
                 'long byte string, arrays of 60 elements')
    def long_values(E, kind):
        from dsch import schema
        k = 0 if kind == 'Array' else E.choice('k', [0, 254, 255, 256, 600])
        if kind == 'String':
            v = 'a\xe4' * 50 + 'b' * k + E.str('v', 3, 3, lo=1) + 'c' * 97
            leaf = schema.String()
        elif kind == 'Bytes':
            v = b'\0a\xff' * 30 + b'b' * k + E.bytes('v', 3, 3) + b'\0' * 97
            leaf = schema.Bytes()
        else:
            leaf = schema.Array('int16', ndim=2)
            v = E.array('v', 'int16', E.choice(
                'shape', [(6, 10), (60, 1), (1, 60)]))
        s = new_storage(E, backend, schema.Compilation(
            {'a': leaf, 'l': schema.List(leaf)}))
        s.data.a.value = v
        s.data.l.append(v)
        for i in range(2):
            s = reload(E, s, i)
            E.check('long_value_survives', E.all([
                E.same(s.data.a.value, v), E.same(s.data.l[0].value, v)]))
        close(s)

    @case(grid={'order': ['transposed', 'reversed', 'step', 'column',
                          'cube'], 'where': ['top', 'comp', 'list']},
          bounds='views of arrays of 3x4 or 2x3x2 elements that are not '
                 'contiguous; arbitrary elements')
    def views(E, order, where):
        from dsch import schema
        base = E.array('v', 'int16', (2, 3, 2) if order == 'cube' else (3, 4))
        view = {'transposed': lambda: base.T, 'reversed': lambda: base[::-1],
                'step': lambda: base[::2, 1::2], 'column': lambda: base[:, 1],
                'cube': lambda: base.T}[order]()
        leaf = schema.Array('int16', ndim=view.ndim)
        if where == 'top':
            s = new_storage(E, backend, leaf)
            s.data.value = view
        elif where == 'comp':
            s = new_storage(E, backend, schema.Compilation(
                {'b': schema.Bool(), 'a': leaf}))
            s.data.a.value = view
        else:
            s = new_storage(E, backend, schema.List(leaf))
            s.data.append(view)
        for i in range(2):
            s = reload(E, s, i)
            node = s.data if where == 'top' else s.data.a \
                if where == 'comp' else s.data[0]
            E.check('view_survives', E.same(node.value, view), i)
        close(s)

    @case(grid={'holes': ['none', 'third', 'most', 'last']},
          bounds='a compilation of 42 fields of 14 kinds with similar names '
                 'beside a list of three such compilations; all, two thirds, a '
                 'few or all but the last fields set')
    def wide(E, holes):
        from dsch import schema
        kinds = SIMPLE + ['Scalar:int16', 'Scalar:uint64', 'Scalar:float32',
                          'Array:int16:1', 'Array:float32:2', 'Array:bool:1',
                          'Array:>i4:1']
        names = [p + str(i) for i in range(len(kinds))
                 for p in ('x', 'X', 'xy')]
        nodes = {n: leaf_schema(kinds[i // 3]) for i, n in enumerate(names)}
        vals = {k: leaf_value(E, k, k, 1, [(2,) * int(k[-1])]
                              if k.startswith('Array') else None)
                for k in kinds}
        comp = schema.Compilation(nodes)
        s = new_storage(E, backend, schema.Compilation({
            'l': schema.List(comp), 'c': comp}))

        def content(shift):
            keep = {'none': lambda i: True, 'third': lambda i: i % 3,
                    'most': lambda i: i % 17 == 5,
                    'last': lambda i: i < len(names) - 1}[holes]
            return {n: vals[kinds[i // 3]] if keep(i + shift) else None
                    for i, n in enumerate(names)}
        want = {'c': content(0), 'l': [content(i) for i in (1, 2, 3)]}
        s.data.replace({'c': {k: v for k, v in want['c'].items()
                              if v is not None},
                        'l': [{k: v for k, v in w.items() if v is not None}
                              for w in want['l']]})
        for i in range(2):
            s = reload(E, s, i)
            E.check('wide_compilation_survives',
                    same_tree(E, s.data.data_tree(True), want))
        close(s)

    # Names that every file format supports, and the others.
    names = ['x', 'X', 'item_0', 'length', 'data', 'schema', 'dsch_schema',
             'dsch_data', 'a1_b2', 'value', 'clear', 'parent', 'name', 'dtype',
             'shape', 'attrs', 'a' * 31, 'b' * 63, 'args', 'kwds', 'files',
             'items', 'keys', 'schema2', 'length_0']
    odd = ['file', 'allow_pickle', '_schema', '_schema2', '_x', '__x__', 'c' * 64,
           '\xe4\xf6']

    @case(grid={'name': names + odd},
          bounds='%d field names, on the top level and inside' % len(
              names + odd))
    def field_names(E, name):
        from dsch import schema
        leaf = schema.Scalar('int32')
        s = new_storage(E, backend, schema.Compilation({
            name: leaf, 'c': schema.Compilation({'z': leaf, name: leaf}),
            'l': schema.List(schema.Compilation({name: leaf}))}))
        v, w = E.scalar('v', 'int32'), E.scalar('w', 'int32')
        want = {name: v, 'c': {'z': w, name: v}, 'l': [{name: None},
                                                       {name: w}]}
        s.data.replace({name: v, 'c': want['c'], 'l': [{}, {name: w}]})
        kind, new = E.outcome(reload, E, s, 0)
        if kind == 'ok':
            kind, got = E.outcome(new.data.data_tree, True)
            close(new)
        else:
            got = new
        E.check('every_field_name_survives',
                kind == 'ok' and same_tree(E, got, want), got)

    @case(grid={'n': [1, 2, 3], 'end': [True, False]},
          bounds='texts of 1..3 characters with NUL characters, at the end '
                 'or not')
    def nul_characters(E, n, end):
        from dsch import schema
        s = new_storage(E, backend, schema.Compilation(
            {'a': schema.String()}))
        v = E.str('v', n, n)
        E.assume(E.any([c == '\0' for c in v]))
        E.assume(E.iff(v[n - 1] == '\0', end))
        E.assume(E.no(E.any([E.all([c >= '\ud800', c <= '\udfff'])
                             for c in v])))
        kind, got = E.outcome(s.data.a.replace, v)
        if kind == 'ok':
            s = reload(E, s, 0)
            kind, got = E.outcome(lambda: s.data.a.value)
        E.check('nul_characters_survive', kind == 'ok' and E.same(got, v),
                got)
        close(s)

    @case(grid={'kind': ['DateTime', 'Time'], 'where': ['top', 'comp']},
          bounds='one aware date and time, one aware time')
    def time_zones(E, kind, where):
        import datetime
        from dsch import schema
        tz = datetime.timezone(datetime.timedelta(hours=2))
        v = (datetime.datetime(2017, 3, 31, 12, 59, 6, 7, tzinfo=tz)
             if kind == 'DateTime' else
             datetime.time(12, 59, 6, 7, tzinfo=tz))
        leaf = getattr(schema, kind)()
        if where == 'top':
            s = new_storage(E, backend, leaf)
            s.data.value = v
        else:
            s = new_storage(E, backend, schema.Compilation({'a': leaf}))
            s.data.a.value = v
        s.save()
        path = E.snapshot(s.storage_path, 'copy' + EXT[backend])
        close(s)
        import dsch
        s = dsch.load(path)
        got = s.data.value if where == 'top' else s.data.a.value
        E.check('clock_time_survives', got.replace(tzinfo=None) ==
                v.replace(tzinfo=None))
        E.check('time_zone_survives', got.utcoffset() == v.utcoffset())
        close(s)

    return CASES
