"""D22: set_on_create fills new nodes with the current local time, once."""
import datetime

from sx.case import registry
from props.common import EXT, close, new_storage

CASES, case = registry()
ASSUMPTIONS = ['the clock returns arbitrary local instants of 1970..2100 that '
               'never go back; local and UTC time are unrelated']
FILES = ['npz', 'hdf5', 'mat']
BACKENDS = ['inmem'] + FILES
KINDS = ['Date', 'DateTime', 'Time']


def between(E, kind, v, t0, t1):
    """v is an instant from t0 to t1, as far as the type says so."""
    if kind == 'DateTime':
        return E.all([E.is_a(v, datetime.datetime), v >= t0, v <= t1])
    if kind == 'Date':
        return E.all([E.is_a(v, datetime.date), v >= t0.date(),
                      v <= t1.date()])
    return E.all([E.is_a(v, datetime.time), E.implies(
        t0.date() == t1.date(), E.all([v >= t0.time(), v <= t1.time()]))])


def build(kind, where):
    """(schema, [getters of the set nodes], [getters of the others])."""
    from dsch import schema
    auto = getattr(schema, kind)(set_on_create=True)
    off = getattr(schema, kind)(set_on_create=False)
    default = getattr(schema, kind)()
    if where == 'top':
        return auto, [lambda d: d], []
    if where == 'comp':
        return (schema.Compilation({'a': auto, 'b': off, 'c': default}),
                [lambda d: d.a], [lambda d: d.b, lambda d: d.c])
    return (schema.Compilation({'x': schema.Compilation(
        {'y': schema.Compilation({'a': auto, 'b': off})}), 'z': auto}),
        [lambda d: d.x.y.a, lambda d: d.z], [lambda d: d.x.y.b])


@case(grid={'backend': BACKENDS, 'kind': KINDS,
            'where': ['top', 'comp', 'deep']},
      bounds='an arbitrary time of creation; nodes at top level, in a '
             'compilation, or deep inside')
def created(E, backend, kind, where):
    import dsch
    node, sets, others = build(kind, where)
    t0 = datetime.datetime.now()
    s = new_storage(E, backend, node)
    t1 = datetime.datetime.now()
    for get in others:
        E.check('others_are_empty', get(s.data).empty)
    vals = []
    for get in sets:
        E.check('node_is_set', get(s.data).complete)
        vals.append(get(s.data).value)
        E.check('value_is_the_time_of_creation',
                between(E, kind, vals[-1], t0, t1))
        E.check('value_stays', E.same(get(s.data).value, vals[-1]))
    if backend != 'inmem':
        s.save()
        path = E.snapshot(s.storage_path, 'copy' + EXT[backend])
        close(s)
        s = dsch.load(path)
        for get, v in zip(sets, vals):
            E.check('loading_keeps_the_time', E.same(get(s.data).value, v))
        for get in others:
            E.check('others_stay_empty', get(s.data).empty)
    s.data.clear()
    for get in sets:
        E.check('clear_empties_the_node', get(s.data).empty)
    if backend != 'inmem':
        s.save()
        path = E.snapshot(s.storage_path, 'cleared' + EXT[backend])
        close(s)
        s = dsch.load(path)
        for get in sets + others:
            E.check('cleared_node_stays_empty_when_loaded',
                    get(s.data).empty)
    close(s)


@case(grid={'backend': BACKENDS, 'kind': KINDS, 'how': ['item', 'comp']},
      bounds='items appended at two arbitrary times; set on append only')
def appended(E, backend, kind, how):
    import dsch
    from dsch import schema
    auto = getattr(schema, kind)(set_on_create=True)
    if how == 'item':
        node, get = schema.List(auto), lambda d, i: d[i]
    else:
        node, get = (schema.List(schema.Compilation({'a': auto})),
                     lambda d, i: d[i].a)
    s = new_storage(E, backend, node)
    E.check('new_list_is_empty', len(s.data) == 0)
    vals = []
    for i in range(2):
        t0 = datetime.datetime.now()
        s.data.append()
        t1 = datetime.datetime.now()
        vals.append(get(s.data, i).value)
        E.check('item_has_the_time_of_append',
                between(E, kind, vals[i], t0, t1))
        if i:
            E.check('first_item_keeps_its_time',
                    E.same(get(s.data, 0).value, vals[0]))
    new = {'Date': E.date, 'DateTime': E.datetime, 'Time': E.time}[kind]('v')
    s.data.append(new if how == 'item' else {'a': new})
    E.check('given_value_is_used', E.same(get(s.data, 2).value, new))
    t0 = datetime.datetime.now()
    s.data.append()
    t1 = datetime.datetime.now()
    E.check('later_item_has_the_time_of_append',
            between(E, kind, get(s.data, 3).value, t0, t1))
    get(s.data, 1).clear()
    if backend != 'inmem':
        s.save()
        path = E.snapshot(s.storage_path, 'copy' + EXT[backend])
        close(s)
        s = dsch.load(path)
    E.check('times_survive', E.all([
        E.same(get(s.data, 0).value, vals[0]), get(s.data, 1).empty,
        E.same(get(s.data, 2).value, new)]))
    close(s)


@case(grid={'src': BACKENDS, 'dst': BACKENDS, 'kind': KINDS},
      bounds='copies have the time of the source, or none if it was cleared')
def copied(E, src, dst, kind):
    import dsch
    from dsch import schema
    auto = getattr(schema, kind)(set_on_create=True)
    s = new_storage(E, src, schema.Compilation(
        {'a': auto, 'l': schema.List(auto), 'c': auto}), 'source')
    s.data.l.append()
    s.data.l.append()
    s.data.l[0].clear()
    s.data.c.clear()
    a, b = s.data.a.value, s.data.l[1].value
    path = '::inmem::' if dst == 'inmem' else E.path('target' + EXT[dst])
    d = dsch.create_from(path, s)
    E.check('copy_has_the_time_of_the_source', E.all([
        E.same(d.data.a.value, a), E.same(d.data.l[1].value, b)]))
    E.check('copy_of_empty_is_empty', d.data.c.empty and d.data.l[0].empty)
    close(s)
    close(d)


@case(grid={'src': BACKENDS, 'dst': BACKENDS, 'kind': KINDS,
            'where': ['top', 'comp', 'deep']},
      bounds='a source whose nodes were cleared, all of them or all but one, '
             'loaded or not; copied by load_from, create_from or save_as')
def copied_empty(E, src, dst, kind, where):
    import dsch
    node, sets, others = build(kind, where)
    s = new_storage(E, src, node, 'source')
    keep = E.choice('keep', [None, 0][:len(sets)])
    vals = [get(s.data).value for get in sets]
    for i, get in enumerate(sets):
        if i != keep:
            get(s.data).clear()
    if src != 'inmem' and E.choice('loaded', [False, True]):
        s.save()
        path = E.snapshot(s.storage_path, 'loaded' + EXT[src])
        close(s)
        s = dsch.load(path)
    how = E.choice('how', ['load_from', 'create_from', 'save_as'])
    path = '::inmem::' if dst == 'inmem' else E.path('target' + EXT[dst])
    if how == 'create_from':
        d = dsch.create_from(path, s)
    elif how == 'save_as':
        d = s.save_as(path)
    else:
        d = new_storage(E, dst, node, 'target')
        d.data.load_from(s.data)
    for i, get in enumerate(sets):
        if i == keep:
            E.check('copy_has_the_value_of_the_source',
                    E.same(get(d.data).value, vals[i]))
        else:
            E.check('copy_of_cleared_node_is_empty', get(d.data).empty, how)
    for get in others:
        E.check('copy_of_unset_node_is_empty', get(d.data).empty)
    close(s)
    close(d)


@case(grid={'backend': BACKENDS, 'kind': KINDS},
      bounds='12 items appended; one of them, at any of 3 places, is cleared')
def many_items(E, backend, kind):
    import dsch
    from dsch import schema
    auto = getattr(schema, kind)(set_on_create=True)
    s = new_storage(E, backend, schema.List(auto))
    t0 = datetime.datetime.now()
    for i in range(12):
        s.data.append()
    t1 = datetime.datetime.now()
    vals = [x.value for x in s.data]
    E.check('every_item_is_set', all([not x.empty for x in s.data]))
    for i in (0, 11):
        E.check('item_has_the_time_of_append',
                between(E, kind, vals[i], t0, t1))
    at = E.choice('at', [0, 9, 11])
    s.data[at].clear()
    if backend != 'inmem':
        s.save()
        path = E.snapshot(s.storage_path, 'copy' + EXT[backend])
        close(s)
        s = dsch.load(path)
    E.check('cleared_item_stays_empty', s.data[at].empty)
    E.check('other_items_keep_their_time', E.all([
        E.same(s.data[i].value, vals[i]) for i in range(12) if i != at]))
    close(s)
