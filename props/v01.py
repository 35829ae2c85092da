"""V01: simple leaf nodes and lists accept exactly what their schema allows."""
import datetime

import numpy as np

from sx.case import registry

CASES, case = registry()
ASSUMPTIONS = ['length limits are integers in [0, 5000] or absent']

NMAX = 5000


def limits(E):
    lo = E.choice('has_min', [False, True])
    hi = E.choice('has_max', [False, True])
    return (E.int('min_length', 0, NMAX) if lo else None,
            E.int('max_length', 0, NMAX) if hi else None)


def within(E, n, lo, hi):
    c = []
    if lo is not None:
        c.append(n >= lo)
    if hi is not None:
        c.append(n <= hi)
    return E.all(c)


def verdict(E, fn, *args):
    """True if accepted, False if rejected with a ValidationError."""
    from dsch import exceptions
    kind, r = E.outcome(fn, *args)
    if kind == 'ok':
        return True
    E.check('rejects_by_validation_error',
            isinstance(r, exceptions.ValidationError), r)
    return False


def stored(E, schema_node, value):
    """Validation verdicts of a schema node and of data nodes below it."""
    import dsch
    v = verdict(E, schema_node.validate, value)
    storage = dsch.create('::inmem::', schema_node)
    storage.data.value = value
    E.check('data_node_agrees', verdict(E, storage.validate) == v)
    return v


@case(grid={'kind': ['String', 'Bytes']},
      bounds='one text of any length 0..5000, limits absent or 0..5000')
def length_limits(E, kind):
    from dsch import schema
    lo, hi = limits(E)
    node = getattr(schema, kind)(min_length=lo, max_length=hi)
    value = E.text('value', NMAX) if kind == 'String' else \
        E.blob('value', NMAX)
    ok = stored(E, node, value)
    E.check('accepts_iff_length_in_limits',
            E.iff(ok, within(E, len(value), lo, hi)))


@case(grid={'kind': ['String', 'Bytes']},
      bounds='texts of 0..3 arbitrary characters/bytes; limits 0..5')
def any_content(E, kind):
    from dsch import schema
    lo = E.int('min_length', 0, 5)
    hi = E.int('max_length', 0, 5)
    node = getattr(schema, kind)(min_length=lo, max_length=hi)
    value = E.str('value', 3) if kind == 'String' else E.bytes('value', 3)
    ok = stored(E, node, value)
    E.check('content_is_irrelevant',
            E.iff(ok, within(E, len(value), lo, hi)))


def samples(E):
    """One value of each type that leaf nodes may meet."""
    return {
        'none': lambda: None,
        'bool': lambda: E.choice('b', [True, False]),
        'npbool': lambda: np.bool_(E.choice('b', [True, False])),
        'int': lambda: E.int('i', -3, 3),
        'float': lambda: E.float('f'),
        'npint': lambda: E.scalar('n', 'int32'),
        'npfloat': lambda: E.scalar('nf', 'float64'),
        'str': lambda: E.str('s', 2),
        'bytes': lambda: E.bytes('y', 2),
        'bytearray': lambda: bytearray(b'ab'),
        'date': lambda: E.date('d'),
        'datetime': lambda: E.datetime('dt'),
        'time': lambda: E.time('t'),
        'list': lambda: [],
        'strlist': lambda: ['a'],
        'dict': lambda: {},
        'array': lambda: np.zeros(2),
        'chararray': lambda: np.array('abc'),
        'bytesarray': lambda: np.array(b'abc'),
        'type': lambda: str,
        'timedelta': lambda: datetime.timedelta(1),
    }


ACCEPTS = {
    'String': ['str'], 'Bytes': ['bytes'], 'Bool': ['bool'],
    'Date': ['date'], 'DateTime': ['datetime'], 'Time': ['time'],
}


@case(grid={'kind': sorted(ACCEPTS)},
      bounds='a value of each of 21 types, contents symbolic')
def value_types(E, kind):
    from dsch import schema
    node = getattr(schema, kind)()
    table = samples(E)
    if kind == 'Date':
        del table['datetime']       # a datetime is a date in Python
    which = E.choice('type', sorted(table))
    ok = verdict(E, node.validate, table[which]())
    E.check('accepts_iff_type_matches', ok == (which in ACCEPTS[kind]))


@case(grid={'kind': ['Date', 'DateTime', 'Time']},
      bounds='every valid date/time (years 1..9999, microseconds)')
def dates(E, kind):
    from dsch import schema
    node = getattr(schema, kind)(set_on_create=E.flag('set_on_create'))
    value = {'Date': E.date, 'DateTime': E.datetime,
             'Time': E.time}[kind]('value')
    E.check('accepts_every_date', verdict(E, node.validate, value))
    E.check('accepts_date_node', stored(E, node, value))


@case(grid={'kind': ['DateTime', 'Time']},
      bounds='dates and times with a time zone, with fold, and the earliest '
             'and the latest one')
def aware(E, kind):
    from dsch import schema
    t = datetime.time if kind == 'Time' else datetime.datetime
    head = [] if kind == 'Time' else [2020, 10, 25]
    zone = datetime.timezone(datetime.timedelta(hours=2))
    value = E.choice('value', [
        t(*head, 2, 30, tzinfo=datetime.timezone.utc),
        t(*head, 0, 0, tzinfo=zone), t(*head, 2, 30, 0, 1, fold=1),
        t(*head, 23, 59, 59, 999999, zone, fold=1), t.min, t.max])
    node = getattr(schema, kind)()
    E.check('accepts_every_time', verdict(E, node.validate, value))


@case(bounds='lists of 0..4 and of 40 items, limits absent or 0..5000')
def list_length(E):
    import dsch
    from dsch import schema
    lo, hi = limits(E)
    n = E.choice('n', [0, 1, 2, 3, 4, 40])
    item = E.choice('item', ['leaf', 'empty', 'compilation', 'list'])
    sub = {'leaf': schema.String(), 'empty': schema.String(),
           'compilation': schema.Compilation({'a': schema.Bool()}),
           'list': schema.List(schema.Bool())}[item]
    node = schema.List(sub, min_length=lo, max_length=hi)
    storage = dsch.create('::inmem::', node)
    for _ in range(n):
        if item == 'leaf':
            storage.data.append('x')
        else:
            storage.data.append()
    ok = verdict(E, storage.validate)
    E.check('list_accepts_iff_length_in_limits',
            E.iff(ok, within(E, n, lo, hi)))
