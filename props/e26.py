"""E26: errors tell which constraint was broken, where, and by what."""
import numpy as np

from sx.case import registry
from props.common import EXT, close, new_storage

CASES, case = registry()
NMAX = 60
ASSUMPTIONS = ['limits are Python integers; no NaN elements']


def error_of(E, fn, *args):
    """The validation error, or None if accepted."""
    from dsch import exceptions
    kind, err = E.outcome(fn, *args)
    if kind == 'ok':
        return None
    E.check('it_is_a_validation_error',
            isinstance(err, exceptions.ValidationError), err)
    return err


def mentions(E, err, *words):
    text = str(err).lower()
    E.check('text_has_message_and_values', E.all(
        [err.message.lower() in text] + [w.lower() in text for w in words]))


@case(grid={'kind': ['String', 'Bytes', 'List']},
      bounds='any length up to %d, both limits arbitrary (lists: up to 3 '
             'items, limits up to 5)' % NMAX)
def lengths(E, kind):
    from dsch import schema
    top = 5 if kind == 'List' else NMAX
    lo, hi = E.int('lo', 0, top), E.int('hi', 0, top)
    if kind == 'List':
        n = E.choice('n', [0, 1, 2, 3])
        s = new_storage(E, 'inmem', schema.List(
            schema.Bool(), min_length=lo, max_length=hi))
        for _ in range(n):
            s.data.append()
    else:
        v = (E.text if kind == 'String' else E.blob)('v', top)
        n = len(v)
        s = new_storage(E, 'inmem', getattr(schema, kind)(
            min_length=lo, max_length=hi))
        s.data.value = v
    err = error_of(E, s.validate)
    if err is None:
        E.check('lengths_in_limits_are_accepted', E.all([n >= lo, n <= hi]))
        return
    E.check('actual_length_is_reported', E.same(err.got, n))
    low = 'minimum' in err.message.lower()
    E.check('message_says_which_limit', low !=
            ('maximum' in err.message.lower()))
    E.check('broken_length_limit_is_reported',
            E.all([E.same(err.expected, lo), n < lo]) if low else
            E.all([E.same(err.expected, hi), n > hi]))


@case(grid={'dtype': ['int8', 'uint64', 'int32']},
      bounds='any scalar, both limits arbitrary (70 bits)')
def scalar_range(E, dtype):
    from dsch import schema
    lo, hi = E.int('lo', -2**69, 2**69), E.int('hi', -2**69, 2**69)
    node = schema.Scalar(dtype, min_value=lo, max_value=hi)
    v = E.scalar('v', dtype)
    err = error_of(E, node.validate, v)
    n = v.item()
    if err is None:
        E.check('scalars_in_range_are_accepted', E.all([n >= lo, n <= hi]))
        return
    E.check('actual_value_is_reported', E.same(err.got, v))
    low = 'minimum' in err.message.lower()
    E.check('message_says_which_end', low !=
            ('maximum' in err.message.lower()))
    E.check('broken_range_is_reported',
            E.all([E.same(err.expected, lo), n < lo]) if low else
            E.all([E.same(err.expected, hi), n > hi]))


@case(grid={'shape': [(1,), (3,), (2, 2)]},
      bounds='arrays of up to 4 arbitrary elements, both limits arbitrary')
def element_range(E, shape):
    from dsch import schema
    lo, hi = E.int('lo', -200, 200), E.int('hi', -200, 200)
    node = schema.Array('int8', ndim=len(shape), min_value=lo, max_value=hi)
    v = E.array('v', 'int8', shape)
    err = error_of(E, node.validate, v, [])
    flat = v.reshape(-1).tolist()
    if err is None:
        E.check('elements_in_range_are_accepted',
                E.all([E.all([x >= lo, x <= hi]) for x in flat]))
        return
    low = 'minimum' in err.message.lower()
    E.check('message_says_which_element_limit', low !=
            ('maximum' in err.message.lower()))
    E.check('broken_element_limit_is_reported',
            E.same(err.expected, lo if low else hi))
    bad = [x for x in flat if (x < lo if low else x > hi)]
    E.check('exactly_the_offending_elements_are_reported',
            E.same(err.got.tolist(), bad))


@case(grid={'ndim': [1, 2]},
      bounds='any shape up to %d per dimension, arbitrary limits or none '
             'per dimension' % NMAX)
def shapes(E, ndim):
    from dsch import schema

    def limit(name):
        return tuple(E.int('%s%d' % (name, i), 1, NMAX)
                     if i == 0 or E.choice('%s%d?' % (name, i), [True, False])
                     else None for i in range(ndim))
    lo, hi = limit('lo'), limit('hi')
    node = schema.Array('int8', min_shape=lo, max_shape=hi)
    v = E.absarray('v', 'int8', ndim, NMAX)
    err = error_of(E, node.validate, v, [])
    below = E.any([v.shape[i] < lo[i] for i in range(ndim)
                   if lo[i] is not None])
    above = E.any([v.shape[i] > hi[i] for i in range(ndim)
                   if hi[i] is not None])
    if err is None:
        E.check('shapes_in_limits_are_accepted', E.no(E.any([below, above])))
        return
    low = 'minimum' in err.message.lower()
    E.check('message_says_which_shape_limit', low !=
            ('maximum' in err.message.lower()))
    E.check('broken_shape_limit_is_reported', E.all(
        [E.same(tuple(err.expected), lo if low else hi),
         below if low else above]))
    E.check('actual_shape_is_reported', E.same(tuple(err.got), v.shape))


@case(bounds='declared and actual dimensions 1..3; data types; foreign types '
             'at every leaf type')
def types(E):
    import datetime
    from dsch import schema
    what = E.choice('what', ['ndim', 'dtype', 'scalar_dtype', 'foreign'])
    if what == 'ndim':
        a, b = E.choice('a', [1, 2, 3]), E.choice('b', [1, 2, 3])
        err = error_of(E, schema.Array('int8', ndim=a).validate,
                       E.absarray('v', 'int8', b, 5), [])
        E.check('number_of_dimensions_is_reported', (a == b and err is None)
                or (a != b and err.expected == a and err.got == b))
    elif what in ('dtype', 'scalar_dtype'):
        names = ['int8', 'uint16', 'float32', 'complex64']
        a, b = E.choice('a', names), E.choice('b', names)
        if what == 'dtype':
            err = error_of(E, schema.Array(a).validate,
                           E.absarray('v', b, 1, 5), [])
        else:
            err = error_of(E, schema.Scalar(a).validate, E.scalar('v', b))
        E.check('data_types_are_reported', (a == b and err is None) or (
            a != b and np.dtype(err.expected) == np.dtype(a) and
            np.dtype(err.got) == np.dtype(b)))
    else:
        nodes = {'str': schema.String(), 'bytes': schema.Bytes(),
                 'bool': schema.Bool(), 'date': schema.Date(),
                 'time': schema.Time(), 'datetime': schema.DateTime(),
                 'ndarray': schema.Array('int8'),
                 'number': schema.Scalar('int8')}
        name = E.choice('node', sorted(nodes))
        values = [3, 'a', b'a', None, True, 1.5, [1], (1,), {},
                  datetime.time(1), np.bool_(True)]
        v = E.choice('value', values)
        args = [[]] if name == 'ndarray' else []
        err = error_of(E, nodes[name].validate, v, *args)
        fits = {'str': str, 'bytes': bytes, 'bool': bool,
                'time': datetime.time}.get(name)
        if fits is not None and isinstance(v, fits):
            E.check('fitting_types_are_accepted', err is None)
            return
        E.check('foreign_types_are_refused', err is not None)
        E.check('actual_type_is_reported', err.got is type(v))
        E.check('expected_type_is_reported',
                str(err.expected).split('.')[-1] == name)
        mentions(E, err, name, type(v).__name__)


@case(grid={'backend': ['inmem', 'hdf5']},
      bounds='an array of the wrong size, below a compilation and a list')
def linked(E, backend):
    from dsch import exceptions, schema
    s = new_storage(E, backend, schema.List(schema.Compilation({
        't': schema.Array('float64'),
        'u': schema.Array('int8', ndim=2, depends_on=(None, 't'))})))
    s.data.append()
    s.data.append()
    t = None
    if E.choice('set', [True, False]):
        s.data[1].t.value = t = E.absarray('t', 'float64', 1, 9)
    s.data[1].u.value = u = E.absarray('u', 'int8', 2, 9)
    kind, err = E.outcome(s.validate)
    if kind == 'ok':
        E.check('matching_sizes_are_accepted', t is not None and
                t.shape[0] == u.shape[1])
        return
    E.check('it_is_a_subnode_error',
            isinstance(err, exceptions.SubnodeValidationError))
    cause = err.original_cause()
    if t is None:
        E.check('empty_variable_is_reported', 'empty' in cause.message.lower()
                and cause.expected == 't' and cause.got is None)
    else:
        E.check('both_sizes_are_reported', E.all([E.same(
            cause.expected, t.shape[0]), E.same(cause.got, u.shape[1])]))
    E.check('linked_array_is_named', err.node_path() == '[1].u' and
            '[1].u' in str(err) and cause.message in str(err))
    close(s)


@case(grid={'backend': ['inmem', 'npz']},
      bounds='a text that is too long by any amount, one to six levels below '
             'the top, in compilations and lists')
def deep(E, backend):
    from dsch import exceptions, schema
    limit = E.int('limit', 0, 5)
    levels = E.choice('levels', ['c', 'l', 'cl', 'lc', 'ccc', 'lll', 'clcl',
                                 'lccl', 'ccccc', 'lclclc'])
    node = schema.String(max_length=limit)
    for c in reversed(levels):
        node = schema.Compilation({'x': node, 'y': schema.Bool()},
                                  optionals=['y']) if c == 'c' \
            else schema.List(node)
    s = new_storage(E, backend, node)
    d, path = s.data, ''
    for c in levels:
        if c == 'c':
            d, path = d.x, path + '.x'
        else:
            if E.choice('first' + path, [True, False] if len(path) < 6 else
                        [True]):
                d.append()
                d, path = d[0], path + '[0]'
            else:
                d.append()
                d.append()
                d, path = d[1], path + '[1]'
    text = E.text('text', 8)
    d.value = text
    kind, err = E.outcome(s.validate)
    if kind == 'ok':
        E.check('fitting_text_is_accepted', len(text) <= limit)
        return
    E.check('it_names_a_subnode', isinstance(
        err, exceptions.SubnodeValidationError))
    E.check('exact_path', err.node_path() == path.lstrip('.') and
            path.lstrip('.') in str(err), str(err))
    cause = err.original_cause()
    E.check('cause_is_the_validation_error', isinstance(
        cause, exceptions.ValidationError))
    E.check('cause_tells_the_limit_and_the_size', E.all([
        E.same(cause.expected, limit), E.same(cause.got, len(text))]))
    E.check('text_names_the_cause', cause.message in str(err), str(err))
    close(s)


@case(bounds='one concrete broken limit for each message')
def texts(E):
    from dsch import schema
    what = E.choice('what', ['long', 'short', 'big', 'small', 'list', 'bytes',
                             'array'])
    if what == 'long':
        err = error_of(E, schema.String(max_length=37).validate, 'x' * 41)
        mentions(E, err, 'maximum', '37', '41')
    elif what == 'short':
        err = error_of(E, schema.String(min_length=37).validate, 'x' * 29)
        mentions(E, err, 'minimum', '37', '29')
    elif what == 'bytes':
        err = error_of(E, schema.Bytes(max_length=37).validate, b'x' * 41)
        mentions(E, err, 'maximum', '37', '41')
    elif what == 'big':
        err = error_of(E, schema.Scalar('int32', max_value=-321).validate,
                       np.int32(654))
        mentions(E, err, 'maximum', '-321', '654')
    elif what == 'small':
        err = error_of(E, schema.Scalar('int32', min_value=321).validate,
                       np.int32(-654))
        mentions(E, err, 'minimum', '321', '-654')
    elif what == 'array':
        err = error_of(E, schema.Array('int32', max_value=321).validate,
                       np.array([1, 322, 5, 999], dtype='int32'), [])
        mentions(E, err, 'maximum', '321', '322', '999')
    else:
        s = new_storage(E, 'inmem', schema.List(schema.Bool(), min_length=37))
        s.data.append()
        err = error_of(E, s.validate)
        mentions(E, err, 'minimum', '37', '1')


@case(grid={'backend': ['npz', 'hdf5', 'mat']},
      bounds='errors for refused schemas, copies, assignments and paths')
def other_errors(E, backend):
    import dsch
    from dsch import exceptions, schema
    a = schema.Compilation({'x': schema.Bool()})
    b = schema.Compilation({'x': schema.Bool(), 'y': schema.Bool()})
    s = new_storage(E, backend, a)
    s.save()
    path = E.snapshot(s.storage_path, 'copy' + EXT[backend])
    what = E.choice('what', ['load', 'load_hash', 'copy', 'field', 'item',
                             'pseudo', 'detect', 'empty'])
    if what in ('load', 'load_hash'):
        kw = {'required_schema': b} if what == 'load' else \
            {'required_schema_hash': b.hash()}
        kind, err = E.outcome(lambda: dsch.load(path, **kw))
        E.check('both_schemas_are_named', kind == 'exc' and
                isinstance(err, exceptions.InvalidSchemaError) and
                a.hash() in str(err) and b.hash() in str(err))
        E.check('required_schema_comes_first', kind == 'exc' and
                str(err).index(b.hash()) < str(err).index(a.hash()))
    elif what == 'copy':
        t = new_storage(E, 'inmem', b)
        kind, err = E.outcome(t.data.load_from, s.data)
        E.check('both_nodes_are_named', kind == 'exc' and
                isinstance(err, exceptions.IncompatibleNodesError) and
                a.hash() in str(err) and b.hash() in str(err))
    elif what == 'field':
        kind, err = E.outcome(setattr, s.data, 'x', True)
        E.check('field_is_named', kind == 'exc' and isinstance(
            err, exceptions.ResetSubnodeError) and 'x.value' in str(err))
    elif what == 'item':
        t = new_storage(E, 'inmem', schema.List(schema.Bool()))
        t.data.replace([True, False])

        def assign():
            t.data[1] = True
        kind, err = E.outcome(assign)
        E.check('item_is_named', kind == 'exc' and isinstance(
            err, exceptions.ResetSubnodeError) and '[1].value' in str(err))
    elif what == 'pseudo':
        kind, err = E.outcome(dsch.PseudoStorage, path, b)
        E.check('pseudo_storage_names_both_schemas', kind == 'exc' and
                isinstance(err, exceptions.InvalidSchemaError) and
                a.hash() in str(err) and b.hash() in str(err))
        E.check('wanted_schema_comes_first', kind == 'exc' and
                str(err).index(b.hash()) < str(err).index(a.hash()))
    elif what == 'detect':
        bad = E.path('data.unknown')
        kind, err = E.outcome(dsch.create, bad, a)
        E.check('undetected_path_is_named', kind == 'exc' and isinstance(
            err, exceptions.AutodetectBackendError) and bad in str(err))
    else:
        kind, err = E.outcome(lambda: s.data.x.value)
        E.check('empty_node_error', kind == 'exc' and isinstance(
            err, exceptions.NodeEmptyError) and 'empty' in str(err))
    if kind == 'exc':
        E.check('errors_have_a_common_base',
                isinstance(err, exceptions.DschError))
    close(s)
