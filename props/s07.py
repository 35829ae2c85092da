"""S07: the schema hash identifies the configuration."""
import numpy as np

from sx.case import registry
from props.common import LARGE, PLACES, large_schema
from props.s06 import ATTRS, make, plain

CASES, case = registry()
ASSUMPTIONS = ['SHA-256 is collision free; data types are written the same '
               'way in both schemas (a name, or a NumPy type)']


def configs_equal(E, a, b):
    """Reference: are two nodes configured identically?"""
    kind = type(a).__name__
    if type(a) is not type(b):
        return False
    c = []
    for n in ATTRS[kind]:
        x, y = plain(getattr(a, n)), plain(getattr(b, n))
        if isinstance(x, list) and isinstance(y, list):
            c.append(len(x) == len(y) and E.all(
                [E.same(p, q) for p, q in zip(x, y)]))
        else:
            c.append(E.same(x, y))
    if kind in ('Array', 'Scalar'):
        c.append(np.dtype(a.dtype) == np.dtype(b.dtype))
    return E.all(c)


def compare(E, a, b, same):
    E.check('equal_hash_iff_equal_configuration',
            E.iff(a.hash() == b.hash(), same))
    E.check('eq_iff_equal_configuration', E.iff(a == b, same))
    E.check('ne_iff_different_configuration', E.iff(a != b, E.no(same)))
    E.check('equal_json_iff_equal_configuration',
            E.iff(a.to_json() == b.to_json(), same))


KINDS = ['String', 'Bytes', 'Date', 'DateTime', 'Time', 'ScalarInt',
         'ScalarFloat', 'ArrayShape', 'ArrayLinked', 'ArrayRange']


def one(E, kind, p):
    """A node with one of the alternatives of make() and no dtype choice."""
    from dsch import schema
    if kind in ('ScalarInt', 'ScalarFloat'):
        from props.s06 import number, opt, real
        gen = (lambda n: number(E, n)) if kind == 'ScalarInt' else \
            (lambda n: real(E, n))
        return schema.Scalar(E.choice(p + 'dtype', ['int32', 'float64']),
                             unit=E.str(p + 'unit', 1),
                             max_value=opt(E, p + 'max', gen),
                             min_value=gen(p + 'min'))
    if kind == 'ArrayRange':
        from props.s06 import number
        return schema.Array('int8', unit=E.str(p + 'unit', 1),
                            ndim=E.int(p + 'ndim', 0, 5),
                            min_value=number(E, p + 'min'),
                            max_value=number(E, p + 'max'))
    return make(E, kind, p)


@case(grid={'kind': KINDS},
      bounds='two arbitrary configurations of the same leaf type')
def pairs(E, kind):
    a, b = one(E, kind, 'a.'), one(E, kind, 'b.')
    compare(E, a, b, configs_equal(E, a, b))
    E.check('hash_is_repeatable', a.hash() == a.hash())


@case(grid={'kind': ['List', 'String', 'Bytes', 'Array']},
      bounds='limits that are absent, zero, one or arbitrary')
def absent_limits(E, kind):
    from dsch import schema

    def build(p):
        lim = [E.choice(p + n, [None, 0, 1, 'any']) for n in ('min', 'max')]
        lim = [E.int(p + n + '_any', 0, 99) if x == 'any' else x
               for n, x in zip(('min', 'max'), lim)]
        if kind == 'List':
            return lim, schema.List(schema.Bool(), min_length=lim[0],
                                    max_length=lim[1])
        if kind == 'Array':
            return lim, schema.Array('int8', min_shape=(lim[0],),
                                     max_shape=(lim[1],))
        return lim, getattr(schema, kind)(min_length=lim[0],
                                          max_length=lim[1])
    p, a = build('a.')
    q, b = build('b.')
    compare(E, a, b, E.all([(x is None) == (y is None) and (
        x is None or x == y) for x, y in zip(p, q)]))


@case(bounds='nodes of two different types with equal limits')
def different_types(E):
    from dsch import schema
    lo, hi = E.int('min', 0, 99), E.int('max', 0, 99)
    flag = E.flag('flag')
    makers = {
        'String': lambda: schema.String(min_length=lo, max_length=hi),
        'Bytes': lambda: schema.Bytes(min_length=lo, max_length=hi),
        'Bool': lambda: schema.Bool(),
        'Date': lambda: schema.Date(flag),
        'DateTime': lambda: schema.DateTime(flag),
        'Time': lambda: schema.Time(flag),
        'Scalar': lambda: schema.Scalar('int8', min_value=lo, max_value=hi),
        'Array': lambda: schema.Array('int8', min_value=lo, max_value=hi),
        'List': lambda: schema.List(schema.Bool(), min_length=lo,
                                    max_length=hi),
        'Compilation': lambda: schema.Compilation({'a': schema.Bool()}),
    }
    a, b = E.choice('a', sorted(makers)), E.choice('b', sorted(makers))
    compare(E, makers[a](), makers[b](), a == b)


@case(bounds='equality with objects that are no schema nodes')
def other_objects(E):
    from dsch import schema
    node = E.choice('node', [schema.Bool(), schema.String(), schema.List(
        schema.Bool()), schema.Compilation({'a': schema.Bool()})])
    other = E.choice('other', [None, 1, 'Bool', (), {}, dict, node.to_json(),
                               node.hash(), node.to_dict()])
    E.check('never_equal_to_other_objects',
            not (node == other) and node != other)


@case(bounds='two nested schemas that differ in one arbitrary place')
def nested_pairs(E):
    from dsch import schema

    def build(p, swap):
        leaf = schema.String(max_length=E.int(p + 'max', 0, 99))
        lst = schema.List(leaf, max_length=E.int(p + 'lmax', 0, 99))
        inner = {'x': lst, 'y': schema.Scalar(
            'int8', max_value=E.int(p + 'sc', -9, 9))}
        if swap:
            inner = {'y': inner['y'], 'x': inner['x']}
        return schema.Compilation(
            {'a': schema.Compilation(inner), 'b': schema.Bool()})
    a = build('a.', False)
    b = build('b.', E.choice('swap', [False, True]))

    def vals(n):
        i = n.subnodes['a'].subnodes
        return [i['x'].subnode.max_length, i['x'].max_length,
                i['y'].max_value]
    same = E.all([x == y for x, y in zip(vals(a), vals(b))])
    compare(E, a, b, same)


NAMES = [['a'], ['b'], ['a', 'b'], ['b', 'a'], ['a', 'c'], []]


@case(bounds='field names and optional fields of compilations, six sets each')
def fields(E):
    from dsch import schema
    na, nb = E.choice('names_a', NAMES), E.choice('names_b', NAMES)
    opts = [None, [], ['a'], ['b']]
    oa, ob = E.choice('opt_a', opts), E.choice('opt_b', opts)
    a = schema.Compilation({n: schema.Bool() for n in na}, optionals=oa)
    b = schema.Compilation({n: schema.Bool() for n in nb}, optionals=ob)
    compare(E, a, b, sorted(na) == sorted(nb) and (oa or []) == (ob or []))


@case(bounds='swapped and renamed fields of arbitrary configuration')
def swapped_fields(E):
    from dsch import schema
    i, j = E.int('i', 0, 99), E.int('j', 0, 99)
    a = schema.Compilation({'p': schema.String(max_length=i),
                            'q': schema.String(max_length=j)})
    b = schema.Compilation({'q': schema.String(max_length=i),
                            'p': schema.String(max_length=j)})
    compare(E, a, b, i == j)
    c = schema.Compilation({'p': schema.List(schema.String(max_length=i)),
                            'q': schema.String(max_length=j)})
    compare(E, a, c, False)


@case(grid={'shape': LARGE},
      bounds='compilations of 40 fields, nesting of 11 levels, that differ at '
             'most in an arbitrary limit at any of 5 places')
def large(E, shape):
    from dsch import schema
    at = E.choice('at', PLACES[shape] if shape != 'items' else [0])
    lo, hi = E.int('lo', 0, 999), E.int('hi', 0, 999)
    a = large_schema(shape, lambda i: schema.String(
        max_length=lo if i == at else 7))
    b = large_schema(shape, lambda i: schema.String(
        max_length=hi if i == at else 7))
    compare(E, a, b, lo == hi)


SIMILAR = [('V', 'v'), ('V', ' V'), ('V', 'V '), ('', ' '), ('m', 'mm'),
           ('\u03a9', '\u2126'), ('\u00b5', '\u03bc'),
           ('\u00e9', 'e\u0301'), ('\u00df', 'ss'), ('\u0130', 'i'),
           ('a\nb', 'a b'), ('a"', "a'"), ('\\n', '\n'), ('1', '1.0'),
           ('null', 'None'), ('a' * 99 + 'b', 'a' * 99 + 'c'),
           ('a' * 300, 'a' * 299), ('\U0001f600', '\U0001f601'), ('x', 'x'),
           ('V.0,', 'V,'), ('V: ', 'V:'),
           (', ', ','), ('{}', '[]'), ('true', 'True'), ('V}', 'V'),
           ('\\"', '"')]


@case(grid={'where': ['unit', 'field', 'optional', 'link', 'deep']},
      bounds='26 pairs of texts that are hard to tell apart, as a unit, field '
             'name, optional field, independent variable or deep inside')
def similar_texts(E, where):
    from dsch import schema
    p, q = E.choice('pair', SIMILAR)
    if E.choice('swap', [False, True]):
        p, q = q, p

    def node(t):
        if where == 'unit':
            return schema.Scalar('int8', unit=t)
        if where == 'field':
            return schema.Compilation({t: schema.Bool(), 'k': schema.Bool()})
        if where == 'optional':
            return schema.Compilation({p: schema.Bool(), q: schema.Bool()},
                                      optionals=[t])
        if where == 'link':
            return schema.Array('int8', ndim=2, depends_on=(None, t))
        return schema.List(schema.Compilation({
            'a': schema.List(schema.Array('int8', unit=t))}))
    if where == 'link' and not (p and q):
        return
    compare(E, node(p), node(q), p == q)


CLOSE = [(2**53, 2**53 + 1), (0.1 + 0.2, 0.3), (1e308, float('inf')),
         (float('inf'), None), (-float('inf'), float('inf')), (0, None),
         (5e-324, 0.0), (1e16, 1e16 + 2), (2**64, 2**64 + 1), (-1, 1),
         (1.5, 1), (12, 1.2), (100000, 1e6), (255, -1), (0.1, 0.1)]


@case(grid={'node': ['Scalar', 'Array'], 'which': ['min', 'max', 'both']},
      bounds='15 pairs of limits that are close to each other, and limits '
             'that are exchanged')
def similar_limits(E, node, which):
    from dsch import schema
    x, y = E.choice('pair', CLOSE)
    cls = getattr(schema, node)
    if which == 'both':
        compare(E, cls('float64', min_value=x, max_value=y),
                cls('float64', min_value=y, max_value=x), x == y)
        compare(E, cls('float64', min_value=x), cls('float64', max_value=x),
                x is None)
    else:
        compare(E, cls('float64', **{which + '_value': x}),
                cls('float64', **{which + '_value': y}), x == y)
