"""Interception of calls made by the code under test.

Every call expression of the code under test goes through `call`.  Calls to
Python functions (of the code under test, the harness or the models) are made
as they are.  Calls to C functions with symbolic arguments are given to a
handler; without a handler the path is reported as unsupported.
"""
import builtins
import copy
import datetime
import functools
import hashlib
import json
import operator
import os
import string
import types

import numpy as np
import z3

from . import npsym as N
from . import values as V
from .engine import Unsupported, cur
from .npsym import SGen, SNd, has_sym
from .values import (Sym, SymBool, SymBytes, SymFloat, SymInt, SymStr,
                     isinstance_sym, mkbool, mkint)

ALWAYS = {}     # function -> handler, used for every call
HANDLERS = {}   # function -> handler, used with symbolic arguments

# C functions that may be given symbolic values as they are.
SAFE = {isinstance, issubclass, getattr, setattr, hasattr, delattr, iter, next,
        zip, enumerate, map, filter, list, tuple, dict, id, callable, super,
        reversed, print, copy.copy, copy.deepcopy, object, slice, vars, any,
        all, BaseException, property, staticmethod, classmethod,
        types.SimpleNamespace, operator.eq, operator.ne, operator.lt,
        operator.le, operator.gt, operator.ge, sorted, functools.reduce}
SAFE_SELF = (list, dict, tuple, types.MappingProxyType)


def call(fn, *args, **kw):
    try:
        h = ALWAYS.get(fn)
    except TypeError:
        h = None
    if h is not None:
        return h(*args, **kw)
    t = type(fn)
    if t is types.FunctionType or t is types.MethodType:
        if t is types.FunctionType:
            h = HANDLERS.get(fn)
            if h is not None and (has_sym(args) or has_sym(kw)):
                return h(*args, **kw)
            mod = fn.__module__ or ''
            if mod.split('.')[0] in ('numpy', 'scipy', 'h5py') and \
                    (has_sym(args) or has_sym(kw)):
                return fallback(fn, args, kw)
        else:
            h = HANDLERS.get(fn.__func__)
            if h is not None and (has_sym(args) or has_sym(kw)):
                return h(fn.__self__, *args, **kw)
        return fn(*args, **kw)
    if t is functools.partial:
        return call(fn.func, *fn.args, *args, **dict(fn.keywords, **kw))
    slf = getattr(fn, '__self__', None)
    if slf is datetime.date or slf is datetime.datetime:
        n = fn.__name__
        if n in ('now', 'today', 'utcnow'):
            return clock(slf, n, args, kw)
        if n == 'combine' and has_sym(args) and len(args) == 2:
            return V.make_date(datetime.datetime,
                               tuple(args[0].f if isinstance_sym(args[0])
                                     else (args[0].year, args[0].month,
                                           args[0].day))
                               + tuple(args[1].f if isinstance_sym(args[1])
                                       else (args[1].hour, args[1].minute,
                                             args[1].second,
                                             args[1].microsecond)))
    if (fn is str or fn is repr) and len(args) == 1 and not kw:
        m = own_text(args[0], fn.__name__)
        if m is not None:
            return m(args[0])
    if type(slf) is str and fn.__name__ == 'format' and any(
            own_text(x) is not None for x in [*args, *kw.values()]):
        return str_format(slf, args, kw)
    if not (has_sym(args) or has_sym(kw)):
        return fn(*args, **kw)
    # symbolic arguments -----------------------------------------------
    try:
        h = HANDLERS.get(fn)
    except TypeError:
        h = None
    if h is not None:
        return h(*args, **kw)
    if isinstance(fn, type):
        if issubclass(fn, np.generic):
            return np_type(fn, *args, **kw)
        if issubclass(fn, BaseException) or fn in SAFE:
            return fn(*args, **kw)
        if type(fn.__init__) is types.FunctionType or \
                type(fn.__new__) is types.FunctionType:
            return fn(*args, **kw)
    try:
        if fn in SAFE:
            return fn(*args, **kw)
    except TypeError:
        pass
    if slf is not None and not isinstance(slf, types.ModuleType):
        if isinstance(slf, str) and not isinstance_sym(slf):
            return str_method(slf, fn.__name__, args, kw)
        if isinstance(slf, bytes) and not isinstance_sym(slf):
            return bytes_method(slf, fn.__name__, args, kw)
        if isinstance(slf, SAFE_SELF):
            return fn(*args, **kw)
        if isinstance(slf, np.ndarray) and type(slf) is np.ndarray and \
                slf.dtype == object and fn.__name__ in ('fill',):
            return fn(*args, **kw)
        if isinstance(slf, type) and fn.__name__ == 'fromiter':
            pass
    if hasattr(type(fn), '__call__') and \
            type(type(fn).__call__) is types.FunctionType:
        return fn(*args, **kw)
    if t is types.MethodWrapperType or t is types.BuiltinFunctionType and \
            isinstance(slf, super):
        return fn(*args, **kw)
    if any(type(a) is SymFmt for a in args):
        return call(fn, *[a._concrete() if type(a) is SymFmt else a
                          for a in args], **kw)
    return fallback(fn, args, kw)


def fallback(fn, args, kw):
    """Call a function that is not modelled, with single picked values.

    Special values are tried as well; the path is marked as undecided.
    """
    pa, pk = V.picked(args), V.picked(kw)
    arrays = [(x, y.copy(), y) for x, y in zip(
        list(args) + list(kw.values()), list(pa) + list(pk.values()))
        if type(x) is SNd]
    r = fn(*pa, **pk)
    for x, y, z in arrays:
        if y.shape != z.shape or y.tobytes() != z.tobytes():
            if y.shape != z.shape or x.a is None:
                cur().stop(Unsupported('call of %s' % getattr(
                    fn, '__qualname__', repr(fn))))
            x.a[...] = N.to_obj(z)
    return r


def handler(*fns, always=False):
    def deco(h):
        for f in fns:
            (ALWAYS if always else HANDLERS)[f] = h
        return h
    return deco


# ------------------------------------------------------------------ builtins
@handler(len)
def _len(x):
    if issubclass(type(x), V._SymSeq) or type(x) is SNd:
        return x._len()
    return len(x)


@handler(type)
def _type(*a):
    if len(a) == 1:
        return a[0].__class__
    return type(*a)


@handler(bool)
def _bool(x=False):
    t = type(x)
    if t is SymBool:
        return x
    if t is SymInt:
        return mkbool(x.t != 0)
    if t is SGen and x.kind == 'b':
        return mkbool(x.val)
    if t is SGen and x.kind in 'iu':
        return mkbool(x.val != 0)
    if t is SNd and x.a is not None and x.size == 1 and x.dtype.kind in 'biu':
        return _bool(x.items()[0])
    if t is SymFloat:
        return mkbool(z3.Not(z3.fpIsZero(x.t)))
    return bool(x)


@handler(int)
def _int(x=0, *a):
    t = type(x)
    if a:
        return int(V.concrete(x), *a)
    if t in (SymInt,):
        return x
    if t is SymBool:
        return x._asint()
    if t is SGen and x.kind in 'iub':
        return mkint(N.as_int(x))
    if t is SNd:
        return _int(x.item())
    return int(V.concrete(x))


@handler(float)
def _float(x=0.0):
    t = type(x)
    if t is SymFloat:
        return x
    if t is SGen and x.kind == 'f':
        return x.item()
    return float(V.concrete(x))


def own_text(x, how='str'):
    """The method that makes the text of an object, if written in Python."""
    t = type(x)
    if how == 'str' and t.__format__ is not object.__format__:
        return None
    m = t.__str__ if how == 'str' else t.__repr__
    return m if type(m) is types.FunctionType and \
        m.__module__.split('.')[0] == 'dsch' else None


def format_obj(obj, spec):
    m = own_text(obj) if not spec else None
    if m is not None:
        return m(obj)
    return _format(obj, spec) if has_sym(obj) else format(obj, spec)


@handler(str)
def _str(x='', *a):
    t = type(x)
    if a:
        return call(x.decode, *a)
    if t is SymStr or t is V.SymJson or (t is V.SymHash and x.hexed):
        return x
    if t is SNd and x.a is not None and not x.shape and x.dtype.kind == 'U':
        r = x[()]
        return r if isinstance_sym(r) else str(r)
    if t is SymFmt:
        return x
    if t is SymBool:
        return str(bool(x))
    return SymFmt([('s', x, '')])


@handler(repr)
def _repr(x):
    if type(x) is SymBool:
        return repr(bool(x))
    return SymFmt([('r', x, '')])


@handler(format)
def _format(x, spec=''):
    if not spec:
        return _str(x)
    return SymFmt([('f', x, spec)])


class SymFmt(Sym):
    """Text with formatted symbolic values, resolved only when needed."""
    __slots__ = ('parts', 'text')

    def __init__(self, parts):
        self.parts = parts
        self.text = None

    @property
    def __class__(self):
        return str

    def _concrete(self):
        if self.text is None:
            out = []
            for p in self.parts:
                if type(p) is not tuple:
                    out.append(p if type(p) is str else V.concrete(p))
                    continue
                k, x, spec = p
                x = deep_concrete(x)
                out.append(str(x) if k == 's' else repr(x) if k == 'r'
                           else format(x, spec))
            self.text = ''.join(out)
        return self.text

    def __str__(self):
        return self._concrete()

    def __eq__(self, o):
        if self is o:
            return True
        if not isinstance(o, str):
            return False
        return self._concrete() == V.concrete(o)

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(self._concrete())

    def __add__(self, o):
        if not isinstance(o, str):
            raise TypeError('can only concatenate str')
        return str_concat([self, o])

    def __radd__(self, o):
        if not isinstance(o, str):
            raise TypeError('can only concatenate str')
        return str_concat([o, self])

    def __bool__(self):
        return bool(self._concrete())


def _fmt_methods():
    for n in dir(str):
        if n in SymFmt.__dict__ or n in (
                '__getattribute__', '__init_subclass__', '__subclasshook__',
                '__new__', '__init__', '__reduce__', '__reduce_ex__',
                '__setattr__', '__delattr__', '__sizeof__', '__dir__',
                '__doc__', '__getnewargs__', '__getstate__', '__class__'):
            continue

        def f(self, *a, _n=n, **k):
            return getattr(self._concrete(), _n)(
                *[deep_concrete(x) for x in a], **k)
        setattr(SymFmt, n, f)


_fmt_methods()


def deep_concrete(x):
    t = type(x)
    if isinstance_sym(x):
        return x._concrete()
    if t in (list, tuple):
        return t(deep_concrete(y) for y in x)
    if t is dict:
        return {k: deep_concrete(v) for k, v in x.items()}
    return x


@handler(bytes)
def _bytes(x=b'', *a):
    t = type(x)
    if t is SymBytes:
        return x
    if t is SymStr and a:
        return x.encode(*a)
    if t is SNd:
        if x.dtype.kind in 'SV' and x.a is not None:
            return x.tobytes()
        if x.dtype.itemsize == 1:
            return x.tobytes()
        cur().stop(Unsupported('bytes of an array'))
    if t in (list, tuple):
        items = []
        for v in x:
            it = N.as_int(v)
            if not bool(mkbool(z3.And(it >= 0, it <= 255))):
                raise ValueError('bytes must be in range(0, 256)')
            s = z3.simplify(it)
            items.append(s.as_long() if z3.is_int_value(s) else s)
        return SymBytes._mk(items)
    if isinstance(x, str):
        raise TypeError('string argument without an encoding')
    return bytes(V.concrete(x))


@handler(abs)
def _abs(x):
    if type(x) in (SymInt,):
        return abs(x)
    return abs(V.concrete(x))


def _minmax(op):
    def f(*args, key=None, **kw):
        its = list(args[0]) if len(args) == 1 else list(args)
        if not its:
            if 'default' in kw:
                return kw['default']
            raise ValueError('arg is an empty sequence')
        key = key or (lambda x: x)
        r = its[0]
        for x in its[1:]:
            if op(key(x), key(r)):
                r = x
        return r
    return f


HANDLERS[min] = _minmax(operator.lt)
HANDLERS[max] = _minmax(operator.gt)


@handler(sum)
def _sum(xs, start=0):
    for x in xs:
        start = start + x
    return start


@handler(range)
def _range(*a):
    return range(*[operator.index(x) for x in a])


@handler(hash)
def _hash(x):
    return hash(x)


@handler(ord)
def _ord(c):
    its = c._need()
    if len(its) != 1:
        raise TypeError('ord() expected a character')
    return its[0] if isinstance(its[0], int) else SymInt(its[0])


@handler(set, frozenset)
def _set(xs=()):
    return set(V.concrete(x) for x in xs)


@handler(datetime.date)
def _date(*a, **k):
    return mkdate(datetime.date, a, k)


@handler(datetime.time)
def _time(*a, **k):
    return mkdate(datetime.time, a, k)


@handler(datetime.datetime)
def _datetime(*a, **k):
    return mkdate(datetime.datetime, a, k)


def mkdate(cls, a, k):
    names = V._DATECLS[cls]._names
    vals = list(a)
    for n in names[len(vals):]:
        if n in k:
            vals.append(k.pop(n))
        elif k:
            vals.append(0)
    if any(v is not None for v in k.values()):
        cur().stop(Unsupported('datetime keyword'))
    vals = [v.item() if type(v) is SGen else v for v in vals]
    return V.make_date(cls, vals)


# --------------------------------------------------------------------- clock
def clock(cls, name, args, kw):
    """The clock returns arbitrary non-decreasing instants."""
    p = cur()
    if (args and args[0] is not None) or kw.get('tz') is not None:
        p.stop(Unsupported('clock with a time zone'))
    kind = 'utc' if name == 'utcnow' else 'local'
    i = len(p.clock)
    names = V.SymDateTime._names
    f = []
    los = (1970, 1, 1, 0, 0, 0, 0)
    his = (2100, 12, 31, 23, 59, 59, 999999)
    for n in names:
        t = z3.Int('clock%d_%s' % (i, n))
        f.append(SymInt(t))
    for x, lo, hi in zip(f, los, his):
        p.assume(z3.And(x.t >= lo, x.t <= hi))
    p.assume(V.date_valid(datetime.datetime, f))
    v = V.SymDateTime(f)
    for k, w in reversed(p.clock):
        if k == kind:
            p.assume(V.bterm(w <= v))
            break
    p.clock.append((kind, v))
    if cls is datetime.date:
        return v.date()
    return v


# ------------------------------------------------------------------- strings
def str_method(s, name, args, kw):
    if name == 'format':
        return str_format(s, args, kw)
    if name == 'join':
        out = []
        for i, x in enumerate(args[0]):
            if not isinstance(x, str):
                raise TypeError('sequence item %d: expected str' % i)
            if i:
                out.append(s)
            out.append(x)
        return str_concat(out)
    args = [a._concrete() if type(a) is SymFmt else a for a in args]
    if not has_sym(args):
        return getattr(s, name)(*args, **kw)
    return getattr(SymStr(list(map(ord, s))), name)(*args, **kw)


def bytes_method(s, name, args, kw):
    if name == 'join':
        out = SymBytes([])
        for i, x in enumerate(args[0]):
            if i:
                out = out + s
            out = out + x
        return out
    return getattr(SymBytes(list(s)), name)(*args, **kw)


def str_concat(parts):
    its = []
    if any(type(x) in (SymFmt, V.SymHash, V.SymJson) or
           type(x) is SymStr and x.items is None
           for x in parts):
        out = []
        for x in parts:
            out += x.parts if type(x) is SymFmt else [x]
        return SymFmt(out)
    for x in parts:
        if type(x) is SymStr:
            its += list(x._need())
        elif isinstance_sym(x):
            its += list(map(ord, str(x)))
        else:
            its += list(map(ord, x))
    return SymStr._mk(its)


_fmt = string.Formatter()


def str_format(s, args, kw):
    out = []
    auto = 0
    for lit, field, spec, conv in _fmt.parse(s):
        out.append(lit)
        if field is None:
            continue
        if field == '':
            field = str(auto)
            auto += 1
        obj, _ = _fmt.get_field(field, args, kw)
        if conv == 'r':
            obj = call(repr, obj)
        elif conv:
            obj = call(str, obj)
        if spec:
            spec = str_format(spec, args, kw)
        out.append(format_obj(obj, spec))
    return str_concat(out)


def fstr(parts):
    out = []
    for p in parts:
        if type(p) is tuple:
            obj, conv, spec = p
            if conv == 114:
                obj = call(repr, obj)
            elif conv == 115:
                obj = call(str, obj)
            elif conv == 97:
                obj = ascii(deep_concrete(obj))
            out.append(format_obj(obj, spec))
        else:
            out.append(p)
    return str_concat(out) if has_sym(out) else ''.join(out)


def mod(a, b):
    if type(a) is str and '%r' not in a:
        if type(b) is tuple:
            b = tuple(x if own_text(x) is None else call(str, x) for x in b)
        elif own_text(b) is not None:
            b = call(str, b)
    if isinstance(a, str) and not isinstance_sym(a) and has_sym(b):
        if a.count('%') == a.count('%s') and '%%' not in a:
            vals = list(b) if type(b) is tuple else [b]
            pieces = a.split('%s')
            if len(pieces) - 1 != len(vals):
                raise TypeError('not all arguments converted')
            out = [pieces[0]]
            for v, q in zip(vals, pieces[1:]):
                out += [_str(v) if has_sym(v) else str(v), q]
            return str_concat(out)
        return a % deep_concrete(b)
    return a % b


def contains(a, container):
    if isinstance_sym(a) and isinstance(container, (dict, set, frozenset)) \
            and not isinstance_sym(container):
        for k in container:
            if bool(a == k):
                return True
        return False
    if isinstance_sym(a) and isinstance(container, str) and \
            not isinstance_sym(container):
        return a in SymStr(list(map(ord, container)))
    return a in container


def is_(a, b):
    if type(a) is SymBool and (b is True or b is False):
        return bool(a) is b
    if type(b) is SymBool and (a is True or a is False):
        return bool(b) is a
    return a is b


# ---------------------------------------------------------------- file names
def _path_test(fn):
    def f(path):
        if type(path) is not SymStr or path.items is None or \
                bool('/' in path):
            return fn(V.concrete(path))
        for name in ['.', '..'] + os.listdir('.'):
            if bool(path == name):
                return fn(name)
        return False
    return f


for _f in (os.path.exists, os.path.lexists, os.path.isfile, os.path.isdir):
    HANDLERS[_f] = _path_test(_f)


# -------------------------------------------------------------- JSON, hashes
@handler(json.dumps)
def _dumps(obj, **opts):
    tree = V.jtree(obj, opts)
    o = tuple(sorted((k, v) for k, v in opts.items()
                     if not callable(v) or v is None))
    return V.SymJson(tree, o)


@handler(json.loads)
def _loads(s, **kw):
    if type(s) is SNd and s.size == 1 and not s.shape:
        raise TypeError('the JSON object must be str, bytes or bytearray')
    if type(s) is V.SymJsonBytes:
        s = s.json
    if type(s) is V.SymJson:
        return V.untree(s.tree)
    if type(s) in (SNd, SGen):
        raise TypeError('the JSON object must be str, bytes or bytearray')
    return json.loads(V.concrete(s), **kw)


class Hasher:
    """Hash object; digests of symbolic data are symbolic."""

    def __init__(self, algo, data=b''):
        self._real = hashlib.new(algo)
        self.name = self._real.name
        self.parts = []
        self.update(data)

    def __getattr__(self, n):
        return getattr(self._real, n)   # digest_size etc.

    def update(self, data):
        if isinstance(data, str):
            raise TypeError('Strings must be encoded before hashing')
        if not isinstance_sym(data):
            data = bytes(data)
        self.parts.append(data)

    def copy(self):
        h = Hasher(self.name)
        h.parts = list(self.parts)
        return h

    def _data(self):
        parts = [x for x in self.parts if isinstance_sym(x) or x]
        if not has_sym(parts):
            return b''.join(parts)
        if len(parts) > 1:
            return b''.join([V.picked(x) for x in parts])
        return parts[0]

    def hexdigest(self):
        data = self._data()
        if isinstance_sym(data):
            return V.SymHash(data, self.name, True)
        r = hashlib.new(self.name, data).hexdigest()
        V.HASHES[r] = V.SymHash(data, self.name, True)
        return r

    def digest(self):
        return hashlib.new(self.name, V.picked(self._data())).digest()


def _hashfn(algo):
    def f(data=b'', **kw):
        return Hasher(algo, data)
    return f


for _a in ('sha256', 'sha1', 'md5', 'sha512', 'sha384', 'sha224', 'blake2b'):
    ALWAYS[getattr(hashlib, _a)] = _hashfn(_a)
ALWAYS[hashlib.new] = lambda name, data=b'', **kw: Hasher(name, data)


# --------------------------------------------------------------------- NumPy
def np_type(fn, *args, **kw):
    if kw or len(args) != 1:
        cur().stop(Unsupported('np.%s arguments' % fn.__name__))
    x = args[0]
    if fn is np.void:
        return np_void(x)
    if fn is np.str_:
        if isinstance(x, str):
            return x
        return _str(x)
    if fn is np.bytes_:
        return x
    try:
        dt = np.dtype(fn)
    except TypeError:
        cur().stop(Unsupported('np.%s' % fn.__name__))
    if type(x) is SNd:
        if x.shape == ():
            return N.cast(x[()], dt)
        return x.astype(dt)
    if type(x) in (list, tuple):
        return N.array(x, dt)
    if x.__class__ in (str, bytes):
        return fn(V.concrete(x))
    return N.cast(x, dt)


class SymVoid(Sym):
    """np.void scalar: opaque bytes of fixed length."""
    __slots__ = ('data',)

    def __init__(self, data):
        self.data = data

    @property
    def __class__(self):
        return np.void

    @property
    def dtype(self):
        return np.dtype('V%d' % len(self.data))

    def tobytes(self):
        return self.data

    def _concrete(self):
        return np.void(V.concrete(self.data))

    def __getitem__(self, k):
        if k == ():
            return self
        cur().stop(Unsupported('indexing np.void'))

    def __bool__(self):
        return True

    def __eq__(self, o):
        return self.data == (o.data if type(o) is SymVoid else bytes(o))


def np_void(x):
    if isinstance(x, bytes):
        if len(x) == 0:
            raise ValueError('np.void of empty bytes')
        return SymVoid(x)
    return np.void(V.concrete(x))


@handler(bytes.__new__)
def _never(*a):
    raise NotImplementedError


def np1(name):
    fn = getattr(np, name, None)

    def deco(h):
        if fn is not None:
            HANDLERS[fn] = h
        return h
    return deco


@np1('array')
def _array(obj, dtype=None, *, copy=True, ndmin=0, **kw):
    return N.array(obj, dtype, copy, ndmin, **kw)


@np1('asarray')
def _asarray(obj, dtype=None, **kw):
    return N.array(obj, dtype, copy=False)


HANDLERS[np.asanyarray] = _asarray
HANDLERS[np.ascontiguousarray] = lambda o, dtype=None: (
    lambda r: r if r.ndim else r.reshape((1,)))(N.array(o, dtype, copy=False))


def _asnd(x):
    return x if type(x) is SNd else N.array(x, copy=False)


@np1('any')
def _any(x, *a, **k):
    return _asnd(x).any(*a, **k)


@np1('all')
def _all(x, *a, **k):
    return _asnd(x).all(*a, **k)


@np1('ravel')
def _ravel(x, *a, **k):
    return _asnd(x).ravel()


@np1('reshape')
def _reshape(x, shape, **k):
    return _asnd(x).reshape(shape)


@np1('squeeze')
def _squeeze(x, axis=None):
    return _asnd(x).squeeze(axis)


@np1('atleast_1d')
def _atleast_1d(x):
    x = _asnd(x)
    return x if x.ndim else x.reshape((1,))


@np1('atleast_2d')
def _atleast_2d(x):
    x = _asnd(x)
    return x.reshape((1,) * (2 - x.ndim) + tuple(x.shape)) if x.ndim < 2 else x


@np1('copy')
def _npcopy(x, *a, **k):
    return _asnd(x).copy()


@np1('shape')
def _npshape(x):
    return _asnd(x).shape


@np1('ndim')
def _npndim(x):
    return _asnd(x).ndim


@np1('size')
def _npsize(x):
    return _asnd(x).size


@np1('max')
def _npmax(x):
    return _asnd(x).max()


HANDLERS[np.amax] = _npmax
HANDLERS[np.amin] = HANDLERS[np.min] = lambda x: _asnd(x).min()


@np1('isscalar')
def _isscalar(x):
    return type(x) is not SNd


@np1('full')
def _full(shape, value, dtype=None):
    dt = np.dtype(dtype) if dtype is not None else N.elem_dtype(value)
    n = int(np.prod(shape))
    x = N.cast(value, dt)
    return SNd.from_items([x] * n, dt, shape)


@np1('count_nonzero')
def _count_nonzero(x):
    return _asnd(x).astype(bool).sum()


@np1('array_equal')
def _array_equal(a, b):
    a, b = _asnd(a), _asnd(b)
    if a.shape != b.shape:
        return False
    return (a == b).all()


@np1('frombuffer')
def _frombuffer(b, dtype=float, **k):
    if k or np.dtype(dtype).itemsize != 1:
        cur().stop(Unsupported('np.frombuffer'))
    dt = np.dtype(dtype)
    its = list(b._need())
    if dt.kind == 'u':
        return SNd.from_items([SGen(dt, V.zi(i)) if not isinstance(i, int)
                               else dt.type(i) for i in its], dt, (len(its),))
    cur().stop(Unsupported('np.frombuffer'))


def _filled(fn, like=False):
    """Array constructors: the elements may be replaced by symbolic ones."""
    full = 'full' in fn.__name__

    def h(*args, **k):
        args = list(args)
        value = 0
        if full:
            value = k.get('fill_value') if 'fill_value' in k else args[1]
            if has_sym(value):
                if not like and 'dtype' not in k and len(args) < 3:
                    k['dtype'] = N.elem_dtype(value)
                if 'fill_value' in k:
                    k['fill_value'] = 0
                else:
                    args[1] = 0
        if like and args and has_sym(args[0]):
            x = _asnd(args[0])
            args[0] = np.empty(tuple(V.concrete(n) for n in x.shape), x.dtype)
        args, k = [deep_concrete(x) for x in args], deep_concrete(k)
        r = fn(*args, **k)
        if r.dtype.kind not in 'biufc' or r.dtype.names is not None:
            return r
        if fn.__name__.startswith('empty'):
            r.fill(0)
        items = ([N.cast(value, r.dtype)] * r.size if has_sym(value)
                 else list(r.ravel()))
        return SNd.from_items(items, r.dtype, r.shape)
    return h


for _f in (np.zeros, np.ones, np.empty, np.full):
    HANDLERS.pop(_f, None)
    ALWAYS[_f] = _filled(_f)
for _f in (np.zeros_like, np.ones_like, np.empty_like, np.full_like):
    HANDLERS.pop(_f, None)
    ALWAYS[_f] = _filled(_f, like=True)


def _ufunc_cmp(name):
    op = getattr(operator, name)

    def h(a, b, **k):
        if k:
            cur().stop(Unsupported('ufunc options'))
        return op(a, b)
    return h


for _n, _u in (('gt', np.greater), ('ge', np.greater_equal), ('lt', np.less),
               ('le', np.less_equal), ('eq', np.equal), ('ne', np.not_equal)):
    HANDLERS[_u] = _ufunc_cmp(_n)
HANDLERS[np.logical_not] = lambda x: ~x
HANDLERS[np.logical_and] = lambda a, b: a & b
HANDLERS[np.logical_or] = lambda a, b: a | b


def np_method(name):
    """`ndarray.method` of a real (object) array given symbolic values."""


@handler(np.dtype)
def _dtype(x, *a, **k):
    return np.dtype(V.concrete(x), *a, **k)


@handler(np.broadcast_to)
def _broadcast_to(x, shape, **k):
    shape = deep_concrete(shape)
    if type(x) is SNd:
        return SNd(np.broadcast_to(x._need(), shape), x.dtype)
    return np.broadcast_to(x, shape)
