"""Symbolic stand-ins for Python values (bool, int, float, str, bytes, dates)."""
import datetime
import math
import operator
import struct

import z3

from . import engine
from .engine import SPECIAL_CHARS, SPECIAL_FIELDS, Unsupported, cur

FP64 = z3.Float64()
FP32 = z3.Float32()
FP16 = z3.Float16()
RNE = z3.RNE()


class Sym:
    """Base of all symbolic values."""
    __slots__ = ()

    def __getattr__(self, name):
        if name.startswith('__') and name.endswith('__'):
            raise AttributeError(name)
        return picked_attribute(self, name)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __hash__(self):
        cur().stop(Unsupported('hash of a symbolic value'))

    def __format__(self, spec):
        return format(concrete(self), spec)

    def __str__(self):
        return str(concrete(self))

    def __repr__(self):
        return repr(concrete(self))

    def __reduce_ex__(self, proto):
        cur().stop(Unsupported('pickling a symbolic value'))


def concrete(x):
    """Pick the concrete value of a scalar symbolic value (enumerating)."""
    if isinstance_sym(x):
        return x._concrete()
    return x


def picked(x, depth=300):
    """x with a single value picked for everything symbolic in it.

    The path is marked as undecided; special values are tried as well.
    """
    p = cur()
    was, p.picking = p.picking, True
    try:
        return _picked(x, depth)
    finally:
        p.picking = was


def _picked(x, depth):
    if isinstance_sym(x):
        return x._concrete()
    t = type(x)
    if depth and t in (list, tuple, set, frozenset):
        return t([_picked(y, depth - 1) for y in x])
    if depth and t is dict:
        return {_picked(k, depth - 1): _picked(v, depth - 1)
                for k, v in x.items()}
    if t is slice:
        return slice(*[_picked(y, depth - 1) for y in (x.start, x.stop,
                                                       x.step)])
    return x


def picked_attribute(x, name):
    """Attribute of a symbolic value that is not modelled."""
    if not hasattr(x.__class__, name):
        raise AttributeError('%r object has no attribute %r'
                             % (x.__class__.__name__, name))
    r = getattr(x.__class__, name)
    if not callable(r):
        return getattr(picked(x), name)

    def method(*args, **kw):
        return getattr(picked(x), name)(*picked(args), **picked(kw))
    return method


def isinstance_sym(x):
    return issubclass(type(x), Sym)


# ---------------------------------------------------------------- booleans
class SymBool(Sym):
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    @property
    def __class__(self):
        return bool

    def _concrete(self):
        return bool(self)

    def __bool__(self):
        return cur().fork(self.t)

    def __index__(self):
        return int(bool(self))

    __int__ = __index__

    def _asint(self):
        return SymInt(z3.If(self.t, 1, 0))

    def __eq__(self, o):
        if type(o) is SymBool:
            return mkbool(self.t == o.t)
        if isinstance(o, bool):
            return mkbool(self.t if o else z3.Not(self.t))
        if is_intlike(o):
            return self._asint() == o
        if hasattr(type(o), '_sx_scalar'):
            return NotImplemented
        return False

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else sx_not(r)

    def __and__(self, o):
        if type(o) in (SymBool, bool):
            return mkbool(z3.And(self.t, bterm(o)))
        return self._asint() & o

    __rand__ = __and__

    def __or__(self, o):
        if type(o) in (SymBool, bool):
            return mkbool(z3.Or(self.t, bterm(o)))
        return self._asint() | o

    __ror__ = __or__

    def __xor__(self, o):
        if type(o) in (SymBool, bool):
            return mkbool(z3.Xor(self.t, bterm(o)))
        return self._asint() ^ o

    __rxor__ = __xor__

    def __hash__(self):
        return hash(bool(self))


def _boolarith(name):
    def f(self, o):
        return getattr(self._asint(), name)(o)
    return f


for _n in ('__add__', '__radd__', '__sub__', '__rsub__', '__mul__',
           '__rmul__', '__lt__', '__le__', '__gt__', '__ge__'):
    setattr(SymBool, _n, _boolarith(_n))


def mkbool(t):
    t = z3.simplify(t)
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    return SymBool(t)


def bterm(x):
    if type(x) is SymBool:
        return x.t
    return z3.BoolVal(bool(x))


def sx_not(x):
    if type(x) is SymBool:
        return mkbool(z3.Not(x.t))
    return not x


def sx_and(xs):
    return mkbool(z3.And([bterm(x) for x in xs])) if xs else True


def sx_or(xs):
    return mkbool(z3.Or([bterm(x) for x in xs])) if xs else False


# ---------------------------------------------------------------- integers
def is_intlike(x):
    return type(x) in (SymInt, SymBool) or (isinstance(x, int)
                                            and not isinstance_sym(x))


def iterm(x):
    if type(x) is SymInt:
        return x.t
    if type(x) is SymBool:
        return z3.If(x.t, z3.IntVal(1), z3.IntVal(0))
    if isinstance(x, z3.ExprRef):
        return x
    return z3.IntVal(operator.index(x))


def mkint(t):
    t = z3.simplify(t)
    if z3.is_int_value(t):
        return t.as_long()
    return SymInt(t)


class SymInt(Sym):
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    @property
    def __class__(self):
        return int

    def _concrete(self):
        return cur().concretize(self.t)

    def __index__(self):
        return cur().concretize(self.t)

    __int__ = __index__

    def __float__(self):
        return float(cur().concretize(self.t))

    def __hash__(self):
        return hash(cur().concretize(self.t))

    def __bool__(self):
        return cur().fork(self.t != 0)

    def _cmp(self, o, op, name):
        if is_intlike(o):
            return mkbool(op(self.t, iterm(o)))
        if type(o) is SymFloat:
            return NotImplemented
        if isinstance(o, float):
            if math.isnan(o):
                return name == '__ne__'
            if math.isinf(o):
                return op(0, 1) if o > 0 else op(0, -1)
            fl = math.floor(o)
            if fl == o:
                return mkbool(op(self.t, z3.IntVal(fl)))
            if name == '__eq__':
                return False
            if name == '__ne__':
                return True
            if name in ('__lt__', '__le__'):
                return mkbool(self.t <= fl)
            return mkbool(self.t >= fl + 1)
        return NotImplemented

    def __eq__(self, o):
        r = self._cmp(o, operator.eq, '__eq__')
        if r is NotImplemented and not hasattr(type(o), '_sx_scalar') \
                and type(o) is not SymFloat:
            return False
        return r

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else sx_not(r)

    def __neg__(self):
        return mkint(-self.t)

    def __pos__(self):
        return self

    def __abs__(self):
        return mkint(z3.If(self.t < 0, -self.t, self.t))

    def bit_length(self):
        return concrete(self).bit_length()


def _mkcmp(name, op):
    def f(self, o):
        return self._cmp(o, op, name)
    return f


for _n, _o in (('__lt__', operator.lt), ('__le__', operator.le),
               ('__gt__', operator.gt), ('__ge__', operator.ge)):
    setattr(SymInt, _n, _mkcmp(_n, _o))


def _floordiv(a, b):
    # z3's div rounds such that the remainder is non-negative.
    return z3.If(b > 0, a / b, (-a) / (-b))


def _mod(a, b):
    return a - b * _floordiv(a, b)


_PYOPS = {operator.add: operator.add, operator.sub: operator.sub,
          operator.mul: operator.mul, _floordiv: operator.floordiv,
          _mod: operator.mod}


def _mkarith(op, swap, div):
    def f(self, o):
        if not is_intlike(o):
            if isinstance(o, float) and not isinstance_sym(o):
                a, b = float(picked(self)), o
                if div and b == 0:
                    raise ZeroDivisionError('float division by zero')
                r = _PYOPS[op]
                return r(b, a) if swap else r(a, b)
            return NotImplemented
        a, b = self.t, iterm(o)
        if swap:
            a, b = b, a
        if div and bool(mkbool(b == 0)):
            raise ZeroDivisionError('integer division or modulo by zero')
        return mkint(op(a, b))
    return f


for _n, _o, _d in (('add', operator.add, False), ('sub', operator.sub, False),
                   ('mul', operator.mul, False), ('floordiv', _floordiv, True),
                   ('mod', _mod, True)):
    setattr(SymInt, '__%s__' % _n, _mkarith(_o, False, _d))
    setattr(SymInt, '__r%s__' % _n, _mkarith(_o, True, _d))


def _mkbit(op, swap):
    def f(self, o):
        a = concrete(self)
        b = concrete(o)
        return op(b, a) if swap else op(a, b)
    return f


for _n, _o in (('and', operator.and_), ('or', operator.or_),
               ('xor', operator.xor), ('lshift', operator.lshift),
               ('rshift', operator.rshift), ('truediv', operator.truediv),
               ('pow', operator.pow)):
    setattr(SymInt, '__%s__' % _n, _mkbit(_o, False))
    setattr(SymInt, '__r%s__' % _n, _mkbit(_o, True))


# ------------------------------------------------------------------ floats
def fpval(x, sort=FP64):
    if math.isnan(x):
        return z3.fpNaN(sort)
    if math.isinf(x):
        return z3.fpPlusInfinity(sort) if x > 0 else z3.fpMinusInfinity(sort)
    bits = struct.unpack('<Q', struct.pack('<d', x))[0]
    v = z3.fpBVToFP(z3.BitVecVal(bits, 64), FP64)
    if sort != FP64:
        v = z3.fpFPToFP(RNE, v, sort)
    return z3.simplify(v)


SPECIAL_FLOATS = (0.0, -0.0, 1.0, -1.0, 0.5, 0.1, math.nan, math.inf, -math.inf,
                  5e-324, 2.0**53, 1e16, 1.7976931348623157e308)


class SymFloat(Sym):
    """Python float (IEEE binary64)."""
    __slots__ = ('t', 'narrow')

    def __init__(self, t, narrow=None):
        self.t = t
        self.narrow = narrow    # term of a smaller sort that t was widened of

    @property
    def __class__(self):
        return float

    def _concrete(self):
        p = cur()
        p.sampled = p.sampled or 'float value picked'
        i = p.special([self.t == fpval(v) for v in SPECIAL_FLOATS])
        if i is not None:
            return SPECIAL_FLOATS[i]
        bits = p.value_of(lambda m: z3.simplify(m.eval(
            z3.fpToIEEEBV(self.t), model_completion=True)).as_long())
        p.add(self.t == z3.fpBVToFP(z3.BitVecVal(bits, 64), FP64))
        return struct.unpack('<d', struct.pack('<Q', bits))[0]

    def __float__(self):
        return self._concrete()

    def __bool__(self):
        return cur().fork(z3.Not(z3.fpIsZero(self.t)))

    def __neg__(self):
        return SymFloat(z3.fpNeg(self.t))

    def _fp(self, o):
        if type(o) is SymFloat:
            return o.t
        if isinstance_sym(o):
            return None
        if isinstance(o, (int, float)):
            try:
                f = float(o)
            except OverflowError:
                return None
            if isinstance(o, int) and int(f) != o:
                return None
            return fpval(f)
        return None

    def _rel(self, o, op):
        if type(o) is SymFloat:
            a, b = self.narrow, o.narrow
            if a is not None and b is not None and a.sort() == b.sort():
                return mkbool(op(a, b))
        t = self._fp(o)
        return None if t is None else mkbool(op(self.t, t))

    def __eq__(self, o):
        r = self._rel(o, z3.fpEQ)
        if r is None:
            if isinstance_sym(o) or hasattr(type(o), '_sx_scalar'):
                return NotImplemented
            return False
        return r

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else sx_not(r)

    def _cmp(self, o, op):
        r = self._rel(o, op)
        return NotImplemented if r is None else r

    def __lt__(self, o):
        return self._cmp(o, z3.fpLT)

    def __le__(self, o):
        return self._cmp(o, z3.fpLEQ)

    def __gt__(self, o):
        return self._cmp(o, z3.fpGT)

    def __ge__(self, o):
        return self._cmp(o, z3.fpGEQ)


# ----------------------------------------------------------------- strings
class _SymSeq(Sym):
    """Common part of SymStr and SymBytes.

    `items` is a list of code points / byte values (ints or z3 Int terms), or
    None for a text of symbolic `length` whose content is irrelevant.
    """
    __slots__ = ('items', 'length')
    _cls = None

    def __init__(self, items, length=None):
        self.items = items
        self.length = len(items) if items is not None else length

    @property
    def __class__(self):
        return self._cls

    def _need(self):
        if self.items is None:
            cur().stop(Unsupported('content of a text with symbolic length'))
        return self.items

    @classmethod
    def _mk(cls, items):
        if all(isinstance(i, int) for i in items):
            return cls._real(items)
        return cls(items)

    def _of(self, o):
        if type(o) is type(self):
            return o._need()
        if isinstance(o, self._cls) and not isinstance_sym(o):
            return self._items(o)
        return None

    def _concrete(self):
        out = []
        for i in self._need():
            out.append(i if isinstance(i, int) else pick(i))
        return self._real(out)

    def __len__(self):
        if isinstance(self.length, int):
            return self.length
        return concrete(self.length)

    def _len(self):
        return self.length

    def __bool__(self):
        n = self.length
        return n > 0 if isinstance(n, int) else bool(n > 0)

    def __eq__(self, o):
        if type(o) is type(self) and o is self:
            return True
        if self.items is None and (self._cls is not o.__class__):
            return False
        if self.items is None or getattr(o, 'items', 0) is None:
            if bool(self.length == sx_len(o)) is False:
                return False
            if self.items is None and getattr(o, 'items', 0) is None:
                return True
            self._need()
            o._need()
        other = self._of(o)
        if other is None:
            return False
        if len(other) != len(self.items):
            return False
        return sx_and([mkbool(ieq(a, b))
                       for a, b in zip(self.items, other)])

    def __ne__(self, o):
        return sx_not(self.__eq__(o))

    def __hash__(self):
        return hash(self._concrete())

    def __add__(self, o):
        other = self._of(o)
        if other is None:
            return NotImplemented
        return self._mk(list(self._need()) + list(other))

    def __radd__(self, o):
        other = self._of(o)
        if other is None:
            return NotImplemented
        return self._mk(list(other) + list(self._need()))

    def __mul__(self, n):
        return self._mk(list(self._need()) * operator.index(n))

    def startswith(self, prefix, *a):
        if a:
            return picked(self).startswith(prefix, *a)
        if isinstance(prefix, tuple):
            return sx_or([self.startswith(p) for p in prefix])
        p = self._of(prefix)
        its = self._need()
        if len(p) > len(its):
            return False
        return sx_and([mkbool(ieq(x, y)) for x, y in zip(its, p)])

    def endswith(self, suffix, *a):
        if a:
            return picked(self).endswith(suffix, *a)
        if isinstance(suffix, tuple):
            return sx_or([self.endswith(p) for p in suffix])
        p = self._of(suffix)
        its = self._need()
        if len(p) > len(its):
            return False
        if not p:
            return True
        return sx_and([mkbool(ieq(x, y)) for x, y in zip(its[-len(p):], p)])

    def __contains__(self, o):
        if self._cls is bytes and is_intlike(o):
            p = [iterm(o)]
        else:
            p = self._of(o)
        its = self._need()
        n = len(p)
        return bool(sx_or([sx_and([mkbool(ieq(x, y)) for x, y in
                                   zip(its[i:i + n], p)])
                           for i in range(len(its) - n + 1)]))

    def _lex(self, o, strict_less):
        a, b = self._need(), self._of(o)
        if b is None:
            return NotImplemented
        res = len(a) < len(b) if strict_less else len(a) <= len(b)
        res = z3.BoolVal(res)
        for x, y in reversed(list(zip(a, b))):
            x, y = zi(x), zi(y)
            res = z3.Or(x < y, z3.And(x == y, res))
        return mkbool(res)

    def __lt__(self, o):
        return self._lex(o, True)

    def __le__(self, o):
        return self._lex(o, False)

    def __gt__(self, o):
        return sx_not(self._lex(o, False))

    def __ge__(self, o):
        return sx_not(self._lex(o, True))

    def _strip_set(self, chars):
        if chars is None:
            ws = (9, 10, 11, 12, 13, 32)
            if self._cls is str:
                ws += (28, 29, 30, 31, 133, 160, 0x1680, 0x2028, 0x2029,
                       0x202f, 0x205f, 0x3000) + tuple(range(0x2000, 0x200b))
            return ws
        return tuple(self._of(chars))

    def _isin(self, c, chars):
        return bool(sx_or([mkbool(ieq(c, x)) for x in chars]))

    def lstrip(self, chars=None):
        s = self._strip_set(chars)
        its = list(self._need())
        while its and self._isin(its[0], s):
            its.pop(0)
        return self._mk(its)

    def rstrip(self, chars=None):
        s = self._strip_set(chars)
        its = list(self._need())
        while its and self._isin(its[-1], s):
            its.pop()
        return self._mk(its)

    def strip(self, chars=None):
        x = self.lstrip(chars)
        return x.rstrip(chars)


def zi(x):
    return z3.IntVal(x) if isinstance(x, int) else x


def ieq(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return z3.BoolVal(a == b)
    return zi(a) == zi(b)


def pick(term, specials=SPECIAL_CHARS, why='character value picked'):
    """A single value for a term whose exact value should not matter."""
    return cur().pick(term, specials, why)


class SymStr(_SymSeq):
    __slots__ = ()
    _cls = str

    @staticmethod
    def _real(items):
        return ''.join(map(chr, items))

    @staticmethod
    def _items(s):
        return list(map(ord, s))

    def __str__(self):
        return self._concrete()

    def __getitem__(self, k):
        its = self._need()[k]
        return self._mk(its if isinstance(k, slice) else [its])

    def __iter__(self):
        return iter([self._mk([c]) for c in self._need()])

    def encode(self, encoding='utf-8', errors='strict'):
        enc = norm_enc(encoding)
        its = self._need()
        if all(isinstance(c, int) for c in its):
            return self._real(its).encode(encoding, errors)
        # One fork: is everything ASCII?
        if bool(sx_and([mkbool(zi(c) < 128) for c in its])):
            return SymBytes._mk(its)
        if enc in ('utf8', 'utf16', 'utf32'):
            return SymEncoded(self, enc)
        return picked(self).encode(encoding, errors)


def norm_enc(e):
    return str(e).lower().replace('-', '').replace('_', '')


class SymBytes(_SymSeq):
    __slots__ = ()
    _cls = bytes

    @staticmethod
    def _real(items):
        return bytes(items)

    @staticmethod
    def _items(s):
        return list(s)

    def __getitem__(self, k):
        its = self._need()[k]
        if isinstance(k, slice):
            return self._mk(its)
        return its if isinstance(its, int) else SymInt(its)

    def __iter__(self):
        return iter([c if isinstance(c, int) else SymInt(c)
                     for c in self._need()])

    def decode(self, encoding='utf-8', errors='strict'):
        its = self._need()
        if bool(sx_and([mkbool(zi(c) < 128) for c in its])):
            return SymStr._mk(its)
        return picked(self).decode(encoding, errors)

    def hex(self):
        return picked(self).hex()


class SymEncoded(Sym):
    """Encoded form of a symbolic non-ASCII text (injective)."""
    __slots__ = ('text', 'enc')

    def __init__(self, text, enc):
        self.text = text
        self.enc = enc

    @property
    def __class__(self):
        return bytes

    def _concrete(self):
        return concrete(self.text).encode(self.enc)

    def decode(self, encoding='utf-8', errors='strict'):
        if norm_enc(encoding) == self.enc:
            return self.text
        return self._concrete().decode(encoding, errors)

    def __bool__(self):
        return True

    def __len__(self):
        return len(self._concrete())

    def __eq__(self, o):
        if type(o) is SymEncoded and o.enc == self.enc:
            return self.text == o.text
        if type(o) is SymBytes:
            return False if self.enc == 'utf8' else NotImplemented
        return self._concrete() == o

    def __hash__(self):
        return hash(self._concrete())


def sx_len(x):
    if issubclass(type(x), _SymSeq):
        return x._len()
    return len(x)


# ------------------------------------------------------------------- dates
def _lexcmp(a, b, strict):
    res = z3.BoolVal(not strict)
    for x, y in reversed(list(zip(a, b))):
        x, y = iterm(x), iterm(y)
        res = z3.Or(x < y, z3.And(x == y, res))
    return mkbool(res)


class _SymFields(Sym):
    __slots__ = ('f',)
    _cls = None
    _names = ()

    def __init__(self, f):
        self.f = tuple(f)

    @property
    def __class__(self):
        return self._cls

    def _concrete(self):
        p = cur()
        out = []
        for x in self.f:
            out.append(x if isinstance(x, int) and not isinstance_sym(x)
                       else pick(x.t, SPECIAL_FIELDS, 'date value picked'))
        return self._cls(*out)

    @classmethod
    def _fields_of(cls, o):
        if type(o) is cls:
            return o.f
        if type(o) is cls._cls:
            return tuple(getattr(o, n) for n in cls._names)
        return None

    def __bool__(self):
        return True

    def __eq__(self, o):
        f = self._fields_of(o)
        if f is None:
            return False
        return sx_and([mkbool(iterm(a) == iterm(b))
                       for a, b in zip(self.f, f)])

    def __ne__(self, o):
        return sx_not(self.__eq__(o))

    def _ord(self, o, strict, swap):
        f = self._fields_of(o)
        if f is None:
            return NotImplemented
        return _lexcmp(f, self.f, strict) if swap \
            else _lexcmp(self.f, f, strict)

    def __lt__(self, o):
        return self._ord(o, True, False)

    def __le__(self, o):
        return self._ord(o, False, False)

    def __gt__(self, o):
        return self._ord(o, True, True)

    def __ge__(self, o):
        return self._ord(o, False, True)

    def __getattr__(self, name):
        if name in self._names:
            return self.f[self._names.index(name)]
        if name == 'tzinfo' and self._cls is not datetime.date:
            return None
        if name == 'fold' and self._cls is not datetime.date:
            return 0
        return Sym.__getattr__(self, name)

    def replace(self, *a, **k):
        vals = list(self.f)
        for i, v in enumerate(a):
            vals[i] = v
        for n, v in k.items():
            if n in ('tzinfo', 'fold') and not v:
                continue
            vals[self._names.index(n)] = v
        return make_date(self._cls, vals)


class SymDate(_SymFields):
    __slots__ = ()
    _cls = datetime.date
    _names = ('year', 'month', 'day')

    def timetuple(self):
        return tuple(self.f) + (0, 0, 0)


class SymTime(_SymFields):
    __slots__ = ()
    _cls = datetime.time
    _names = ('hour', 'minute', 'second', 'microsecond')


class SymDateTime(_SymFields):
    __slots__ = ()
    _cls = datetime.datetime
    _names = ('year', 'month', 'day', 'hour', 'minute', 'second',
              'microsecond')

    def date(self):
        return SymDate(self.f[:3])

    def time(self):
        return SymTime(self.f[3:])

    def timetuple(self):
        return tuple(self.f[:6])


def days_in_month(y, m):
    y, m = iterm(y), iterm(m)
    leap = z3.And(y % 4 == 0, z3.Or(y % 100 != 0, y % 400 == 0))
    return z3.If(m == 2, z3.If(leap, 29, 28),
                 z3.If(z3.Or(m == 4, m == 6, m == 9, m == 11), 30, 31))


def date_valid(cls, f):
    f = [iterm(x) for x in f]
    conds = []
    if cls is not datetime.time:
        y, m, d = f[:3]
        conds += [y >= 1, y <= 9999, m >= 1, m <= 12, d >= 1,
                  d <= days_in_month(y, m)]
        f = f[3:]
    if f:
        h, mi, s, us = f
        conds += [h >= 0, h <= 23, mi >= 0, mi <= 59, s >= 0, s <= 59,
                  us >= 0, us <= 999999]
    return z3.And(conds)


_DATECLS = {datetime.date: SymDate, datetime.time: SymTime,
            datetime.datetime: SymDateTime}


def make_date(cls, args):
    """datetime.date/time/datetime called with symbolic arguments."""
    scls = _DATECLS[cls]
    vals = list(args)
    n = len(scls._names)
    if len(vals) > n:
        if len(vals) == n + 1 and vals[n] is None:
            vals = vals[:n]
        else:
            cur().stop(Unsupported('tzinfo'))
    need = {datetime.date: 3, datetime.datetime: 3, datetime.time: 0}[cls]
    if len(vals) < need:
        raise TypeError('function missing required argument')
    for v in vals:
        if not is_intlike(v):
            raise TypeError('an integer is required')
    vals += [0] * (n - len(vals))
    if not bool(mkbool(date_valid(cls, vals))):
        raise ValueError('date/time field is out of range')
    if not any(isinstance_sym(v) for v in vals):
        return cls(*vals)
    return scls(vals)


# --------------------------------------------------------- JSON and hashes
class SymJson(Sym):
    """JSON text of a structure with symbolic leaves.

    Two texts are equal iff they are spelled by the same options from equal
    structures; this is exact for json.dumps (the text determines the
    structure, and the structure in its order determines the text).
    """
    __slots__ = ('tree', 'opts')

    def __init__(self, tree, opts):
        self.tree = tree
        self.opts = opts

    @property
    def __class__(self):
        return str

    def __bool__(self):
        return True

    def _concrete(self):
        import json
        return json.dumps(untree(self.tree, concrete), **dict(self.opts))

    def __str__(self):
        return self._concrete()

    def __len__(self):
        return len(self._concrete())

    def __eq__(self, o):
        if type(o) is SymJson:
            if o.opts != self.opts:
                return False
            return tree_eq(self.tree, o.tree)
        if o.__class__ is not str:
            return False
        if not isinstance_sym(o):
            import json
            try:
                x = json.loads(o)
            except ValueError:
                return False
            if json.dumps(x, **dict(self.opts)) != o:
                return False        # spelled in another way
            return tree_eq(self.tree, jtree(x, {}))
        return self._concrete() == o

    def __ne__(self, o):
        return sx_not(self.__eq__(o))

    def __hash__(self):
        return hash(self._concrete())

    def encode(self, encoding='utf-8', errors='strict'):
        return SymJsonBytes(self)

    def strip(self, *a):
        return self


class SymJsonBytes(Sym):
    __slots__ = ('json',)

    def __init__(self, j):
        self.json = j

    @property
    def __class__(self):
        return bytes

    def _concrete(self):
        return self.json._concrete().encode()

    def __bool__(self):
        return True

    def decode(self, *a, **k):
        return self.json

    def __len__(self):
        return len(self._concrete())

    def __eq__(self, o):
        return type(o) is SymJsonBytes and self.json == o.json

    def __hash__(self):
        return hash(self._concrete())


class SymHash(Sym):
    """Hash object / hex digest of symbolic bytes (assumed collision free)."""
    __slots__ = ('data', 'algo', 'hexed')

    def __init__(self, data, algo, hexed=False):
        self.data = data
        self.algo = algo
        self.hexed = hexed

    @property
    def __class__(self):
        return str if self.hexed else SymHash

    def hexdigest(self):
        return SymHash(self.data, self.algo, True)

    def _concrete(self):
        import hashlib
        return hashlib.new(self.algo, concrete(self.data)).hexdigest()

    def __bool__(self):
        return True

    def __len__(self):
        return 64

    def __str__(self):
        return self._concrete()

    def __eq__(self, o):
        if type(o) is SymHash:
            if o.algo != self.algo:
                return False
            a, b = self.data, o.data
            for x, y in ((a, b), (b, a)):
                if type(x) is SymJsonBytes and type(y) is bytes:
                    try:
                        return x.json == y.decode()
                    except UnicodeDecodeError:
                        return False
            return a == b
        if isinstance(o, str) and not isinstance_sym(o):
            known = HASHES.get(o)
            if known is None:
                # Not a digest produced during this run: distinct, as no
                # preimage is known (assumption: no collisions).
                return False
            return self.__eq__(known)
        return False

    def __ne__(self, o):
        return sx_not(self.__eq__(o))

    def __hash__(self):
        return hash(self._concrete())

    def __getitem__(self, k):
        return picked(self)[k]

    def __getattr__(self, n):
        if n == 'lower' and self.hexed:
            return lambda: self
        if self.hexed and hasattr(str, n):
            return getattr(picked(self), n)
        raise AttributeError(n)


HASHES = {}     # concrete digests produced in this run -> SymHash


def jtree(o, opts):
    """Canonical structure of a JSON-serializable object."""
    c = o.__class__
    if o is None:
        return ('null',)
    if type(o) is SymBool or c is bool:
        return ('bool', o)
    if type(o) is SymInt:
        return ('int', o)
    if type(o) is SymFloat:
        return ('float', o)
    if isinstance(o, str):
        if not isinstance_sym(o):
            o = str(o)
        return ('str', o)
    if isinstance_sym(o):
        if hasattr(type(o), '_sx_scalar'):
            if o.dtype == 'float64':
                return ('float', SymFloat(o.val))
            raise TypeError('Object of type %s is not JSON serializable'
                            % o.dtype.name)
        raise TypeError('Object is not JSON serializable')
    if isinstance(o, int):
        return ('int', int(o))
    if isinstance(o, float):
        return ('float', float(o))
    if isinstance(o, (list, tuple)):
        return ('arr', tuple(jtree(x, opts) for x in o))
    if isinstance(o, dict):
        items = list(o.items())
        for k, _ in items:
            if not isinstance(k, str) or isinstance_sym(k):
                cur().stop(Unsupported('JSON key'))
        if opts.get('sort_keys'):
            items.sort(key=lambda kv: kv[0])
        return ('obj', tuple((k, jtree(v, opts)) for k, v in items))
    if opts.get('default'):
        return jtree(opts['default'](o), opts)
    raise TypeError('Object of type %s is not JSON serializable'
                    % type(o).__name__)


def untree(t, leaf=lambda x: x):
    k = t[0]
    if k == 'null':
        return None
    if k == 'arr':
        return [untree(x, leaf) for x in t[1]]
    if k == 'obj':
        return {n: untree(v, leaf) for n, v in t[1]}
    return leaf(t[1])


def tree_eq(a, b):
    if a[0] != b[0]:
        return False
    k = a[0]
    if k == 'null':
        return True
    if k == 'arr':
        if len(a[1]) != len(b[1]):
            return False
        return sx_and([tree_eq(x, y) for x, y in zip(a[1], b[1])])
    if k == 'obj':
        if [n for n, _ in a[1]] != [n for n, _ in b[1]]:
            return False
        return sx_and([tree_eq(x[1], y[1]) for x, y in zip(a[1], b[1])])
    if k == 'float':
        x = a[1].t if type(a[1]) is SymFloat else fpval(a[1])
        y = b[1].t if type(b[1]) is SymFloat else fpval(b[1])
        return mkbool(x == y)       # the text tells -0.0 from 0.0
    r = a[1] == b[1]
    return r
