"""Symbolic NumPy scalars and arrays."""
import operator

import numpy as np
import z3

from . import values as V
from .engine import Unsupported, cur
from .values import (Sym, SymBool, SymBytes, SymFloat, SymInt, SymStr,
                     isinstance_sym, mkbool, mkint)

SORTS = {'float16': V.FP16, 'float32': V.FP32, 'float64': V.FP64}


def unsupported(what):
    cur().stop(Unsupported(what))


def dtype_range(dt):
    ii = np.iinfo(dt)
    return int(ii.min), int(ii.max)


class SGen(Sym):
    """NumPy scalar. `val`: z3 Int / FP / Bool term, or a pair for complex."""
    __slots__ = ('dtype', 'val')
    _sx_scalar = True

    def __init__(self, dtype, val):
        self.dtype = np.dtype(dtype)
        self.val = val

    @property
    def __class__(self):
        return self.dtype.type

    shape = ()
    ndim = 0
    size = 1

    @property
    def itemsize(self):
        return self.dtype.itemsize

    @property
    def kind(self):
        return self.dtype.kind

    def _concrete(self):
        k = self.kind
        if k in 'iu':
            return self.dtype.type(cur().concretize(self.val))
        if k == 'b':
            return np.bool_(cur().fork(self.val))
        p = cur()
        p.sampled = p.sampled or 'float value picked'
        parts = self.val if k == 'c' else (self.val,)
        i = p.special([z3.And([t == V.fpval(v, t.sort()) for t in parts])
                       for v in V.SPECIAL_FLOATS])
        if i is not None:
            v = V.SPECIAL_FLOATS[i]
            return self.dtype.type(complex(v, v) if k == 'c' else v)
        bits = p.value_of(lambda m: tuple(
            z3.simplify(m.eval(z3.fpToIEEEBV(t),
                               model_completion=True)).as_long()
            for t in parts))
        for t, b in zip(parts, bits):
            p.add(t == z3.fpBVToFP(z3.BitVecVal(b, t.sbits() + t.ebits()),
                                   t.sort()))
        w = self.dtype.itemsize // len(parts)
        return np.frombuffer(b''.join(x.to_bytes(w, 'little') for x in bits),
                             dtype=self.dtype)[0]

    def item(self):
        k = self.kind
        if k in 'iu':
            return mkint(self.val)
        if k == 'b':
            return mkbool(self.val)
        if k == 'f':
            t = self.val
            if self.dtype.name != 'float64':
                return SymFloat(z3.fpFPToFP(V.RNE, t, V.FP64), t)
            return SymFloat(t)
        return self

    tolist = item

    def __getitem__(self, k):
        if k == ():
            return self
        return V.picked(self)[k]

    def copy(self):
        return self

    def astype(self, dt, *a, **k):
        return cast(self, np.dtype(dt))

    def reshape(self, *shape):
        return SNd.from_items([self], self.dtype, (1,)).reshape(*shape)

    def ravel(self):
        return SNd.from_items([self], self.dtype, (1,))

    def __bool__(self):
        k = self.kind
        if k in 'iu':
            return cur().fork(self.val != 0)
        if k == 'b':
            return cur().fork(self.val)
        parts = self.val if k == 'c' else (self.val,)
        return cur().fork(z3.Or([z3.Not(z3.fpIsZero(t)) for t in parts]))

    def __int__(self):
        return int(self._concrete())

    def __index__(self):
        if self.kind not in 'iu':
            raise TypeError('only integer scalars')
        return cur().concretize(self.val)

    def __float__(self):
        return float(self._concrete())

    def __hash__(self):
        return hash(self._concrete())

    # comparisons -------------------------------------------------------
    def _cmp(self, o, name):
        o = scalar_of(o)
        if o is None:
            return NotImplemented
        r = compare(self, o, name)
        if type(r) is SymBool:
            return SGen('bool', r.t)
        return np.bool_(r)

    def __eq__(self, o):
        if o is None or o.__class__ in (str, bytes, list, tuple, dict):
            return False
        return self._cmp(o, 'eq')

    def __ne__(self, o):
        if o is None or o.__class__ in (str, bytes, list, tuple, dict):
            return True
        return self._cmp(o, 'ne')

    def __lt__(self, o):
        return self._cmp(o, 'lt')

    def __le__(self, o):
        return self._cmp(o, 'le')

    def __gt__(self, o):
        return self._cmp(o, 'gt')

    def __ge__(self, o):
        return self._cmp(o, 'ge')

    def __invert__(self):
        if self.kind == 'b':
            return SGen('bool', z3.Not(self.val))
        return ~V.picked(self)

    def __and__(self, o):
        o = scalar_of(o)
        if self.kind == 'b' and o is not None and kind_of(o) == 'b':
            return SGen('bool', z3.And(self.val, boolterm(o)))
        return V.picked(self) & V.picked(o)

    __rand__ = __and__

    def __or__(self, o):
        o = scalar_of(o)
        if self.kind == 'b' and o is not None and kind_of(o) == 'b':
            return SGen('bool', z3.Or(self.val, boolterm(o)))
        return V.picked(self) | V.picked(o)

    __ror__ = __or__


def _pickarith(n):
    """Arithmetic that is not modelled: on single picked values."""
    def f(self, *a):
        x = V.picked(self)
        if not hasattr(x, '__%s__' % n):
            return NotImplemented
        return getattr(x, '__%s__' % n)(*V.picked(a))
    return f


ARITH = ['neg', 'abs', 'pos'] + [r + n for r in ('', 'r') for n in (
    'add', 'sub', 'mul', 'truediv', 'floordiv', 'mod', 'pow', 'lshift',
    'rshift', 'xor', 'and', 'or', 'divmod', 'matmul')]
for _n in ARITH:
    if '__%s__' % _n not in SGen.__dict__ and _n not in ('matmul', 'rmatmul'):
        setattr(SGen, '__%s__' % _n, _pickarith(_n))
    if '__%s__' % _n not in SymFloat.__dict__ and \
            hasattr(float, '__%s__' % _n):
        setattr(SymFloat, '__%s__' % _n, _pickarith(_n))


def picked_compare(a, b, op):
    return bool(getattr(operator, op)(V.picked(a), V.picked(b)))


def scalar_of(o):
    """Return o if it is a scalar this module can compare, else None."""
    if type(o) in (SGen, SymInt, SymFloat, SymBool):
        return o
    if isinstance_sym(o):
        return None
    if isinstance(o, (bool, int, float, complex, np.generic)):
        return o
    if isinstance(o, np.ndarray) and o.ndim == 0:
        return o[()]
    return None


def kind_of(o):
    t = type(o)
    if t is SGen:
        return o.kind
    if t is SymInt:
        return 'I'
    if t is SymFloat:
        return 'F'
    if t is SymBool or t is bool:
        return 'b'
    if isinstance(o, np.generic):
        return o.dtype.kind
    if isinstance(o, int):
        return 'I'
    if isinstance(o, float):
        return 'F'
    return 'C'


def boolterm(o):
    if type(o) is SGen:
        return o.val
    return V.bterm(o)


def as_int(o):
    """Integer term of an integer-like scalar."""
    if type(o) is SGen:
        if o.kind == 'b':
            return z3.If(o.val, z3.IntVal(1), z3.IntVal(0))
        return o.val
    if isinstance(o, np.generic):
        return z3.IntVal(int(o))
    return V.iterm(o)


def as_fp(o, sort):
    """FP term of a scalar, converted (rounded) to `sort`."""
    t = type(o)
    if t is SGen and o.kind == 'f':
        r = o.val
    elif t is SymFloat:
        r = o.t
        if o.narrow is not None and o.narrow.sort() == sort:
            r = o.narrow
    elif t is SGen or t in (SymInt, SymBool):
        it = as_int(o)
        s = z3.simplify(it)
        if z3.is_int_value(s):
            return V.fpval(float(s.as_long()), sort)
        return V.fpval(float(cur().pick(s, WIDE_INTS)), sort)
    else:
        return np_fp(o, sort)
    if r.sort() != sort:
        r = z3.fpFPToFP(V.RNE, r, sort)
    return r


def np_fp(o, sort):
    if isinstance(o, np.floating):
        name = o.dtype.name
        bits = int.from_bytes(np.asarray(o).astype(o.dtype.newbyteorder('<'))
                              .tobytes(), 'little')
        if name in SORTS:
            r = z3.fpBVToFP(z3.BitVecVal(bits, o.dtype.itemsize * 8),
                            SORTS[name])
            if r.sort() != sort:
                r = z3.fpFPToFP(V.RNE, r, sort)
            return z3.simplify(r)
        unsupported('float type ' + name)
    return V.fpval(float(o), sort)


_FPOPS = {'eq': z3.fpEQ, 'ne': lambda a, b: z3.Not(z3.fpEQ(a, b)),
          'lt': z3.fpLT, 'le': z3.fpLEQ, 'gt': z3.fpGT, 'ge': z3.fpGEQ}
_IOPS = {'eq': operator.eq, 'ne': operator.ne, 'lt': operator.lt,
         'le': operator.le, 'gt': operator.gt, 'ge': operator.ge}


def int_with_float(a, b, ka, kb, da, db, op):
    """Comparison of a symbolic integer with a concrete float, exactly.

    NumPy rounds the integer to the type of the comparison first, Python does
    not. Rounding is monotonic, so the result depends on two bounds.
    """
    swap = kb in 'Iiu'
    i, f = (b, a) if swap else (a, b)
    if kind_of(i) not in 'Iiu' or not isinstance_sym(i) or \
            isinstance_sym(f) or kind_of(f) not in 'fF':
        return None
    di, df = (db, da) if swap else (da, db)
    if df is not None and df.name not in SORTS:
        return None
    if di is None and df is None:
        def conv(n):
            return n
    else:
        t = (df if di is None else np.dtype('float64') if df is None
             else np.promote_types(di, df)).type

        def conv(n):
            with np.errstate(all='ignore'):
                return t(n)
        f = t(f)
    big = 2 ** 80
    if f != f:
        return mkbool(z3.BoolVal(op == 'ne'))

    def first(above):
        """The least integer whose float is above (or equal to) f."""
        lo, hi = -big, big
        while lo < hi:
            m = (lo + hi) // 2
            if above(conv(m)):
                hi = m
            else:
                lo = m + 1
        return lo
    ge, gt = first(lambda x: x >= f), first(lambda x: x > f)
    it = as_int(i)
    if swap:
        op = {'lt': 'gt', 'gt': 'lt', 'le': 'ge', 'ge': 'le'}.get(op, op)
    return mkbool({'gt': lambda: it >= gt, 'ge': lambda: it >= ge,
                   'lt': lambda: it < ge, 'le': lambda: it < gt,
                   'eq': lambda: z3.And(it >= ge, it < gt),
                   'ne': lambda: z3.Or(it < ge, it >= gt)}[op]())


def compare(a, b, op):
    """NumPy 2 comparison of two scalars (at least one symbolic)."""
    ka, kb = kind_of(a), kind_of(b)
    if ka in 'bIiu' and kb in 'bIiu':
        return mkbool(_IOPS[op](as_int(a), as_int(b)))
    if 'c' in (ka, kb) or 'C' in (ka, kb):
        if op in ('eq', 'ne') and ka == kb == 'c' and type(a) is SGen \
                and type(b) is SGen:
            r = z3.And(z3.fpEQ(a.val[0], b.val[0]),
                       z3.fpEQ(a.val[1], b.val[1]))
            return mkbool(r if op == 'eq' else z3.Not(r))
        return picked_compare(a, b, op)
    # Floating point: Python numbers are weak, NumPy types promote.
    def npname(o, k):
        if k in 'FI':
            return None
        return (o.dtype if hasattr(o, 'dtype') else np.dtype(bool))
    da, db = npname(a, ka), npname(b, kb)
    r = int_with_float(a, b, ka, kb, da, db, op)
    if r is not None:
        return r
    if da is None and db is None:
        sort = V.FP64
    elif da is None or db is None:
        d = da if da is not None else db
        if d.kind != 'f':
            # NumPy integer with a Python float.
            i, f, swap = (a, b, False) if d is da else (b, a, True)
            if type(f) is SymFloat:
                return picked_compare(a, b, op)
            r = mkint(as_int(i))
            o2 = {'lt': 'gt', 'gt': 'lt', 'le': 'ge', 'ge': 'le'}.get(op, op) \
                if swap else op
            # int64 values beyond 2**53 are rounded by NumPy first.
            if d.itemsize == 8 and bool(V.sx_or([r > 2**53, r < -2**53])):
                return picked_compare(a, b, op)
            return getattr(operator, o2)(r, float(f))
        sort = SORTS[d.name]
    else:
        d = np.promote_types(da, db)
        if d.kind != 'f' or d.name not in SORTS:
            return picked_compare(a, b, op)
        sort = SORTS[d.name]
    return mkbool(_FPOPS[op](as_fp(a, sort), as_fp(b, sort)))


WIDE_INTS = (0, 2**53 + 1, -2**53 - 1, 2**24 + 1)


def cast(x, dt):
    """Element cast to dtype dt (C casting, as astype/np.array do)."""
    dt = np.dtype(dt)
    k = dt.kind
    if k == 'O':
        return x
    if k in 'US':
        cls = SymStr if k == 'U' else SymBytes
        if type(x) is cls or isinstance(x, cls._cls):
            return x
        if k == 'U' and type(x) in (V.SymJson,):
            return x
        if k == 'U':
            return str(V.concrete(x))
        if type(x) is SymStr:
            return x.encode('ascii')
        return np.array(V.concrete(x), dtype='S')[()]
    t = type(x)
    if isinstance_sym(x) and t not in (SGen, SymInt, SymFloat, SymBool):
        raise TypeError('cannot convert %s to %s' % (x.__class__.__name__, dt))
    if not isinstance_sym(x):
        return np.asarray(x).astype(dt)[()]
    kx = kind_of(x)
    if t is SGen and x.dtype == dt:
        return x
    if k == 'b':
        if kx == 'b':
            return SGen(dt, boolterm(x))
        if kx in 'Iiu':
            return SGen(dt, as_int(x) != 0)
        if kx in 'fF':
            v = x.val if t is SGen else x.t
            return SGen(dt, z3.Not(z3.fpIsZero(v)))
    if k in 'iu' and kx in 'bIiu':
        lo, hi = dtype_range(dt)
        it = as_int(x)
        if bool(mkbool(z3.And(it >= lo, it <= hi))):
            return SGen(dt, it)
        if kx == 'I':
            raise OverflowError('Python integer out of bounds for %s' % dt)
        n = hi - lo + 1
        return SGen(dt, (it - lo) % n + lo)
    if k == 'f' and dt.name in SORTS and kx in 'fF':
        return SGen(dt, as_fp(x, SORTS[dt.name]))
    if k == 'f' and dt.name in SORTS and kx == 'b':
        s = SORTS[dt.name]
        return SGen(dt, z3.If(boolterm(x), V.fpval(1.0, s), V.fpval(0.0, s)))
    if k in 'fc' and kx in 'Iiu':
        # Integers are rounded to the nearest float.
        return np.asarray(cur().pick(as_int(x), WIDE_INTS)).astype(dt)[()]
    if k == 'c' and kx in 'fF':
        s = V.FP64 if dt.itemsize == 16 else V.FP32
        return SGen(dt, (as_fp(x, s), V.fpval(0.0, s)))
    if k == 'c' and kx == 'c':
        s = V.FP64 if dt.itemsize == 16 else V.FP32
        return SGen(dt, tuple(v if v.sort() == s else
                              z3.fpFPToFP(V.RNE, v, s) for v in x.val))
    return np.asarray(V.picked(x)).astype(dt)[()]


def same_bits(a, b):
    """Are two scalars of one dtype the same value, bit for bit?"""
    if type(a) is SGen and type(b) is SGen:
        if a.dtype != b.dtype:
            return False
        if a.kind == 'c':
            return mkbool(z3.And(a.val[0] == b.val[0], a.val[1] == b.val[1]))
        return mkbool(a.val == b.val)
    s, c = (a, b) if type(a) is SGen else (b, a)
    if not isinstance(c, np.generic) or c.dtype != s.dtype:
        return False
    if s.kind in 'iu':
        return mkbool(s.val == int(c))
    if s.kind == 'b':
        return mkbool(s.val == bool(c))
    if s.kind == 'f':
        return mkbool(s.val == np_fp(c, SORTS[s.dtype.name]))
    st = V.FP64 if s.dtype.itemsize == 16 else V.FP32
    return mkbool(z3.And(s.val[0] == np_fp(c.real, st),
                         s.val[1] == np_fp(c.imag, st)))


# -------------------------------------------------------------------- arrays
def obj0(x):
    """0-d object array holding x (which may look like a sequence)."""
    a = np.empty(1, dtype=object)
    a[0] = x
    return a.reshape(())


class SNd(Sym):
    """ndarray with symbolic elements (`a`: object array), or, if `a` is None,
    with a (partly) symbolic shape and irrelevant content."""
    __slots__ = ('a', 'dtype', '_shape', 'owner')

    def __init__(self, a, dtype, shape=None):
        self.a = a
        self.dtype = np.dtype(dtype)
        self._shape = shape
        self.owner = True

    @staticmethod
    def from_items(items, dtype, shape):
        a = np.empty(len(items), dtype=object)
        for i, x in enumerate(items):
            a[i] = x
        a.shape = shape
        return SNd(a, dtype)

    @property
    def base(self):
        a = self._need()
        return None if self.owner and a.base is None else b''

    @staticmethod
    def scalar(x, dtype):
        return SNd(obj0(x), dtype)

    @property
    def __class__(self):
        return np.ndarray

    def _need(self):
        if self.a is None:
            cur().stop(Unsupported('content of an array of symbolic shape'))
        return self.a

    @property
    def shape(self):
        return self.a.shape if self.a is not None else self._shape

    @property
    def ndim(self):
        return len(self.shape)

    @property
    def size(self):
        if self.a is not None:
            return self.a.size
        r = 1
        for n in self._shape:
            r = n * r
        return r

    @property
    def itemsize(self):
        return self.dtype.itemsize

    @property
    def nbytes(self):
        return self.size * self.dtype.itemsize

    def items(self):
        return list(self._need().reshape(-1))

    def _concrete(self):
        if self.a is None:
            shp = tuple(V.concrete(x) for x in self._shape)
            return np.zeros(shp, dtype=self.dtype)
        vals = [V.concrete(x) for x in self.items()]
        if self.dtype.kind in 'US':
            return np.array(vals, dtype=self.dtype.kind).reshape(self.shape)
        r = np.empty(len(vals), dtype=self.dtype)
        for i, v in enumerate(vals):
            r[i] = v
        return r.reshape(self.shape)

    def _wrap(self, r):
        if isinstance(r, np.ndarray):
            return SNd(r, self.dtype)
        return self._elem(r)

    def _elem(self, r):
        if self.dtype.kind == 'U' and isinstance(r, str):
            return r if isinstance_sym(r) else np.str_(r)
        if self.dtype.kind == 'S' and isinstance(r, bytes):
            its = r._need() if isinstance_sym(r) else list(r)
            its = list(its)
            while its and bool(mkbool(V.ieq(its[-1], 0))):
                its.pop()
            return SymBytes._mk(its)
        return r

    @staticmethod
    def _key(k):
        if type(k) is SNd:
            if k.dtype.kind == 'b':
                return np.array([bool(x) for x in k.items()],
                                dtype=bool).reshape(k.shape)
            return k._concrete()
        if isinstance(k, tuple) and type(k) is tuple:
            return tuple(SNd._key(x) for x in k)
        if type(k) in (SymInt, SGen):
            return operator.index(k)
        if type(k) is slice:
            f = (lambda x: operator.index(x) if isinstance_sym(x) else x)
            return slice(f(k.start), f(k.stop), f(k.step))
        return k

    def __getitem__(self, k):
        if self.a is None and k == ():
            return self
        if type(k) is str:
            raise IndexError('only integers, slices are valid indices')
        return self._wrap(self._need()[self._key(k)])

    def __setitem__(self, k, v):
        a = self._need()
        k = self._key(k)
        if type(v) is SNd:
            v = v.astype(self.dtype)._need()
            a[k] = v
        elif isinstance_sym(v):
            x = cast(v, self.dtype)
            tgt = a[k]
            if isinstance(tgt, np.ndarray):
                for i in np.ndindex(tgt.shape):
                    tgt[i] = x
                a[k] = tgt
            else:
                a[k] = x
        elif isinstance(v, (list, tuple)) and has_sym(v):
            a[k] = array(v, self.dtype)._need()
        else:
            v = np.asarray(v).astype(self.dtype)
            a[k] = to_obj(v)

    def __len__(self):
        if not self.shape:
            raise TypeError('len() of unsized object')
        return V.concrete(self.shape[0])

    def _len(self):
        if not self.shape:
            raise TypeError('len() of unsized object')
        return self.shape[0]

    def __iter__(self):
        if not self.shape:
            raise TypeError('iteration over a 0-d array')
        return iter([self._wrap(self._need()[i])
                     for i in range(self.a.shape[0])])

    def __bool__(self):
        if self.a is None:
            unsupported('truth of an array of symbolic shape')
        if self.a.size != 1:
            raise ValueError('The truth value of an array is ambiguous')
        return bool(self.items()[0])

    def __int__(self):
        return int(self.item())

    def __index__(self):
        return operator.index(self.item())

    def __float__(self):
        return float(self.item())

    @property
    def flat(self):
        a = self._need().reshape(-1)
        return SNd(a, self.dtype)

    @property
    def T(self):
        return SNd(self._need().T, self.dtype)

    def item(self, *a):
        if a:
            r = self._need().reshape(-1)[a[0]] if len(a) == 1 \
                else self._need()[a]
        else:
            if self._need().size != 1:
                raise ValueError('can only convert an array of size 1')
            r = self.items()[0]
        return pyval(r)

    def tolist(self):
        def rec(a):
            if isinstance(a, np.ndarray) and a.ndim:
                return [rec(x) if isinstance(x, np.ndarray) else pyval(x)
                        for x in a]
            return pyval(a[()] if isinstance(a, np.ndarray) else a)
        return rec(self._need())

    def ravel(self, *a, **k):
        return SNd(self._need().ravel(), self.dtype)

    def flatten(self, *a, **k):
        return SNd(self._need().flatten(), self.dtype)

    def reshape(self, *shape, **k):
        if len(shape) == 1:
            shape = shape[0]
        return SNd(self._need().reshape(shape), self.dtype)

    def squeeze(self, axis=None):
        return SNd(self._need().squeeze(axis), self.dtype)

    def transpose(self, *a):
        return SNd(self._need().transpose(*a), self.dtype)

    def copy(self, *a, **k):
        if self.a is None:
            return SNd(None, self.dtype, self._shape)
        return SNd(self.a.copy(), self.dtype)

    def __copy__(self):
        return self.copy()

    def __deepcopy__(self, memo):
        return self.copy()

    def view(self, *a, **k):
        if a or k:
            return V.picked(self).view(*a, **k)
        return SNd(self._need()[...], self.dtype)

    def astype(self, dt, copy=True, **k):
        dt = np.dtype(dt)
        if dt == self.dtype and not copy:
            return self
        if self.a is None:
            return SNd(None, dt, self._shape)
        if dt == object:
            return self.a.copy()
        return SNd.from_items([cast(x, dt) for x in self.items()], dt,
                              self.shape)

    def tobytes(self, *a, **k):
        if self.dtype.kind in 'SV':
            out = SymBytes([])
            items = []
            for x in self.items():
                x = x if type(x) is SymBytes else SymBytes(list(bytes(x)))
                its = list(x._need())
                w = self.dtype.itemsize
                if self.size > 1 or len(its) > w:
                    its += [0] * (w - len(its))
                items += its
            out.items = items
            return SymBytes._mk(items)
        if self.dtype.itemsize == 1 and self.dtype.kind in 'ui':
            items = []
            for x in self.items():
                if type(x) is SGen:
                    t = x.val
                    items.append(t if self.dtype.kind == 'u' else t % 256)
                else:
                    items.append(int(x) % 256)
            return SymBytes._mk(items)
        return V.picked(self).tobytes()

    def __getattr__(self, name):
        """Attributes that are not modelled: on picked elements."""
        if name.startswith('__') and name.endswith('__'):
            raise AttributeError(name)
        if not hasattr(np.ndarray, name):
            raise AttributeError(name)
        if not callable(getattr(np.ndarray, name)):
            return getattr(V.picked(self), name)

        def method(*args, **kw):
            x = V.picked(self)
            y = x.copy()
            r = getattr(y, name)(*V.picked(args), **V.picked(kw))
            if y.shape != x.shape or y.dtype != x.dtype:
                unsupported('array method ' + name)
            if self.a is not None:
                self.a[...] = to_obj(y)
            return r
        return method

    def resize(self, *shape, **k):
        if self.base is not None:
            raise ValueError('cannot resize this array: it does not own its '
                             'data')
        a = self._need()
        if len(shape) == 1 and not isinstance(shape[0], int):
            shape = tuple(shape[0])
        n = 1
        for s in shape:
            n *= s
        items = list(a.reshape(-1))[:n]
        zero = np.zeros((), dtype=self.dtype)[()]
        items += [zero] * (n - len(items))
        self.a = SNd.from_items(items, self.dtype, shape).a

    def fill(self, v):
        self[...] = v

    def _minmax(self, op):
        its = self.items()
        if not its:
            raise ValueError('zero-size array to reduction operation')
        if self.dtype.kind not in 'iubf':
            return getattr(V.picked(self), 'max' if op == 'gt' else 'min')()
        if self.dtype.kind == 'f':
            for x in its:
                if bool(compare_any(x, x, 'ne')):
                    return x
        r = its[0]
        for x in its[1:]:
            if bool(compare_any(x, r, op)):
                r = x
        return r

    def max(self, *a, **k):
        if a or k:
            return V.picked(self).max(*a, **k)
        return self._minmax('gt')

    def min(self, *a, **k):
        if a or k:
            return V.picked(self).min(*a, **k)
        return self._minmax('lt')

    def any(self, *a, **k):
        if a or k:
            return V.picked(self).any(*a, **k)
        its = self.items()
        if self.dtype.kind == 'b':
            return npb(V.sx_or([mkbool(boolterm(x)) for x in its]))
        return npb(any(bool(x) for x in its))

    def all(self, *a, **k):
        if a or k:
            return V.picked(self).all(*a, **k)
        its = self.items()
        if self.dtype.kind == 'b':
            return npb(V.sx_and([mkbool(boolterm(x)) for x in its]))
        return npb(all(bool(x) for x in its))

    def sum(self, *a, **k):
        if self.dtype.kind != 'b' or a or k:
            return V.picked(self).sum(*a, **k)
        r = 0
        for x in self.items():
            r = mkint(as_int(x)) + r
        return r

    def _cmp(self, o, name):
        if self.a is None:
            unsupported('comparison of an array of symbolic shape')
        o2 = scalar_of(o)
        if o2 is None and type(o) is not SNd and not isinstance(
                o, (np.ndarray, list, tuple)):
            if name in ('eq', 'ne'):
                v = np.bool_(name == 'ne')
                return SNd.from_items([v] * self.a.size, 'bool', self.shape)
            return NotImplemented
        if o2 is not None:
            its = [compare_any(x, o2, name) for x in self.items()]
            return mkarr([npb(x) for x in its], self.shape)
        ob = asobj(o)
        a, b = np.broadcast_arrays(self.a, ob)
        its = [npb(compare_any(x, y, name))
               for x, y in zip(a.reshape(-1), b.reshape(-1))]
        return mkarr(its, a.shape)

    def __eq__(self, o):
        return self._cmp(o, 'eq')

    def __ne__(self, o):
        return self._cmp(o, 'ne')

    def __lt__(self, o):
        return self._cmp(o, 'lt')

    def __le__(self, o):
        return self._cmp(o, 'le')

    def __gt__(self, o):
        return self._cmp(o, 'gt')

    def __ge__(self, o):
        return self._cmp(o, 'ge')

    def __hash__(self):
        raise TypeError("unhashable type: 'numpy.ndarray'")

    def __invert__(self):
        return mkarr([npb(V.sx_not(mkbool(boolterm(x))))
                      for x in self.items()], self.shape)

    def __and__(self, o):
        return logical(self, o, V.sx_and)

    __rand__ = __and__

    def __or__(self, o):
        return logical(self, o, V.sx_or)

    __ror__ = __or__


for _n in ARITH:
    if '__%s__' % _n not in SNd.__dict__:
        setattr(SNd, '__%s__' % _n, _pickarith(_n))


def logical(a, b, f):
    x, y = np.broadcast_arrays(asobj(a), asobj(b))
    return mkarr([npb(f([mkbool(boolterm(p)), mkbool(boolterm(q))]))
                  for p, q in zip(x.reshape(-1), y.reshape(-1))], x.shape)


def npb(x):
    """bool/SymBool -> NumPy bool scalar (symbolic or not)."""
    if type(x) is SymBool:
        return SGen('bool', x.t)
    if type(x) is SGen:
        return x
    return np.bool_(x)


def mkarr(items, shape):
    """bool array from (possibly symbolic) items."""
    if not any(isinstance_sym(x) for x in items):
        return np.array([bool(x) for x in items], dtype=bool).reshape(shape)
    return SNd.from_items(items, 'bool', shape)


def compare_any(a, b, op):
    if type(a) in (SymStr, SymBytes) or type(b) in (SymStr, SymBytes) or \
            isinstance(a, (str, bytes)):
        return getattr(operator, op)(a, b)
    if not isinstance_sym(a) and not isinstance_sym(b):
        return bool(getattr(operator, op)(a, b))
    return compare(a, b, op)


def pyval(x):
    if type(x) is SGen:
        return x.item()
    if isinstance(x, np.generic):
        return x.item()
    return x


def to_obj(v):
    """Real array -> object array of NumPy scalars."""
    a = np.empty(v.shape, dtype=object)
    for i in np.ndindex(v.shape):
        a[i] = v[i]
    return a


def asobj(o):
    if type(o) is SNd:
        return o._need()
    if isinstance_sym(o):
        return obj0(o)
    if isinstance(o, (list, tuple)) and has_sym(o):
        return array(o)._need()
    return to_obj(np.asarray(o))


def has_sym(x, depth=300):
    if isinstance_sym(x):
        return True
    if depth:
        t = type(x)
        if t in (list, tuple):
            return any(has_sym(y, depth - 1) for y in x)
        if t is dict:
            return any(has_sym(y, depth - 1) for y in x.values())
        if isinstance(x, np.ndarray) and x.dtype == object and x.size < 64:
            return any(has_sym(y, depth - 1) for y in x.reshape(-1))
    return False


def elem_dtype(x):
    t = type(x)
    if t is SGen or t is SNd:
        return x.dtype
    if t is SymBool:
        return np.dtype(bool)
    if t is SymInt:
        return np.dtype('int64')
    if t is SymFloat:
        return np.dtype('float64')
    if t is SymStr:
        return np.dtype('U%d' % max(1, len(x)))
    if t is V.SymJson:
        return np.dtype('U1')
    if t is SymBytes:
        return np.dtype('S%d' % max(1, len(x)))
    if isinstance_sym(x):
        return np.dtype(object)
    return np.asarray(x).dtype


def array(obj, dtype=None, copy=True, ndmin=0, **kw):
    """np.array for arguments with symbolic parts."""
    if kw.pop('order', None) not in (None, 'K', 'C') or kw:
        unsupported('np.array options')
    if type(obj) is SNd:
        r = obj.copy() if copy else obj
        if dtype is not None and np.dtype(dtype) != obj.dtype:
            r = r.astype(dtype)
    else:
        shape = []

        def flat(x, d):
            if type(x) in (list, tuple):
                if len(shape) == d:
                    shape.append(len(x))
                elif shape[d] != len(x):
                    raise ValueError('inhomogeneous shape')
                return [z for y in x for z in flat(y, d + 1)]
            if type(x) is SNd:
                return flat(x.tolist_keep(), d) if x.shape else [x[()]]
            if isinstance(x, np.ndarray) and x.ndim:
                return flat(list(x), d)
            return [x]
        items = flat(obj, 0)
        if dtype is not None:
            dt = np.dtype(dtype)
        else:
            dt = elem_dtype(items[0])
            for x in items[1:]:
                dt = np.promote_types(dt, elem_dtype(x))
        if dt == object:
            a = np.empty(len(items), dtype=object)
            for i, x in enumerate(items):
                a[i] = x
            return a.reshape(shape)
        items = [cast(x, dt) for x in items]
        if dt.kind == 'U':
            items = [strip_nul(x) for x in items]
        if dt.kind in 'US' and dt.itemsize == 0:
            dt = np.dtype('%s%d' % (dt.kind, max(
                [1] + [slen(x) for x in items])))
        r = SNd.from_items(items, dt, tuple(shape))
    while r.ndim < ndmin:
        r = r.reshape((1,) + tuple(r.shape))
    return r


def slen(x):
    if type(x) is V.SymJson:
        return 1
    if type(x) in (SymStr, SymBytes) and not isinstance(x.length, int):
        return 1
    return len(x)


def strip_nul(x):
    """NumPy strings lose trailing NULs."""
    if type(x) is SymStr and x.items is not None:
        its = list(x.items)
        while its and bool(mkbool(V.ieq(its[-1], 0))):
            its.pop()
        return SymStr._mk(its)
    if isinstance(x, str) and not isinstance_sym(x):
        return x.rstrip('\0')
    return x


def _tolist_keep(self):
    return [self[i] for i in range(self.shape[0])]


SNd.tolist_keep = _tolist_keep
