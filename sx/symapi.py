"""The harness interface, symbolic: inputs become solver variables."""
import datetime

import numpy as np
import z3

from . import npsym as N
from . import values as V
from .conapi import Base
from .engine import cur
from .npsym import SGen, SNd
from .values import (SymBool, SymBytes, SymFloat, SymInt, SymStr,
                     isinstance_sym, mkbool)


def _ev(m, t):
    return m.eval(t, model_completion=True)


def _iv(m, t):
    return _ev(m, t).as_long()


class Symbolic(Base):
    symbolic = True

    def __init__(self, path, tmpfn, tier='quick'):
        super().__init__(tmpfn, tier)
        self.p = path

    def _reg(self, name, dec, terms=()):
        if name in self.p.inputs:
            raise RuntimeError('input %s used twice' % name)
        self.p.inputs[name] = dec
        self.p.input_terms += list(terms)

    # -- inputs -------------------------------------------------------------
    def choice(self, name, options):
        options = list(options)
        if len(options) == 1:
            return options[0]
        i = self.p.choose(len(options))
        self._reg(name, lambda m: i)
        return options[i]

    def flag(self, name):
        t = z3.Bool(name)
        self._reg(name, lambda m: z3.is_true(_ev(m, t)), [t])
        return SymBool(t)

    def int(self, name, lo, hi):
        t = z3.Int(name)
        self.p.assume(z3.And(t >= lo, t <= hi))
        self._reg(name, lambda m: _iv(m, t), [t])
        return SymInt(t)

    def float(self, name):
        b = z3.BitVec(name, 64)
        self._reg(name, lambda m: _iv(m, b), [b])
        return SymFloat(z3.fpBVToFP(b, V.FP64))

    def _chars(self, name, n, lo, hi, surrogates=True):
        ts = [z3.Int('%s[%d]' % (name, i)) for i in range(n)]
        for t in ts:
            c = z3.And(t >= lo, t <= hi)
            if not surrogates and hi >= 0xd800:
                c = z3.And(c, z3.Or(t < 0xd800, t > 0xdfff))
            self.p.assume(c)
        self._reg(name, lambda m: [_iv(m, t) for t in ts], ts)
        return ts

    def str(self, name, nmax, nmin=0, lo=0, hi=0x10ffff, surrogates=False):
        if surrogates:
            self.p.surrogates = True
        n = nmin + self.p.choose(nmax - nmin + 1)
        return SymStr._mk(self._chars(name, n, lo, hi, surrogates))

    def bytes(self, name, nmax, nmin=0):
        n = nmin + self.p.choose(nmax - nmin + 1)
        return SymBytes._mk(self._chars(name, n, 0, 255))

    def text(self, name, nmax):
        return SymStr(None, self.int(name, 0, nmax))

    def blob(self, name, nmax):
        return SymBytes(None, self.int(name, 0, nmax))

    def _fields(self, name, cls):
        scls = V._DATECLS[cls]
        ts = [z3.Int('%s.%s' % (name, n)) for n in scls._names]
        f = [SymInt(t) for t in ts]
        self.p.assume(V.date_valid(cls, f))
        self._reg(name, lambda m: [_iv(m, t) for t in ts], ts)
        return scls(f)

    def date(self, name):
        return self._fields(name, datetime.date)

    def time(self, name):
        return self._fields(name, datetime.time)

    def datetime(self, name):
        return self._fields(name, datetime.datetime)

    def _gen(self, name, dtype):
        dt = np.dtype(dtype)
        if dt.kind in 'iu':
            lo, hi = N.dtype_range(dt)
            t = z3.Int(name)
            self.p.assume(z3.And(t >= lo, t <= hi))
            return SGen(dt, t), (lambda m: _iv(m, t)), [t]
        if dt.kind == 'b':
            t = z3.Bool(name)
            return SGen(dt, t), (lambda m: z3.is_true(_ev(m, t))), [t]
        if dt.kind == 'f':
            w = dt.itemsize * 8
            b = z3.BitVec(name, w)
            v = z3.fpBVToFP(b, N.SORTS[dt.name])
            return SGen(dt, v), (lambda m: _iv(m, b)), [b]
        w = dt.itemsize * 4
        s = V.FP64 if w == 64 else V.FP32
        bs = [z3.BitVec(name + p, w) for p in ('.re', '.im')]
        return SGen(dt, tuple(z3.fpBVToFP(b, s) for b in bs)), \
            (lambda m: [_iv(m, b) for b in bs]), bs

    def scalar(self, name, dtype, lo=None, hi=None):
        v, dec, terms = self._gen(name, dtype)
        self._reg(name, dec, terms)
        if lo is not None:
            self.p.assume(z3.And(v.val >= lo, v.val <= hi))
        return v

    def array(self, name, dtype, shape, at=None):
        n = 1
        for s in shape:
            n *= s
        if n == 0:
            return np.zeros(shape, dtype)
        if at is not None:
            # Only the elements at these positions are arbitrary, others 0.
            items = [np.dtype(dtype).type(0)] * n
            v = self.array(name, dtype, (len(at),))
            for i, k in enumerate(at):
                items[k] = v.ravel().a[i]
            return SNd.from_items(items, dtype, shape)
        gens = [self._gen('%s[%d]' % (name, i), dtype) for i in range(n)]
        self._reg(name, lambda m: [d(m) for _, d, _ in gens],
                  [t for _, _, ts in gens for t in ts])
        return SNd.from_items([g for g, _, _ in gens], dtype, shape)

    def absarray(self, name, dtype, ndim, nmax):
        return SNd(None, dtype, tuple(
            self.int('%s.%d' % (name, i), 0, nmax) for i in range(ndim)))

    # -- assertions -----------------------------------------------------------
    def assume(self, cond):
        self.p.assume(bt(cond))

    def check(self, label, cond, info=''):
        if self.p.pending is not None:
            raise self.p.pending
        return self.p.check(bt(cond), label, info)

    def all(self, conds):
        return mkbool(z3.And([bt(c) for c in conds])) if conds else True

    def any(self, conds):
        return mkbool(z3.Or([bt(c) for c in conds])) if conds else False

    def no(self, c):
        return mkbool(z3.Not(bt(c)))

    def iff(self, a, b):
        return mkbool(bt(a) == bt(b))

    def implies(self, a, b):
        return mkbool(z3.Implies(bt(a), bt(b)))

    def same(self, a, b):
        if a.__class__ is not b.__class__:
            return False
        if isinstance(a, np.ndarray):
            return self._same_arrays(a, b)
        if not isinstance_sym(a) and not isinstance_sym(b):
            if isinstance(a, np.generic):
                return a.dtype == b.dtype and z3.is_true(
                    bt(self._same_arrays(np.asarray(a), np.asarray(b))))
            if isinstance(a, float):
                return mkbool(V.fpval(a) == V.fpval(b))
            if isinstance(a, (list, tuple)):
                return len(a) == len(b) and self.all(
                    [self.same(x, y) for x, y in zip(a, b)])
            if isinstance(a, dict):
                return set(a) == set(b) and self.all(
                    [self.same(a[k], b[k]) for k in a])
            return bool(a == b)
        if type(a) is SGen or type(b) is SGen:
            return N.same_bits(a, b)
        if isinstance(a, float):
            if type(a) is SymFloat and type(b) is SymFloat and \
                    a.narrow is not None and b.narrow is not None and \
                    a.narrow.sort() == b.narrow.sort():
                return mkbool(a.narrow == b.narrow)
            x = a.t if type(a) is SymFloat else V.fpval(a)
            y = b.t if type(b) is SymFloat else V.fpval(b)
            return mkbool(x == y)
        return a == b

    def _same_arrays(self, a, b):
        if a.dtype != b.dtype and not (a.dtype.kind in 'USV' and
                                       a.dtype.kind == b.dtype.kind):
            return False
        sa, sb = a.shape, b.shape
        if len(sa) != len(sb):
            return False
        eq = self.all([mkbool(V.iterm(x) == V.iterm(y))
                       for x, y in zip(sa, sb)])
        if getattr(a, 'a', 0) is None or getattr(b, 'a', 0) is None:
            return eq
        if not bool(eq):
            return False
        xs = N.asobj(a).reshape(-1)
        ys = N.asobj(b).reshape(-1)
        out = []
        for x, y in zip(xs, ys):
            if type(x) is SGen or type(y) is SGen:
                out.append(N.same_bits(x, y))
            elif isinstance(x, (np.floating, np.complexfloating)):
                out.append(x.tobytes() == y.tobytes()
                           or bool(x != x and y != y))
            else:
                out.append(x == y)
        return self.all(out)

    def is_a(self, x, *types):
        return x.__class__ in types

    def outcome(self, fn, *args, **kw):
        from .calls import call
        try:
            r = call(fn, *args, **kw)
        except Exception as e:
            if self.p.pending is not None:
                raise self.p.pending
            return 'exc', e
        if self.p.pending is not None:
            raise self.p.pending
        return 'ok', r


def bt(c):
    """z3 term of a condition."""
    if isinstance(c, z3.BoolRef):
        return c
    if type(c) is SymBool:
        return c.t
    if type(c) is SGen and c.kind == 'b':
        return c.val
    if type(c) is SymInt:
        return c.t != 0
    return z3.BoolVal(bool(c))
