"""The harness interface, concrete: runs a harness on the real code.

A harness is a function h(E, **params).  It asks E for inputs, drives the code
under test through its public interface and states assertions with E.check.
Here, the inputs come from a witness (a solver assignment).
"""
import datetime
import math
import os
import shutil
import struct

import numpy as np


class Rejected(BaseException):
    """The inputs are outside of the assumptions of the harness."""


class SkipRest(BaseException):
    """The harness has nothing more to do."""


class Base:
    """Parts that are the same for symbolic and concrete execution."""

    symbolic = False
    Skip = SkipRest

    def __init__(self, tmpfn, tier='quick'):
        self._tmpfn = tmpfn
        self._tmp = None
        self.tier = tier
        self.thorough = tier == 'thorough'

    @property
    def tmp(self):
        if self._tmp is None:
            self._tmp = self._tmpfn()
        return self._tmp

    def path(self, name):
        return os.path.join(self.tmp, name)

    def snapshot(self, path, name):
        """Copy a file as it is now (as after a crash of the process)."""
        new = self.path(name)
        shutil.copyfile(path, new)
        return new

    def done(self):
        raise SkipRest()


class Concrete(Base):
    def __init__(self, inputs, tmpfn, tier='quick'):
        super().__init__(tmpfn, tier)
        self.inputs = inputs
        self.log = []           # (label, ok, info)

    # -- inputs -------------------------------------------------------------
    def _in(self, name):
        if name not in self.inputs:
            raise Rejected('no value for input ' + name)
        return self.inputs[name]

    def choice(self, name, options):
        options = list(options)
        if len(options) == 1:
            return options[0]
        return options[self._in(name)]

    def flag(self, name):
        return bool(self._in(name))

    def int(self, name, lo, hi):
        return int(self._in(name))

    def float(self, name):
        return struct.unpack('<d', struct.pack('<Q', self._in(name)))[0]

    def str(self, name, nmax, nmin=0, **kw):
        return ''.join(map(chr, self._in(name)))

    def text(self, name, nmax):
        return 'x' * self._in(name)

    def bytes(self, name, nmax, nmin=0):
        return bytes(self._in(name))

    def blob(self, name, nmax):
        return b'x' * self._in(name)

    def date(self, name):
        return datetime.date(*self._in(name))

    def time(self, name):
        return datetime.time(*self._in(name))

    def datetime(self, name):
        return datetime.datetime(*self._in(name))

    @staticmethod
    def _gen(dtype, v):
        dt = np.dtype(dtype)
        if dt.kind in 'iu':
            return dt.type(v)
        if dt.kind == 'b':
            return np.bool_(v)
        parts = v if dt.kind == 'c' else [v]
        w = dt.itemsize // len(parts)
        raw = b''.join(int(x).to_bytes(w, 'little') for x in parts)
        return np.frombuffer(raw, dtype=dt)[0]

    def scalar(self, name, dtype, **kw):
        return self._gen(dtype, self._in(name))

    def array(self, name, dtype, shape, at=None):
        n = 1
        for s in shape:
            n *= s
        if at is not None and n:
            a = np.zeros(n, dtype=dtype)
            a[list(at)] = self.array(name, dtype, (len(at),))
            a.shape = shape
            return a
        vals = self._in(name) if n else []
        a = np.empty(n, dtype=dtype)
        for i, v in enumerate(vals):
            a[i] = self._gen(dtype, v)
        a.shape = shape
        return a

    def absarray(self, name, dtype, ndim, nmax):
        return np.zeros([self._in('%s.%d' % (name, i)) for i in range(ndim)],
                        dtype=dtype)

    # -- assertions -----------------------------------------------------------
    def assume(self, cond):
        if not cond:
            raise Rejected('assumption')

    def check(self, label, cond, info=''):
        ok = bool(cond)
        if isinstance(info, BaseException):
            info = repr(info)
        self.log.append((label, ok, '' if ok else str(info)))
        return ok

    def all(self, conds):
        return all([bool(c) for c in conds])

    def any(self, conds):
        return any([bool(c) for c in conds])

    def no(self, c):
        return not c

    def iff(self, a, b):
        return bool(a) == bool(b)

    def implies(self, a, b):
        return (not a) or bool(b)

    def same(self, a, b):
        """Equal in type and value, bit for bit."""
        if type(a) is not type(b):
            return False
        if isinstance(a, np.ndarray):
            if a.dtype != b.dtype or a.shape != b.shape:
                return False
            if a.size == 0:
                return True
            return _bits(a) == _bits(b)
        if isinstance(a, np.generic):
            return a.dtype == b.dtype and _bits(np.asarray(a)) == _bits(
                np.asarray(b))
        if isinstance(a, float):
            return _bits(np.asarray(a)) == _bits(np.asarray(b))
        if isinstance(a, (list, tuple)):
            return len(a) == len(b) and all(self.same(x, y)
                                            for x, y in zip(a, b))
        if isinstance(a, dict):
            return set(a) == set(b) and all(self.same(a[k], b[k]) for k in a)
        if isinstance(a, datetime.datetime) or isinstance(a, datetime.time):
            return a == b and a.tzinfo == b.tzinfo
        return bool(a == b)

    def is_a(self, x, *types):
        return type(x) in types

    def outcome(self, fn, *args, **kw):
        """('ok', result) or ('exc', exception)."""
        try:
            return 'ok', fn(*args, **kw)
        except Exception as e:
            return 'exc', e


def _bits(a):
    a = np.ascontiguousarray(a)
    if a.dtype.byteorder == '>':
        a = a.astype(a.dtype.newbyteorder('='))
    if a.dtype.kind in 'fc':
        p = a.view({2: 'f2', 4: 'f4', 8: 'f8'}[
            a.dtype.itemsize // (2 if a.dtype.kind == 'c' else 1)]).copy()
        p[np.isnan(p)] = math.nan
        a = p
    return a.tobytes()
