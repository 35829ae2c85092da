"""Models of the file formats used by the backends.

Each model keeps the (symbolic) content of a file in memory and writes a token
naming it into a real file in the scratch directory of the path, so that the
code's own use of os, open, shutil etc. works on real files.
"""
import os
import warnings
import zipfile

import h5py
import numpy as np
import scipy.io as sio
import z3

from . import calls as C
from . import npsym as N
from . import values as V
from .engine import Unsupported, cur
from .npsym import SGen, SNd, has_sym
from .values import (Sym, SymBytes, SymFloat, SymInt, SymStr, isinstance_sym)

MAGIC = b'SXTOKEN:'


class World:
    """File contents known on this path."""

    def __init__(self):
        self.contents = []
        self.h5open = {}
        self.mat_names = 31     # length limit of struct fields

    def put(self, obj):
        self.contents.append(obj)
        return MAGIC + b'%d\n' % (len(self.contents) - 1)

    def get(self, raw, kind):
        if not raw.startswith(MAGIC):
            return None
        k, obj = self.contents[int(raw[len(MAGIC):].split(b'\n')[0])]
        return obj if k == kind else None


def world():
    p = cur()
    if p.world is None:
        p.world = World()
    return p.world


def fspath(path):
    if isinstance_sym(path):
        path = V.concrete(path)
    return os.fspath(path)


def freeze(x):
    """Snapshot of a value at the time it is written to a file."""
    if type(x) is SNd:
        return x.copy()
    if isinstance_sym(x):
        return x
    if isinstance(x, np.ndarray):
        return x.copy()
    return x


# ----------------------------------------------------------------------- npz
class NpzFile:
    def __init__(self, content):
        self._c = content
        self._open = True

    @property
    def files(self):
        return list(self._c)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def close(self):
        self._open = False

    def __getitem__(self, k):
        if not self._open:
            raise ValueError('I/O operation on closed file')
        if k not in self._c:
            if isinstance(k, str) and k.endswith('.npy') and \
                    k[:-4] in self._c:
                k = k[:-4]
            else:
                raise KeyError('%s is not a file in the archive' % k)
        v = self._c[k]
        if v is PICKLED:
            raise ValueError('Object arrays cannot be loaded when '
                             'allow_pickle=False')
        v = freeze(v)
        if type(v) is SNd:
            v.owner = False     # as read by NumPy
        return v

    def __iter__(self):
        return iter(self._c)

    def __len__(self):
        return len(self._c)

    def __contains__(self, k):
        return k in self._c

    def keys(self):
        return list(self._c)

    def values(self):
        return [self[k] for k in self._c]

    def items(self):
        return [(k, self[k]) for k in self._c]

    def get(self, k, default=None):
        return self[k] if k in self._c else default


PICKLED = object()


def npz_value(v):
    if type(v) is SNd:
        return v.copy()
    if isinstance_sym(v):
        return N.array(v)
    if has_sym(v):
        if isinstance(v, (list, tuple)):
            return N.array(v)
        return PICKLED
    r = np.asanyarray(v)
    if r.dtype.hasobject:
        return PICKLED
    return r.copy()


def savez(file, *args, allow_pickle=True, **kwds):
    d = dict(kwds)
    for i, a in enumerate(args):
        k = 'arr_%d' % i
        if k in d:
            raise ValueError('Cannot use un-named variables and keyword ' + k)
        d[k] = a
    for k in d:
        if not isinstance(k, str):
            raise TypeError('keywords must be strings')
    content = {k: npz_value(v) for k, v in d.items()}
    if not allow_pickle and any(v is PICKLED for v in content.values()):
        raise ValueError('Object arrays cannot be saved')
    token = world().put(('npz', content))
    if hasattr(file, 'write'):
        file.write(token)
        return
    path = fspath(file)
    if not path.endswith('.npz'):
        path += '.npz'
    with open(path, 'wb') as f:
        f.write(token)


def np_load(file, mmap_mode=None, allow_pickle=False, **kw):
    if hasattr(file, 'read'):
        raw = file.read()
    else:
        with open(fspath(file), 'rb') as f:
            raw = f.read()
    c = world().get(raw, 'npz')
    if c is None:
        if not raw:
            raise EOFError('No data left in file')
        raise ValueError('Cannot load file containing pickled data when '
                         'allow_pickle=False')
    if allow_pickle and any(v is PICKLED for v in c.values()):
        cur().stop(Unsupported('pickled arrays'))
    return NpzFile(c)


# ----------------------------------------------------------------------- mat
def _mat_numeric(a):
    """What savemat/loadmat make of a numeric array."""
    dt = a.dtype
    name = dt.name
    if dt.kind == 'b':
        a = a.astype('uint8')
    elif name == 'float16':
        a = a.astype('float64')
    elif name in ('float128', 'longdouble'):
        a = a.astype('float64')
    elif dt.byteorder == '>':
        a = a.astype(dt.newbyteorder('='))
    if type(a) is SNd and a.a is None:
        cur().stop(Unsupported('saving an array of symbolic shape'))
    shp = tuple(a.shape)
    if len(shp) == 0:
        shp = (1, 1)
    elif len(shp) == 1:
        shp = (1, shp[0])
    return a.reshape(shp)


def _mat_str(s):
    if type(s) is SymStr:
        its = s._need()
        if its and any(not isinstance(i, int) for i in its):
            cond = V.sx_and([V.mkbool(V.zi(i) != 0) for i in its])
            if not bool(cond):
                cur().stop(Unsupported('NUL in a mat string'))
    elif not isinstance_sym(s) and '\0' in s:
        s = s.replace('\0', ' ')
    if not isinstance_sym(s) and len(s) == 0 or \
            type(s) is SymStr and not s._need():
        return np.array([], dtype='<U1')
    return N.array([s]) if isinstance_sym(s) else np.array([s])


def mat_value(v):
    """Value as it comes back from a mat file (squeeze_me=False)."""
    if type(v) is SNd:
        k = v.dtype.kind
        if k in 'US':
            if v.shape != ():
                cur().stop(Unsupported('string arrays in mat files'))
            if k == 'S':
                cur().stop(Unsupported('bytes in mat files'))
            return _mat_str(v[()])
        if k not in 'biufc':
            cur().stop(Unsupported('mat dtype'))
        return _mat_numeric(v)
    if isinstance(v, str):
        return _mat_str(v)
    if isinstance_sym(v):
        if type(v) in (SGen, SymInt, SymFloat, V.SymBool):
            return _mat_numeric(N.array(v))
        cur().stop(Unsupported('mat value'))
    if v is None:
        raise TypeError('Could not convert None to array')
    if isinstance(v, dict):
        return _mat_struct(v)
    if isinstance(v, (list, tuple)) and has_sym(v):
        return _mat_numeric(N.array(v))
    a = np.asanyarray(v)
    if a.dtype == object:
        cells = np.empty(a.shape, dtype=object)
        cf = cells.reshape(-1)
        for i, x in enumerate(a.reshape(-1)):
            cf[i] = mat_value(x)
        cells = cf.reshape(a.shape)
        if cells.ndim == 0:
            cells = cells.reshape((1, 1))
        elif cells.ndim == 1:
            cells = cells.reshape((1, -1) if cells.size else (1, 0))
        return cells
    if a.dtype.kind == 'U' and a.ndim == 0:
        return _mat_str(str(a))
    if a.dtype.kind in 'USV' or a.dtype.names:
        cur().stop(Unsupported('mat string array'))
    return _mat_numeric(a).copy()


def _mat_struct(d):
    fields = []
    for k, v in d.items():
        if not isinstance(k, str) or isinstance_sym(k):
            cur().stop(Unsupported('mat field name'))
        if not k:
            raise ValueError('Empty field name')
        if k[0] in '_0123456789':
            continue
        if len(k) > world().mat_names:
            raise ValueError('Field names are restricted to %d characters'
                             % world().mat_names)
        k.encode('ascii')
        fields.append((k, mat_value(v)))
    r = np.empty((1, 1), dtype=object)
    if not fields:
        r[0, 0] = None
        return r
    s = np.empty((1,), dtype=[(k, object) for k, _ in fields])
    for k, v in fields:
        s[k][0] = v
    return s.reshape(1, 1)


def mat_copy(v):
    if type(v) is SNd:
        r = v.copy()
        r.owner = False     # as read by SciPy
        return r
    if isinstance(v, np.ndarray):
        r = v.copy()
        if r.dtype.names:
            for n in r.dtype.names:
                r[n].reshape(-1)[0] = mat_copy(v[n].reshape(-1)[0])
        elif r.dtype == object:
            f = r.reshape(-1)
            for i, x in enumerate(v.reshape(-1)):
                f[i] = mat_copy(x)
        return r
    return v


def mat_squeeze(v):
    """scipy's squeeze_element, applied recursively."""
    if type(v) is SNd:
        if v.dtype.kind == 'U':
            return N._bare(v[0]) if v.size == 1 else v
        if not v.size:
            return np.array([], dtype=v.dtype)
        r = v.squeeze()
        if r.shape == ():
            return N.pyval(r[()])
        return r
    if isinstance(v, np.ndarray):
        v = v.copy()
        if v.dtype.names:
            for n in v.dtype.names:
                v[n].reshape(-1)[0] = mat_squeeze(v[n].reshape(-1)[0])
        elif v.dtype == object:
            f = v.reshape(-1)
            for i, x in enumerate(list(f)):
                f[i] = mat_squeeze(x)
        if not v.size:
            return np.array([], dtype=v.dtype)
        v = np.squeeze(v)
        if not v.shape and v.dtype.isbuiltin:
            return v.item()
        return v
    return v


N._bare = lambda x: x


def _matname(file, appendmat, mode):
    path = fspath(file)
    if appendmat and not path.endswith('.mat'):
        if mode == 'w' or not os.path.exists(path):
            path += '.mat'
    return path


def savemat(file_name, mdict, appendmat=True, format='5',
            long_field_names=False, do_compression=False, oned_as='row'):
    if oned_as != 'row' or format != '5':
        cur().stop(Unsupported('savemat options'))
    content = {}
    world().mat_names = 63 if long_field_names else 31
    for k, v in mdict.items():
        if k.startswith('_'):
            continue
        content[k] = mat_value(v)
    token = world().put(('mat', content))
    if hasattr(file_name, 'write'):
        file_name.write(token)
        return
    with open(_matname(file_name, appendmat, 'w'), 'wb') as f:
        f.write(token)


def loadmat(file_name, mdict=None, appendmat=True, *, squeeze_me=False,
            chars_as_strings=True, struct_as_record=True,
            variable_names=None, **kw):
    if kw or not chars_as_strings or not struct_as_record or \
            mdict is not None:
        cur().stop(Unsupported('loadmat options'))
    if hasattr(file_name, 'read'):
        raw = file_name.read()
    else:
        with open(_matname(file_name, appendmat, 'r'), 'rb') as f:
            raw = f.read()
    c = world().get(raw, 'mat')
    if c is None:
        raise ValueError('Unknown mat file type')
    out = {'__header__': b'', '__version__': '1.0', '__globals__': []}
    for k, v in c.items():
        if variable_names is not None and k not in variable_names:
            continue
        v = mat_copy(v)
        out[k] = mat_squeeze(v) if squeeze_me else v
    return out


# ---------------------------------------------------------------------- hdf5
class HNode:
    def __init__(self):
        self.attrs = {}
        self.alive = True


class HGroupData(HNode):
    def __init__(self):
        super().__init__()
        self.children = {}


class HDataData(HNode):
    def __init__(self, value, dtype, shape, maxshape):
        super().__init__()
        self.value = value
        self.dtype = dtype
        self.shape = shape
        self.maxshape = maxshape


def hcopy(n):
    if isinstance(n, HGroupData):
        r = HGroupData()
        r.children = {k: hcopy(v) for k, v in n.children.items()}
    else:
        r = HDataData(freeze(n.value), n.dtype, n.shape, n.maxshape)
    r.attrs = dict(n.attrs)
    return r


class Attrs:
    def __init__(self, node, f):
        self._d = node.attrs
        self._f = f

    def __getitem__(self, k):
        return self._d[k]

    def __setitem__(self, k, v):
        self._f._writable()
        if isinstance(v, int) and not isinstance(v, bool):
            v = np.int64(v) if not isinstance_sym(v) else N.cast(v, 'int64')
        elif isinstance(v, bool):
            v = np.bool_(v) if not isinstance_sym(v) else N.cast(v, 'bool')
        self._d[k] = v

    def __delitem__(self, k):
        del self._d[k]

    def __contains__(self, k):
        return k in self._d

    def __len__(self):
        return len(self._d)

    def __iter__(self):
        return iter(self._d)

    def get(self, k, default=None):
        return self._d.get(k, default)

    def keys(self):
        return self._d.keys()

    def items(self):
        return self._d.items()

    def create(self, k, data, **kw):
        self[k] = data

    def modify(self, k, v):
        self[k] = v


class HObject:
    def __init__(self, f, node, path):
        self._f = f
        self._n = node
        self._path = path

    @property
    def name(self):
        return None if self._path is None else '/' + '/'.join(self._path)

    @property
    def attrs(self):
        return Attrs(self._n, self._f)

    @property
    def file(self):
        return self._f

    @property
    def parent(self):
        n = self._f._root
        for p in self._path[:-1]:
            n = n.children[p]
        return Group(self._f, n, self._path[:-1])

    def __bool__(self):
        return self._f._opened

    def __eq__(self, o):
        return isinstance(o, HObject) and o._n is self._n

    def __hash__(self):
        return id(self._n)


class Group(HObject):
    @property
    def __class__(self):
        return h5py.Group

    def _split(self, name):
        if isinstance(name, bytes):
            name = name.decode()
        if not isinstance(name, str):
            raise TypeError('Accessing a group is done with bytes or str')
        if isinstance_sym(name):
            name = V.concrete(name)
        if '\0' in name:
            raise ValueError('embedded null byte')
        parts = [p for p in name.split('/') if p and p != '.']
        if name.startswith('/'):
            return self._f._root, [], parts
        return self._n, list(self._path), parts

    def _find(self, name):
        n, path, parts = self._split(name)
        for p in parts:
            if not isinstance(n, HGroupData) or p not in n.children:
                raise KeyError("Unable to open object '%s'" % name)
            n = n.children[p]
            path = path + [p]
        return n, path

    def _mk(self, n, path):
        cls = Group if isinstance(n, HGroupData) else Dataset
        return cls(self._f, n, list(path))

    def __getitem__(self, name):
        return self._mk(*self._find(name))

    def __setitem__(self, name, obj):
        if isinstance(obj, HObject):
            n, path = self._place(name)
            n.children[path[-1]] = obj._n
            if obj._path is None:
                obj._path = path
        else:
            self.create_dataset(name, data=obj)

    def get(self, name, default=None, getclass=False, getlink=False):
        try:
            return self[name]
        except KeyError:
            return default

    def __contains__(self, name):
        try:
            self._find(name)
            return True
        except KeyError:
            return False

    def __delitem__(self, name):
        self._f._writable()
        n, path, parts = self._split(name)
        for p in parts[:-1]:
            if p not in n.children:
                raise KeyError("Couldn't delete link")
            n = n.children[p]
        if not parts or parts[-1] not in n.children:
            raise KeyError("Couldn't delete link (component not found)")
        del n.children[parts[-1]]

    def __len__(self):
        return len(self._n.children)

    def __iter__(self):
        return iter(sorted(self._n.children))

    def keys(self):
        return sorted(self._n.children)

    def values(self):
        return [self[k] for k in self.keys()]

    def items(self):
        return [(k, self[k]) for k in self.keys()]

    def _place(self, name):
        self._f._writable()
        n, path, parts = self._split(name)
        if not parts:
            raise ValueError('Unable to create (no name)')
        for p in parts[:-1]:
            if p not in n.children:
                n.children[p] = HGroupData()
            n = n.children[p]
            if not isinstance(n, HGroupData):
                raise ValueError('Unable to create (component not a group)')
            path = path + [p]
        if parts[-1] in n.children:
            raise ValueError('Unable to create object (name already exists)')
        return n, path + [parts[-1]]

    def create_group(self, name, track_order=None):
        n, path = self._place(name)
        n.children[path[-1]] = HGroupData()
        return Group(self._f, n.children[path[-1]], path)

    def require_group(self, name):
        if name in self:
            r = self[name]
            if not isinstance(r, h5py.Group):
                raise TypeError('Incompatible object')
            return r
        return self.create_group(name)

    def create_dataset(self, name, shape=None, dtype=None, data=None,
                       maxshape=None, **kw):
        if kw:
            for k in kw:
                if k not in ('chunks', 'compression', 'compression_opts',
                             'shuffle', 'fletcher32'):
                    cur().stop(Unsupported('create_dataset option ' + k))
        if data is None and shape is None and dtype is None:
            raise TypeError('One of data, shape or dtype must be specified')
        if data is None or shape is not None:
            cur().stop(Unsupported('create_dataset without data'))
        failure = None
        try:
            value, dt, shp = h5_value(data, dtype)
        except WriteError as e:
            # The dataset was created, only filling it failed.
            failure = e.args[0]
            value, dt, shp = e.args[1:]
        if maxshape is True:
            maxshape = (None,) * len(shp)
        if maxshape is not None:
            maxshape = tuple(maxshape)
            if len(shp) == 0 and maxshape:
                raise TypeError('Scalar datasets cannot be extended')
            if len(maxshape) != len(shp):
                raise ValueError('"maxshape" must have same rank as dataset '
                                 'shape')
            for m, s in zip(maxshape, shp):
                if m is not None and bool(m < s):
                    raise ValueError('Chunk shape / maxshape too small')
        if maxshape is None:
            maxshape = shp
        new = HDataData(value, dt, shp, maxshape)
        if name is None:
            path = None
        else:
            n, path = self._place(name)
            n.children[path[-1]] = new
        if failure is not None:
            raise failure
        return Dataset(self._f, new, path)

    def move(self, source, dest):
        n, path = self._find(source)
        m, to = self._place(dest)
        m.children[to[-1]] = n
        del self[source]


class WriteError(Exception):
    """(exception to raise, value, dtype, shape) of a new dataset."""


def h5_value(data, dtype):
    """(value, dtype, shape) of a dataset created from data."""
    if dtype is not None:
        dtype = np.dtype(dtype)
    if isinstance(data, h5py.Empty):
        cur().stop(Unsupported('h5py.Empty'))
    if isinstance(data, str) or type(data) is SymStr:
        if dtype is not None and dtype.kind in 'iufcb':
            raise TypeError("Can't convert a string to a number")
        if type(data) is SymStr and data.items is None:
            return data, np.dtype(object), ()
        chars = data._need() if type(data) is SymStr else [
            ord(c) for c in data]
        if bool(V.sx_or([V.mkbool(V.ieq(i, 0)) for i in chars])):
            raise WriteError(
                ValueError('VLEN strings do not support embedded NULLs'),
                '', np.dtype(object), ())
        if type(data) is str or getattr(cur(), 'surrogates', False):
            if bool(V.sx_or([V.sx_and([V.mkbool(V.zi(i) >= 0xd800),
                                       V.mkbool(V.zi(i) <= 0xdfff)])
                             for i in chars])):
                raise WriteError(
                    UnicodeEncodeError('utf-8', '\ud800', 0, 1,
                                       'surrogates not allowed'),
                    '', np.dtype(object), ())
        return data, np.dtype(object), ()
    if type(data) is C.SymVoid:
        return data, data.dtype, ()
    if isinstance(data, bytes):
        cur().stop(Unsupported('bytes in hdf5'))
    if data is None:
        raise TypeError('One of data, shape or dtype must be specified')
    if not isinstance_sym(data) and not has_sym(data):
        if isinstance(data, np.void):
            return data, data.dtype, ()
        a = np.asarray(data, order='C')
        if a.dtype.kind == 'U' or a.dtype == object:
            raise TypeError('No conversion path for dtype: %r' % a.dtype)
        if dtype is not None and a.dtype != dtype:
            a = a.astype(dtype)
        return a.copy(), a.dtype, a.shape
    if type(data) is SNd and data.a is None:
        return data.astype(dtype or data.dtype), dtype or data.dtype, \
            data.shape
    a = N.array(data)
    if type(a) is not SNd:
        raise TypeError('Object dtype has no native HDF5 equivalent')
    if a.dtype.kind in 'US':
        cur().stop(Unsupported('string arrays in hdf5'))
    if dtype is not None and a.dtype != dtype:
        a = a.astype(dtype)
    return a, a.dtype, a.shape


class Dataset(HObject):
    @property
    def __class__(self):
        return h5py.Dataset

    @property
    def shape(self):
        return self._n.shape

    @property
    def ndim(self):
        return len(self._n.shape)

    @property
    def size(self):
        r = 1
        for s in self._n.shape:
            r = s * r
        return r

    @property
    def dtype(self):
        return self._n.dtype

    @property
    def maxshape(self):
        return self._n.maxshape

    def __len__(self):
        return V.concrete(self.shape[0])

    def _is_str(self):
        return self._n.dtype == object

    def __getitem__(self, k):
        self._f._check()
        v = self._n.value
        if self._is_str():
            if k != () and k is not Ellipsis:
                cur().stop(Unsupported('string dataset key'))
            return v.encode('utf-8')
        if k is Ellipsis or isinstance(k, tuple) and k == ():
            if type(v) in (C.SymVoid,) or isinstance(v, np.void):
                return v
            if type(v) is SNd and v.a is None:
                return v
            r = v[()]
            return r.copy() if isinstance(r, np.ndarray) else r
        if isinstance(k, tuple) and any(x is Ellipsis for x in k):
            cur().stop(Unsupported('Ellipsis'))
        for x in (k if type(k) is tuple else (k,)):
            if isinstance(x, int):
                i = V.concrete(x)
            elif type(x) is slice and (x.step or 1) < 1:
                raise ValueError('Step must be >= 1')
        r = self._n.value[k]
        return r.copy() if isinstance(r, np.ndarray) else r

    def __setitem__(self, k, new):
        self._f._writable()
        if self._is_str():
            if not isinstance(new, (str, bytes)):
                raise TypeError("Can't implicitly convert non-string objects "
                                "to strings")
            try:
                self._n.value, _, _ = h5_value(new, None)
            except WriteError as e:
                raise e.args[0]
            return
        v = self._n.value
        if type(v) is C.SymVoid or isinstance(v, np.void):
            w = len(v.tobytes())
            b = new.tobytes() if isinstance(new, np.void) else new
            its = b._need() if isinstance_sym(b) else list(bytes(b))
            its = (list(its) + [0] * w)[:w]
            r = SymBytes._mk(its)
            self._n.value = C.SymVoid(r) if isinstance_sym(r) else np.void(r)
            return
        if not self.shape and isinstance(new, (list, tuple)) \
                and len(new) != 1:
            raise TypeError("Can't broadcast")
        if type(v) is not SNd:
            if not has_sym(new):
                v[k] = new
                return
            v = SNd(N.to_obj(v), v.dtype)
            self._n.value = v
        v[k] = new

    def resize(self, size, axis=None):
        self._f._writable()
        if axis is not None:
            size = [size if i == axis else s
                    for i, s in enumerate(self.shape)]
        if isinstance(size, int):
            size = (size,)
        size = tuple(V.concrete(s) for s in size)
        if self._n.maxshape == self._n.shape and True:
            fixed = True
        for m, s in zip(self._n.maxshape, size):
            if m is not None and s > m:
                raise ValueError('unable to set extend dataset')
        v = self._n.value
        if type(v) is not SNd:
            v = SNd(N.to_obj(v), v.dtype)
        zero = np.zeros((), dtype=v.dtype)[()]
        r = np.empty(size, dtype=object)
        for i in np.ndindex(*size):
            r[i] = v._need()[i] if all(
                x < y for x, y in zip(i, v.shape)) else zero
        self._n.value = SNd(r, v.dtype)
        self._n.shape = size

    def asstr(self, *a, **k):
        ds = self

        class W:
            def __getitem__(self, key):
                return ds[key].decode('utf-8')
        return W()

    def flush(self):
        pass


class File(Group):
    @property
    def __class__(self):
        return h5py.File

    def __init__(self, name, mode='r', **kw):
        for k in kw:
            if k not in ('libver', 'track_order', 'locking'):
                cur().stop(Unsupported('h5py.File option ' + k))
        path = fspath(name)
        w = world()
        key = os.path.realpath(path)
        exists = os.path.exists(path)
        if mode in ('r', 'r+') and not exists:
            raise FileNotFoundError('Unable to open file ' + path)
        if mode in ('x', 'w-') and exists:
            raise FileExistsError('Unable to create file (file exists)')
        if mode not in ('r', 'r+', 'x', 'w-', 'w', 'a'):
            raise ValueError('Invalid mode')
        self._mode = mode
        self._fn = path
        self._opened = True
        if mode in ('x', 'w-', 'w') or (mode == 'a' and not exists):
            if key in w.h5open and w.h5open[key]._opened and mode == 'w':
                raise BlockingIOError('unable to truncate an open file')
            root = HGroupData()
            with open(path, 'wb') as f:
                f.write(w.put(('h5-incomplete', None)))
        else:
            other = w.h5open.get(key)
            with open(path, 'rb') as f:
                raw = f.read()
            if other is not None and other._opened:
                root = other._root
            else:
                c = w.get(raw, 'h5')
                if c is None:
                    raise OSError('Unable to open file (truncated or not '
                                  'HDF5)')
                root = hcopy(c)
        self._root = root
        Group.__init__(self, self, root, [])
        w.h5open[key] = self
        self._key = key

    def _check(self):
        if not self._opened:
            raise ValueError('Not a location (invalid object ID)')

    def _writable(self):
        self._check()
        if self._mode == 'r':
            raise ValueError('Unable to write (file opened read-only)')

    @property
    def filename(self):
        return self._fn

    @property
    def mode(self):
        return 'r' if self._mode == 'r' else 'r+'

    def flush(self):
        self._check()
        if self._mode == 'r':
            return
        if os.path.exists(self._fn):
            with open(self._fn, 'wb') as f:
                f.write(world().put(('h5', hcopy(self._root))))

    def close(self):
        if self._opened:
            self.flush()
            self._opened = False

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


class NpVoidZero:
    pass


C.ALWAYS[np.savez] = savez
C.ALWAYS[np.savez_compressed] = savez
C.ALWAYS[np.load] = np_load
C.ALWAYS[sio.savemat] = savemat
C.ALWAYS[sio.loadmat] = loadmat
C.ALWAYS[h5py.File] = File
