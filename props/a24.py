"""A24: element access to arrays reads and changes exactly these elements."""
import numpy as np

from sx.case import registry
from props.common import EXT, close, new_storage

CASES, case = registry()
ASSUMPTIONS = ['indices are within bounds; HDF5 arrays take slices of '
               'positive step only, and resizing within the maximum shape, '
               'if that is not the minimum shape, too',
               'resizing keeps the number of dimensions']
FILES = ['npz', 'hdf5', 'mat']
BACKENDS = ['inmem'] + FILES
DTYPES = ['int8', 'uint64', 'float64', 'complex64', 'bool']
KEYS1 = [0, 2, -1, -3, slice(None), slice(1, None), slice(0, 2),
         slice(None, None, 2), slice(1, 1), Ellipsis, slice(-2, None),
         slice(0, -1), (1,), (slice(1, 2),), np.int64(1)]
LISTS1 = [[0, 2], [1], np.array([0, 2]), np.array([True, False, True]),
          np.array([False, False, False])]
LISTS2 = [([0, 1], 1), (slice(None), [0, 2]), (1, [1, 2]), [0, 1],
          np.array([[True, False, True], [False, True, False]])]
BACK1 = [slice(None, None, -1), slice(2, 0, -1), slice(-1, None, -2),
         [2, 0], [-1], np.array([1, 0, 2]), [1, 1, 0]]
KEYS2 = [(0, 0), (1, 2), (-1, -1), (-2, 1), 1, -1, -2, slice(0, 1),
         slice(-1, None), (slice(None), 1), (slice(None), -1),
         (slice(None), slice(-2, -1)), (1,),
         (0, slice(1, 3)), (slice(None), slice(None)), (slice(None), slice(
             0, 3, 2)), Ellipsis]


def storage(E, backend, node, state, value, name='x'):
    """A storage with the value, as new or loaded."""
    import dsch
    s = new_storage(E, backend, node, name)
    if state == 'overwritten':
        s.data.value = np.zeros((5,) * value.ndim, value.dtype)
    s.data.value = value.copy()
    if state == 'loaded':
        s.save()
        path = E.snapshot(s.storage_path, name + 'copy' + EXT[backend])
        close(s)
        s = dsch.load(path)
    return s


STATES = ['new', 'overwritten', 'loaded']


def no_inmem_load(backend, state, **kw):
    return backend == 'inmem' and state == 'loaded'


@case(grid={'backend': BACKENDS, 'state': STATES, 'dtype': DTYPES,
            'ndim': [1, 2]}, skip=no_inmem_load,
      bounds='arrays of 3 or 2x3 arbitrary elements; every kind of index and '
             'slice (15 each), read and assigned')
def elements(E, backend, state, dtype, ndim):
    from dsch import schema
    shape = (3,) if ndim == 1 else (2, 3)
    v = E.array('v', dtype, shape)
    s = storage(E, backend, schema.Array(dtype, ndim=ndim), state, v)
    key = E.choice('key', [k for k in (KEYS1 if ndim == 1 else KEYS2)
                           if k is not Ellipsis or backend != 'hdf5'])
    got = s.data[key]
    E.check('element_read', E.same(np.asarray(got), np.asarray(v[key])))
    w = E.scalar('w', dtype)
    s.data[key] = w
    want = v.copy()
    want[key] = w
    E.check('elements_assigned_and_others_kept',
            E.same(s.data.value, want), str(key))
    E.check('assigned_element_read', E.same(np.asarray(s.data[key]),
                                            np.asarray(want[key])))
    if backend != 'inmem':
        import dsch
        s.save()
        path = E.snapshot(s.storage_path, 'after' + EXT[backend])
        close(s)
        s = dsch.load(path)
        E.check('assigned_elements_are_saved', E.same(s.data.value, want))
    close(s)


@case(grid={'backend': BACKENDS, 'state': STATES}, skip=no_inmem_load,
      bounds='several assignments of single elements, rows and columns')
def assignments(E, backend, state):
    from dsch import schema
    v = E.array('v', 'int16', (2, 3))
    s = storage(E, backend, schema.Array('int16', ndim=2), state, v)
    want = v.copy()
    for i in range(3):
        how = E.choice('how%d' % i, ['element', 'row', 'column'])
        if how == 'element':
            w = E.scalar('w%d' % i, 'int16')
            s.data[i % 2, i] = w
            want[i % 2, i] = w
        elif how == 'row':
            w = E.array('w%d' % i, 'int16', (3,))
            s.data[i % 2] = w
            want[i % 2] = w
        else:
            w = E.array('w%d' % i, 'int16', (2,))
            s.data[:, i] = w
            want[:, i] = w
    E.check('assignments_apply_in_order', E.same(s.data.value, want))
    close(s)


@case(grid={'backend': BACKENDS, 'state': STATES, 'dtype': DTYPES},
      skip=no_inmem_load,
      bounds='arrays of 0..3 elements resized to 0..4 twice; another '
             'reference to the array')
def resize_1d(E, backend, state, dtype):
    from dsch import schema
    n = E.choice('n', [0, 1, 3])
    v = E.array('v', dtype, (n,))
    s = storage(E, backend, schema.Array(dtype), state, v)
    want = list(v.tolist())

    def as_wanted(a):
        return E.all([a.shape == (len(want),), a.dtype == v.dtype] + [
            E.any([x == y, E.all([x != x, y != y])])
            for x, y in zip(a.tolist(), want)])
    ref = s.data.value
    for i in range(2):
        m = E.choice('m%d' % i, [0, 1, 2, 4])
        s.data.resize((m,))
        E.check('other_references_keep_their_size', ref.shape == (n,) and
                E.same(ref, v))
        want = want[:m] + [0] * (m - len(want))
        E.check('resized_keeps_the_beginning', as_wanted(s.data.value))
        E.check('resized_validates', E.outcome(s.validate)[0] == 'ok')
    if backend != 'inmem':
        import dsch
        s.save()
        path = E.snapshot(s.storage_path, 'after' + EXT[backend])
        close(s)
        s = dsch.load(path)
        E.check('resized_array_is_saved', as_wanted(s.data.value))
    close(s)


LIMITS = [dict(), dict(max_shape=(3, 3)), dict(max_shape=(None, 3)),
          dict(min_shape=(2, None), max_shape=(2, None)),
          dict(min_shape=(1, 1), max_shape=(3, 4)),
          dict(min_shape=(None, 2), max_shape=(None, 2)),
          dict(min_shape=(0, None))]


def within(limits, shape):
    return all([lo is None or n >= lo for lo, n in zip(
        limits.get('min_shape', (0, 0)), shape)]) and all([
            hi is None or n <= hi for hi, n in zip(
                limits.get('max_shape', (9, 9)), shape)])


@case(grid={'backend': BACKENDS, 'state': ['new', 'loaded'],
            'limits': range(len(LIMITS))}, skip=no_inmem_load,
      bounds='arrays of 2x2, 2x3, 3x2 or 3x3 elements resized to any of ten '
             'shapes up to 4x4, one element assigned, resized again; within '
             'each of seven combinations of shape limits')
def resize_2d(E, backend, state, limits):
    from dsch import schema
    limits = LIMITS[limits]
    sizes = [x for x in ((2, 3), (2, 2), (3, 2), (1, 3), (1, 1), (2, 4), (4, 2),
                         (0, 2), (2, 0), (3, 3)) if within(limits, x)]
    first = E.choice('first', [x for x in sizes if x[0] * x[1] in (4, 6, 9)])
    v = E.array('v', 'int32', first)
    w = E.scalar('w', 'int32')
    s = storage(E, backend, schema.Array('int32', ndim=2, **limits), state, v)
    want = {(a, b): v[a, b] for a in range(first[0]) for b in range(first[1])}

    def as_wanted(got):
        return E.all([got.shape == size, got.dtype == v.dtype] + [
            got[a, b] == want.get((a, b), 0) for a in range(size[0])
            for b in range(size[1])])
    size = E.choice('size', sizes)
    s.data.resize(size)
    want = {x: want[x] for x in want if x[0] < size[0] and x[1] < size[1]}
    E.check('elements_keep_their_position', as_wanted(s.data.value))
    if size[0] and size[1]:
        s.data[-1, -1] = w
        want[size[0] - 1, size[1] - 1] = w
    size = E.choice('again', [x for x in sizes if x != size][:2] + [size])
    s.data.resize(list(size))
    want = {x: want[x] for x in want if x[0] < size[0] and x[1] < size[1]}
    E.check('elements_keep_their_position_again', as_wanted(s.data.value))
    E.check('resized_2d_is_valid', E.outcome(s.validate)[0] == 'ok')
    if backend != 'inmem' and state == 'new':
        import dsch
        s.save()
        path = E.snapshot(s.storage_path, 'after' + EXT[backend])
        close(s)
        s = dsch.load(path)
        E.check('resized_2d_is_saved', as_wanted(s.data.value))
    close(s)


@case(grid={'backend': BACKENDS, 'state': STATES, 'limits': [
    'max', 'min', 'both', 'equal_loaded']}, skip=no_inmem_load,
      bounds='arrays of 0..3 elements with arbitrary shape limits, resized '
             'within the maximum: valid iff not below the minimum')
def resize_limits(E, backend, state, limits):
    from dsch import schema
    n = E.choice('n', [0, 1, 3])
    v = E.array('v', 'int16', (n,))
    lo = None if limits == 'max' else (E.int('lo', 0, 5),)
    hi = None if limits == 'min' else (E.int('hi', 0, 5),)
    if hi:
        E.assume(n <= hi[0])
    if limits == 'equal_loaded':
        # One limit is open, so that the other one can be reached.
        hi = (None,)
    if state == 'loaded' and lo:
        E.assume(n >= lo[0])
    s = storage(E, backend, schema.Array('int16', min_shape=lo, max_shape=hi),
                'new' if state == 'overwritten' else state, v)
    m = E.choice('m', [0, 1, 2, 4])
    if hi and hi[0] is not None:
        E.assume(m <= hi[0])
        if lo:
            E.assume(E.no(lo[0] == hi[0]))
    s.data.resize((m,))
    got = s.data.value
    E.check('resized_within_limits', got.shape == (m,) and E.all(
        [E.same(got[i], v[i]) if i < n else got[i] == 0 for i in range(m)]))
    E.check('resized_is_valid_iff_long_enough', E.iff(
        E.outcome(s.validate)[0] == 'ok', lo is None or m >= lo[0]))
    close(s)


@case(grid={'backend': BACKENDS, 'state': STATES}, skip=no_inmem_load,
      bounds='arrays of 2x2 elements resized to 0..4 rows; other references '
             'to the array')
def resize_rows(E, backend, state):
    from dsch import schema
    v = E.array('v', 'int32', (2, 2))
    s = storage(E, backend, schema.Array('int32', ndim=2), state, v)
    ref = s.data.value
    part = s.data[0]
    m = E.choice('m', [0, 1, 2, 3, 4])
    s.data.resize((m, 2))
    got = s.data.value
    E.check('resized_shape', got.shape == (m, 2) and got.dtype == v.dtype)
    for i in range(m):
        for j in range(2):
            E.check('resized_rows', E.same(got[i, j], v[i, j]) if i < 2
                    else got[i, j] == 0)
    E.check('other_references_keep_their_size', ref.shape == (2, 2) and
            E.same(ref, v) and E.same(part, v[0]))
    close(s)


@case(grid={'backend': BACKENDS, 'state': STATES, 'kind': ['1d', '2d', 'back'],
            'dtype': ['int16', 'bool']},
      skip=lambda backend, state, kind, dtype: no_inmem_load(backend, state) or
      (backend == 'hdf5' and kind == 'back'),
      bounds='arrays of 3 or 2x3 arbitrary elements; lists of positions and '
             'masks as index, reversed slices (not HDF5), read and assigned')
def lists_as_index(E, backend, state, kind, dtype):
    from dsch import schema
    shape = (2, 3) if kind == '2d' else (3,)
    v = E.array('v', dtype, shape)
    s = storage(E, backend, schema.Array(dtype, ndim=len(shape)), state, v)
    key = E.choice('key', {'1d': LISTS1, '2d': LISTS2, 'back': BACK1}[kind])
    got = s.data[key]
    E.check('element_read', E.same(np.asarray(got), np.asarray(v[key])))
    w = E.scalar('w', dtype)
    s.data[key] = w
    want = v.copy()
    want[key] = w
    E.check('elements_assigned_and_others_kept',
            E.same(s.data.value, want), str(key))
    close(s)


@case(grid={'backend': BACKENDS, 'state': STATES}, skip=no_inmem_load,
      bounds='an array of 70 elements: an element or slice at any of 4 '
             'places is read and assigned; resized to 40, 69 or 130')
def large(E, backend, state):
    from dsch import schema
    v = E.array('v', 'int32', (70,))
    s = storage(E, backend, schema.Array('int32'), state, v)
    key = E.choice('key', [9, 63, -1, slice(60, 68), slice(None, None, 33)])
    want = v.copy()
    w = E.scalar('w', 'int32')
    E.check('element_read', E.same(np.asarray(s.data[key]),
                                   np.asarray(v[key])))
    s.data[key] = w
    want[key] = w
    E.check('elements_assigned_and_others_kept', E.same(s.data.value, want))
    m = E.choice('m', [40, 69, 130])
    s.data.resize((m,))
    got = s.data.value
    E.check('resized_shape', got.shape == (m,) and got.dtype == v.dtype)
    E.check('resized_keeps_the_beginning', E.all(
        [E.same(got[i], want[i]) if i < 70 else got[i] == 0
         for i in range(m)]))
    close(s)
