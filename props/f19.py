"""F19: files are created and found exactly where asked, never overwritten."""
import os

from sx.case import registry
from props.common import EXT, close, new_storage
from props.n12 import same_tree

CASES, case = registry()
ASSUMPTIONS = ['one process uses the files; paths are valid for the system']
FILES = ['npz', 'hdf5', 'mat']
NAMES = {'npz': ['x.npz', 'a.b.npz', '.npz', 'x.mat.npz', 'ä ö.npz'],
         'hdf5': ['x.h5', 'x.hdf5', 'a.b.h5', 'x.npz.hdf5', '.h5'],
         'mat': ['x.mat', 'a.b.mat', 'x.h5.mat', '.mat']}
ODD = ['x', 'x.dat', 'x.NPZ', 'x.', 'h5', 'x.npz2', 'x.npz.mat.h5x']


def content(path):
    with open(path, 'rb') as f:
        return f.read()


def tree(E):
    from dsch import schema
    return schema.Compilation({'a': schema.Scalar('int32'),
                               'l': schema.List(schema.String())})


def listing(E):
    return sorted(os.listdir(E.tmp))


@case(grid={'backend': FILES, 'old': ['same', 'npz', 'hdf5', 'mat', 'garbage',
                                      'empty', 'dir']},
      bounds='what exists at the path: a file (writable or not) of any '
             'backend with arbitrary data, garbage, an empty file or a directory; created by path or '
             'with the backend named')
def no_clobber(E, backend, old):
    import dsch
    v = E.scalar('v', 'int32')
    path = E.path('target' + EXT[backend])
    if old == 'dir':
        os.mkdir(path)
        before = None
    elif old in ('garbage', 'empty'):
        with open(path, 'wb') as f:
            f.write(b'garbage' if old == 'garbage' else b'')
        before = content(path)
    else:
        b = backend if old == 'same' else old
        s = dsch.create(path, tree(E), backend=b)
        s.data.a.value = v
        s.data.l.append('x')
        s.save()
        close(s)
        before = content(path)
    mode = E.choice('mode', [0o644, 0o444, 0o000])
    if old != 'dir':
        os.chmod(path, mode)
    names = listing(E)
    how = E.choice('how', ['auto', 'named', 'create_from', 'save_as'])
    if how == 'auto':
        kind, err = E.outcome(dsch.create, path, tree(E))
    elif how == 'named':
        kind, err = E.outcome(dsch.create, path, tree(E), backend)
    else:
        src = new_storage(E, 'inmem', tree(E))
        src.data.a.value = E.scalar('w', 'int32')
        if how == 'create_from':
            kind, err = E.outcome(dsch.create_from, path, src)
        else:
            kind, err = E.outcome(src.save_as, path)
    E.check('create_refuses_existing_paths', kind == 'exc' and
            isinstance(err, FileExistsError), err)
    E.check('existing_file_is_unchanged',
            (os.path.isdir(path) and os.listdir(path) == [])
            if before is None else content(path) == before)
    E.check('no_other_files_appear', listing(E) == names)


@case(grid={'backend': FILES},
      bounds='every name with the extension; data saved is found at exactly '
             'the path given, and nowhere else')
def exact_path(E, backend):
    import dsch
    name = E.choice('name', NAMES[backend])
    named = E.choice('named', [None, backend])
    if named:
        name = E.choice('odd', [name, name + 'x', 'plain', 'other' + EXT[
            'npz' if backend == 'hdf5' else 'hdf5']])
    v = E.scalar('v', 'int32')
    how = E.choice('how', ['create', 'create_from', 'save_as'])
    if how == 'create':
        s = dsch.create(E.path(name), tree(E), backend=named)
    else:
        src = new_storage(E, 'inmem', tree(E))
        s = src.save_as(E.path(name), named) if how == 'save_as' else \
            dsch.create_from(E.path(name), src, backend=named)
    E.check('storage_knows_its_path', s.storage_path == E.path(name))
    E.check('backend_is_found', type(s).__module__ ==
            'dsch.backends.' + backend)
    s.data.a.value = v
    s.save()
    E.check('file_is_at_the_path', listing(E) == [name])
    close(s)
    r = dsch.load(E.path(name), backend=named)
    E.check('loaded_from_the_path', E.same(r.data.a.value, v) and
            type(r).__module__ == 'dsch.backends.' + backend and
            r.storage_path == E.path(name))
    r.data.l.append('y')
    r.save()
    E.check('saved_again_at_the_path', listing(E) == [name])
    close(r)
    r = dsch.load(E.path(name), backend=named)
    E.check('second_save_is_at_the_path', len(r.data.l) == 1)
    close(r)


@case(grid={'backend': FILES},
      bounds='loading a path where nothing is, or a directory only')
def missing(E, backend):
    import dsch
    name = E.choice('name', NAMES[backend])
    for other in FILES:
        # Files with similar names are no substitute.
        if E.choice('other ' + other, [True, False]):
            s = dsch.create(E.path(name + EXT[other]), tree(E))
            s.data.a.value = E.scalar('v' + other, 'int32')
            s.save()
            close(s)
    names = listing(E)
    kind, err = E.outcome(dsch.load, E.path(name), E.choice('named', [
        None, backend]))
    E.check('missing_file_is_reported', kind == 'exc' and
            isinstance(err, FileNotFoundError), err)
    E.check('nothing_is_created', listing(E) == names)
    kind, err = E.outcome(dsch.load, E.path('no/such/dir/' + name))
    E.check('missing_directory_is_reported', kind == 'exc' and
            isinstance(err, FileNotFoundError), err)
    E.check('no_directory_is_created', listing(E) == names)


@case(bounds='paths of up to 9 arbitrary characters (plus the special '
             'in-memory path), in a directory without such files')
def autodetect(E):
    """The backend is found by the end of the path only."""
    import dsch
    from dsch import exceptions
    path = E.str('path', 9, lo=33, hi=126)
    E.assume(E.no(E.any([c == '/' for c in path])))
    ext = {'.npz': 'npz', '.mat': 'mat', '.h5': 'hdf5', '.hdf5': 'hdf5'}
    known = E.any([path.endswith(x) for x in ext])
    kind, err = E.outcome(dsch.load, path)
    E.check('loading_nothing_fails', kind == 'exc')
    E.check('known_extensions_are_known', E.iff(
        isinstance(err, FileNotFoundError), known), err)
    E.check('inmem_cannot_be_loaded', E.iff(
        isinstance(err, ValueError), path == '::inmem::'), err)
    E.check('unknown_extensions_are_reported', E.iff(
        isinstance(err, exceptions.AutodetectBackendError),
        E.all([E.no(known), path != '::inmem::'])), err)


@case(bounds='names without known extension; nothing is created')
def unknown_names(E):
    import dsch
    from dsch import exceptions
    name = E.choice('name', ODD)
    kind, err = E.outcome(dsch.create, E.path(name), tree(E))
    E.check('create_reports_unknown_names', kind == 'exc' and
            isinstance(err, exceptions.AutodetectBackendError), err)
    E.check('nothing_is_created_for_unknown_names', listing(E) == [])
    with open(E.path(name), 'wb') as f:
        f.write(b'data')
    kind, err = E.outcome(dsch.load, E.path(name))
    E.check('load_reports_unknown_names', kind == 'exc' and
            isinstance(err, exceptions.AutodetectBackendError), err)
    src = new_storage(E, 'inmem', tree(E))
    kind, err = E.outcome(src.save_as, E.path(name))
    E.check('save_as_reports_unknown_names', kind == 'exc' and
            isinstance(err, exceptions.AutodetectBackendError), err)
    E.check('unknown_file_is_unchanged', content(E.path(name)) == b'data' and
            listing(E) == [name])


@case(bounds='in-memory storages: any path but the special one is refused; '
             'nothing is ever written')
def inmem(E):
    import dsch
    path = E.str('path', 9, lo=33, hi=126)
    kind, r = E.outcome(dsch.create, path, tree(E), 'inmem')
    E.check('inmem_needs_its_path', E.iff(kind == 'ok',
                                          path == '::inmem::'), r)
    if kind == 'exc':
        E.check('other_inmem_paths_are_value_errors',
                isinstance(r, ValueError), r)
    s = new_storage(E, 'inmem', tree(E))
    s.data.a.value = E.scalar('v', 'int32')
    E.check('inmem_writes_no_files', not os.path.exists('::inmem::') and
            not hasattr(s, 'save') and listing(E) == [])


@case(grid={'backend': FILES},
      bounds='two storages with different paths side by side')
def independent(E, backend):
    import dsch
    v, w = E.scalar('v', 'int32'), E.scalar('w', 'int32')
    a = dsch.create(E.path('a' + EXT[backend]), tree(E))
    b = dsch.create(E.path('b' + EXT[backend]), tree(E))
    a.data.a.value = v
    b.data.a.value = w
    a.save()
    b.save()
    b.data.l.append('x')
    a.data.a.clear()
    b.save()
    ra = dsch.load(E.snapshot(a.storage_path, 'sa' + EXT[backend]))
    rb = dsch.load(E.snapshot(b.storage_path, 'sb' + EXT[backend]))
    E.check('second_file_has_its_data', same_tree(
        E, rb.data.data_tree(True), {'a': w, 'l': ['x']}))
    if backend != 'hdf5':     # written as it is set
        E.check('first_file_has_its_data', same_tree(
            E, ra.data.data_tree(True), {'a': v, 'l': []}))
    for s in (a, b, ra, rb):
        close(s)
