"""An in-process stand-in for (parallel) h5py on a simulated disk.

A closed file is one ordinary file in the job's scratch directory (so that copying, renaming or
deleting it works as usual); an open file is simulated: every rank has its own view of the
metadata, which it may only change collectively, raw data is shared, and nothing is certain to be
on disk before the file is closed.  At a crash each pending write has, by seeded choice, reached
the disk completely, in part or not at all, and a file whose structure was being changed may be
unreadable.
"""
import os
import pickle
import sys
import types
import numpy as np

from . import kernel

MAGIC = b'SIMH5\n'
version = types.SimpleNamespace(version='sim', mpi=True)


def J():
    j = kernel.CUR
    if j is None:
        raise RuntimeError('h5py used outside a simulated job')
    return j


class Node:
    """A group: attributes and children (Node or key of the data store)."""

    def __init__(self):
        self.attrs = {}
        self.kids = {}

    def copy(self):
        n = Node()
        n.attrs = dict(self.attrs)
        n.kids = {k: (v.copy() if isinstance(v, Node) else v) for k, v in self.kids.items()}
        return n

    def dump(self):
        return (sorted((k, np.asarray(v).tolist()) for k, v in self.attrs.items()),
                sorted((k, v.dump() if isinstance(v, Node) else str(v)) for k, v in self.kids.items()))


class DS:
    """Metadata of a dataset; the data are in the store under `key`."""

    def __init__(self, key, shape, dtype):
        self.key, self.shape, self.dtype, self.attrs = key, tuple(shape), np.dtype(dtype), {}

    def __str__(self):
        return '%s%s%s' % (self.key, self.shape, self.dtype)


def _save(path, root, store):
    tmp = path + '.simtmp'
    with _io() as _:
        with open(tmp, 'wb') as f:
            f.write(MAGIC)
            pickle.dump((root, store), f)
        os.replace(tmp, path)


class _io:
    """The simulator's own file accesses are no events of the simulated job."""
    def __enter__(self):
        if kernel.CUR is not None:
            kernel.CUR.busy += 1

    def __exit__(self, *a):
        if kernel.CUR is not None:
            kernel.CUR.busy -= 1


def _load(path):
    with _io():
        with open(path, 'rb') as f:
            if f.read(len(MAGIC)) != MAGIC:
                raise OSError("Unable to open file (file signature not found): '%s'" % path)
            try:
                return pickle.load(f)
            except Exception:
                raise OSError("Unable to open file (truncated file): '%s'" % path)


def read_file(path):
    """For the harness: {'/path': array} and {'/path@attr': value} of a closed file."""
    root, store = _load(path)
    out = {}

    def walk(n, p):
        for k, v in n.attrs.items():
            out[p + '@' + k] = v
        for k, v in n.kids.items():
            if isinstance(v, Node):
                walk(v, p + '/' + k)
            else:
                out[p + '/' + k] = store[v.key]
                for a, b in v.attrs.items():
                    out[p + '/' + k + '@' + a] = b
    walk(root, '')
    return out


def write_file(path, items):
    """For the harness: the inverse of read_file (arrays only and attributes of the root)."""
    root, store = Node(), {}
    for p, v in items.items():
        if '@' in p:
            q, a = p.split('@')
        else:
            q, a = p, None
        n = root
        parts = [x for x in q.split('/') if x]
        for x in (parts if a else parts[:-1]):
            n = n.kids.setdefault(x, Node())
        if a:
            n.attrs[a] = v
        else:
            d = DS(q, np.shape(v), np.asarray(v).dtype)
            n.kids[parts[-1]] = d
            store[q] = np.array(v)
    _save(path, root, store)


class Shared:
    """The open file as the ranks share it."""

    def __init__(self, path, mode, comm, root, store):
        self.path, self.mode, self.comm = path, mode, comm
        self.root = root            # as it was at open
        self.store = store          # live raw data
        self.disk_store = {k: v.copy() for k, v in store.items()}
        self.meta = []              # agreed sequence of metadata operations
        self.meta_by = []
        self.pending = []           # raw writes not known to be on disk: (key, selection, data)
        self.handles = {}
        self.closed = set()
        self.fresh = mode in ('w', 'x', 'w-')


def crash(job):
    """What the disk holds after the job died: called once, after the job ended."""
    rng = job.disk_rng
    for sh in list(job.h5open.values()):
        if sh.mode == 'r':
            continue
        how = rng.choice(['none', 'all-data', 'torn', 'torn', 'corrupt', 'corrupt'])
        if sh.fresh or sh.meta:
            if how == 'corrupt':
                with _io():
                    with open(sh.path, 'wb') as f:
                        f.write(b'')
                job.fire('crash_corrupt_file', os.path.basename(sh.path))
                continue
        if how == 'corrupt':
            how = 'torn'
        store = sh.disk_store
        n = 0
        for key, sel, data in sh.pending:
            if key not in store:
                continue
            r = rng.random()
            if how == 'none' or (how == 'torn' and r < 0.4):
                n += 1
                continue
            if how == 'torn' and r < 0.6 and np.ndim(data) and np.shape(data)[-1] > 1:
                view = store[key][sel]
                d = np.broadcast_to(np.asarray(data), view.shape)
                h = view.shape[0] // 2
                v = view.copy()
                v.reshape(view.shape)[:h] = d[:h]
                store[key][sel] = v
                n += 1
                continue
            store[key][sel] = data
        if n:
            job.fire('crash_lost_or_torn_write', '%d of %d writes to %s' % (n, len(sh.pending), os.path.basename(sh.path)))
        _save(sh.path, sh.root, store)


def _disk_fault(kind, path):
    """Injected I/O errors: faults are ('EIO'|'ENOSPC', op, k): the k-th such op in the job fails."""
    j = J()
    j.disk_ops = getattr(j, 'disk_ops', {})
    k = j.disk_ops[kind] = j.disk_ops.get(kind, 0) + 1
    if len(j.disk) < 50000:
        j.disk.append((kind, k, os.path.basename(path)))
    for f in j.faults:
        if f['kind'] in ('EIO', 'ENOSPC') and f['op'] == kind and f['k'] == k:
            j.fire(f['kind'], '%s %s by rank %d' % (kind, os.path.basename(path), j.cur))
            import errno
            code = errno.EIO if f['kind'] == 'EIO' else errno.ENOSPC
            raise OSError(code, os.strerror(code), path)
        if f['kind'] == 'slow_disk' and f['op'] == kind and k % f['k'] == 0:
            j.fire('slow_disk')
            j.now += 5.0
            for _ in range(3):
                j.point('diskwait')


class AttributeManager:
    def __init__(self, h, node):
        self._h, self._n = h, node

    def _path(self):
        return '@%s' % id(self._n)

    def create(self, name, data, shape=None, dtype=None):
        self._set(name, data if dtype is None else np.asarray(data, dtype))

    def _set(self, name, data):
        self._h._meta(('attr', name, np.asarray(data).dtype.str, np.asarray(data).tolist()))
        self._n.attrs[name] = np.array(data)[()] if np.ndim(data) == 0 else np.array(data)

    def __setitem__(self, name, v):
        self._set(name, v)

    def modify(self, name, v):
        self._set(name, v)

    def __getitem__(self, name):
        self._h._chk()
        if name not in self._n.attrs:
            raise KeyError("Unable to open attribute (can't locate attribute: '%s')" % name)
        v = self._n.attrs[name]
        return v.copy() if isinstance(v, np.ndarray) else v

    def get(self, name, default=None):
        return self[name] if name in self._n.attrs else default

    def __contains__(self, name):
        self._h._chk()
        return name in self._n.attrs

    def __iter__(self):
        return iter(list(self._n.attrs))

    def __len__(self):
        return len(self._n.attrs)

    def keys(self):
        return list(self._n.attrs)

    def values(self):
        return [self[k] for k in self.keys()]

    def items(self):
        return [(k, self[k]) for k in self.keys()]

    def __delitem__(self, name):
        self._h._meta(('delattr', name))
        del self._n.attrs[name]


class HLObject:
    @property
    def attrs(self):
        self._h._chk()
        return AttributeManager(self._h, self._n)

    @property
    def file(self):
        return self._h


class Dataset(HLObject):
    def __init__(self, h, ds, name):
        self._h, self._n, self.name = h, ds, name

    shape = property(lambda s: s._n.shape)
    dtype = property(lambda s: s._n.dtype)
    ndim = property(lambda s: len(s._n.shape))
    size = property(lambda s: int(np.prod(s._n.shape)))

    def _sel(self, key):
        return key

    def __getitem__(self, key):
        self._h._chk()
        j = J()
        j.point('h5read', self._n.key)
        _disk_fault('read', self._h.filename)
        v = self._h._sh.store[self._n.key][key]
        return np.array(v) if np.ndim(v) else v

    def __setitem__(self, key, val):
        self._h._chk(True)
        j = J()
        j.point('h5write', '%s%s' % (self._n.key, key))
        _disk_fault('write', self._h.filename)
        a = self._h._sh.store[self._n.key]
        d = np.array(val, dtype=a.dtype) if not (np.iscomplexobj(val) and a.dtype.kind != 'c') else None
        if d is None:
            raise TypeError('Unable to write: no conversion path from complex to %s' % a.dtype)
        view = a[key]
        if np.shape(view) != d.shape:
            d = np.broadcast_to(d, np.shape(view)).copy()
        a[key] = d
        self._h._sh.pending.append((self._n.key, key, d))
        j.note(np.ascontiguousarray(d).tobytes() if d.size < 64 else
               np.ascontiguousarray(d).tobytes()[:512])

    def __array__(self, dtype=None, copy=None):
        a = self[()]
        return a if dtype is None else a.astype(dtype)

    def __len__(self):
        return self.shape[0]

    def read_direct(self, dest, source_sel=None, dest_sel=None):
        dest[dest_sel if dest_sel is not None else ()] = self[source_sel if source_sel is not None else ()]

    def write_direct(self, src, source_sel=None, dest_sel=None):
        self[dest_sel if dest_sel is not None else ()] = src[source_sel if source_sel is not None else ()]

    class _Coll:
        def __enter__(self):
            return self

        def __exit__(self, *a):
            return False

    @property
    def collective(self):
        return self._Coll()


class Group(HLObject):
    def __init__(self, h, node, name):
        self._h, self._n, self.name = h, node, name

    def _find(self, path):
        n = self._h._root if path.startswith('/') else self._n
        for x in [p for p in path.split('/') if p]:
            if not isinstance(n, Node) or x not in n.kids:
                return None
            n = n.kids[x]
        return n

    def _wrap(self, n, path):
        name = path if path.startswith('/') else self.name.rstrip('/') + '/' + path
        return Group(self._h, n, name) if isinstance(n, Node) else Dataset(self._h, n, name)

    def __getitem__(self, path):
        self._h._chk()
        n = self._find(path)
        if n is None:
            raise KeyError("Unable to synchronously open object (object '%s' doesn't exist)" % path)
        return self._wrap(n, path)

    def get(self, path, default=None):
        self._h._chk()
        n = self._find(path)
        return default if n is None else self._wrap(n, path)

    def __contains__(self, path):
        self._h._chk()
        return self._find(path) is not None

    def __iter__(self):
        self._h._chk()
        return iter(sorted(self._n.kids))

    def __len__(self):
        return len(self._n.kids)

    def keys(self):
        return list(iter(self))

    def values(self):
        return [self[k] for k in self]

    def items(self):
        return [(k, self[k]) for k in self]

    def visit(self, fn):
        for k in self:
            r = fn(k)
            if r is not None:
                return r

    def _abs(self, path):
        return path if path.startswith('/') else self.name.rstrip('/') + '/' + path

    def create_group(self, path, track_order=None):
        if self._find(path) is not None:
            raise ValueError('Unable to synchronously create group (name already exists)')
        self._h._meta(('group', self._abs(path)))
        n = self._h._root if path.startswith('/') else self._n
        for x in [p for p in path.split('/') if p]:
            n = n.kids.setdefault(x, Node())
            if not isinstance(n, Node):
                raise ValueError('Unable to create group (a dataset is in the way)')
        return Group(self._h, n, self._abs(path))

    def require_group(self, path):
        self._h._chk()
        n = self._find(path)
        if n is None:
            return self.create_group(path)
        if not isinstance(n, Node):
            raise TypeError('Incompatible object (Dataset) already exists')
        return self._wrap(n, path)

    def create_dataset(self, path, shape=None, dtype=None, data=None, **kw):
        if data is not None:
            data = np.asarray(data)
            shape = data.shape if shape is None else shape
            dtype = data.dtype if dtype is None else dtype
        dtype = np.dtype(dtype if dtype is not None else 'f4')
        shape = (shape,) if isinstance(shape, (int, np.integer)) else tuple(int(s) for s in shape)
        if self._find(path) is not None:
            raise ValueError('Unable to create dataset (name already exists)')
        ap = self._abs(path)
        self._h._meta(('dataset', ap, shape, dtype.str))
        n = self._h._root if path.startswith('/') else self._n
        parts = [p for p in path.split('/') if p]
        for x in parts[:-1]:
            n = n.kids.setdefault(x, Node())
        ds = DS(ap, shape, dtype)
        n.kids[parts[-1]] = ds
        sh = self._h._sh
        if ap not in sh.store:
            sh.store[ap] = np.zeros(shape, dtype)
        d = Dataset(self._h, ds, ap)
        if data is not None:
            d[...] = data.reshape(shape)
        return d

    def require_dataset(self, path, shape, dtype, exact=False, **kw):
        n = self._find(path)
        if n is None:
            return self.create_dataset(path, shape=shape, dtype=dtype, **kw)
        if isinstance(n, Node):
            raise TypeError('Incompatible object (Group) already exists')
        shape = (shape,) if isinstance(shape, (int, np.integer)) else tuple(int(s) for s in shape)
        if n.shape != shape:
            raise TypeError('Shapes do not match (existing %s vs new %s)' % (n.shape, shape))
        if exact and n.dtype != np.dtype(dtype):
            raise TypeError('Datatypes do not exactly match')
        if not np.can_cast(np.dtype(dtype), n.dtype):
            raise TypeError('Datatypes cannot be safely cast (existing %s vs new %s)' % (n.dtype, dtype))
        return self._wrap(n, path)

    def __setitem__(self, path, val):
        self.create_dataset(path, data=val)

    def __delitem__(self, path):
        if self._find(path) is None:
            raise KeyError("Couldn't delete link (name doesn't exist)")
        self._h._meta(('delete', self._abs(path)))
        parts = [p for p in self._abs(path).split('/') if p]
        n = self._h._root
        for x in parts[:-1]:
            n = n.kids[x]
        gone = n.kids.pop(parts[-1])
        sh = self._h._sh
        if isinstance(gone, DS):
            sh.store.pop(gone.key, None)


class File(Group):
    def __init__(self, name, mode='r', driver=None, comm=None, **kw):
        j = J()
        path = os.path.abspath(os.fspath(name))
        self.filename = os.fspath(name)
        self._open = False
        self._path_ = path
        if driver == 'mpio' and comm is not None:
            self._comm = comm
        else:
            from . import fakempi
            self._comm = fakempi.COMM_SELF
        self.mode = 'r' if mode == 'r' else 'r+'
        self.driver = driver or 'sec2'
        _disk_fault('open', path)
        key = (path, self._comm._ctx)

        # opening is collective: the last rank in performs it, and the others wait for it
        def fin(op, me):
            if op.res is None:
                try:
                    with _io():
                        op.res = ('ok', self._do_open(path, mode))
                except OSError as e:
                    op.res = ('err', e)
            return op.res
        st, val = self._comm._coll('H5Fopen', (os.path.basename(path), mode), None, self._comm._all, fin)
        if st == 'err':
            raise type(val)(*val.args)
        self._sh = val
        self._root = val.root.copy()
        self._n = self._root
        self._h = self
        self.name = '/'
        self._nmeta = 0
        self._open = True
        val.handles[j.cur] = self

    def _do_open(self, path, mode):
        j = J()
        exists = os.path.exists(path)
        if mode in ('r', 'r+') and not exists:
            raise FileNotFoundError(2, "Unable to synchronously open file (unable to open file: name = '%s')" % path, path)
        if mode in ('x', 'w-') and exists:
            raise FileExistsError(17, 'Unable to create file (file exists)', path)
        for k, sh in j.h5open.items():
            if sh.path == path and not (sh.mode == 'r' and mode == 'r'):
                if mode == 'w' or sh.mode != 'r' or mode != 'r':
                    raise OSError('Unable to open file (unable to lock file: it is open already): %s' % path)
        if mode in ('w', 'x', 'w-') or (mode == 'a' and not exists):
            root, store = Node(), {}
            with _io():
                with open(path, 'wb'):
                    pass
            sh = Shared(path, 'w', self._comm, root, store)
        else:
            root, store = _load(path)
            sh = Shared(path, 'r' if mode == 'r' else 'r+', self._comm, root, store)
        j.h5open[(path, id(sh))] = sh
        return sh

    def _chk(self, write=False):
        if not self._open:
            raise ValueError('Invalid location identifier (invalid location identifier): the file is closed')
        if write and self.mode == 'r':
            raise OSError('Unable to write (no write intent on file)')

    def _meta(self, op):
        """A structural change: every rank must make the same ones in the same order."""
        self._chk(True)
        j = J()
        j.log('h5meta', '%s' % (op,))
        sh = self._sh
        k = self._nmeta
        self._nmeta += 1
        if k < len(sh.meta):
            if sh.meta[k] != op:
                j.violate('HDF5 metadata change %d of %s differs: rank %d makes %r where rank %d made %r'
                          % (k, os.path.basename(sh.path), j.cur, op, sh.meta_by[k], sh.meta[k]))
        else:
            sh.meta.append(op)
            sh.meta_by.append(j.cur)

    def flush(self):
        self._chk()
        j = J()

        def fin(op, me):
            if op.res is None:
                op.res = True
                sh = self._sh
                sh.disk_store = {k: v.copy() for k, v in sh.store.items()}
                sh.root = self._root.copy()
                sh.pending = []
                sh.meta_flushed = len(sh.meta)
        self._comm._coll('H5Fflush', (os.path.basename(self._path_),), None, self._comm._all, fin)

    def close(self):
        if not self._open:
            return
        self._open = False
        j = J()
        sh = self._sh
        err = None
        if self.mode != 'r':
            try:
                _disk_fault('close', self._path_)
            except OSError as e:
                err = e

        def fin(op, me):
            if op.res is None:
                op.res = True
                for r, h in sh.handles.items():
                    if h._nmeta != len(sh.meta):
                        j.violate('rank %d made %d of the %d HDF5 metadata changes of %s'
                                  % (r, h._nmeta, len(sh.meta), os.path.basename(sh.path)))
                if self.mode != 'r':
                    _save(sh.path, self._root, sh.store)
                for k in [k for k, v in j.h5open.items() if v is sh]:
                    del j.h5open[k]
        self._comm._coll('H5Fclose', (os.path.basename(self._path_),), None, self._comm._all, fin)
        if err is not None:
            raise err

    def __bool__(self):
        return self._open

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def __del__(self):
        pass


def install():
    m = types.ModuleType('h5py')
    for k in ('File', 'Group', 'Dataset', 'AttributeManager', 'version'):
        setattr(m, k, globals()[k])
    m.__version__ = '3.13.0'
    m.get_config = lambda: types.SimpleNamespace(mpi=True)
    m.is_hdf5 = lambda p: os.path.exists(p)
    sys.modules['h5py'] = m
