"""An in-process stand-in for mpi4py: the ranks are threads of one Job (kernel.py).

Legal MPI behaviours are explored, illegal ones are reported: a reduction may combine in any
order, a rooted collective may return on some ranks before others have entered it (or not: the
choice is seeded), and collectives that do not match across ranks end the run as a violation.
"""
import pickle
import sys
import types
import numpy as np

from . import kernel


def J():
    j = kernel.CUR
    if j is None:
        raise RuntimeError('MPI used outside a simulated job')
    return j


class Op:
    def __init__(self, name, f):
        self.name, self.f = name, f

    def __call__(self, a, b):
        return self.f(a, b)

    def Free(self):
        pass

    @classmethod
    def Create(cls, f, commute=False):
        return cls('user', f)


def _np(f, g):
    def op(a, b):
        if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
            return f(a, b)
        return g(a, b)
    return op


# mpi4py's object (lower-case) reductions use the Python operators
SUM = Op('SUM', lambda a, b: a + b)
PROD = Op('PROD', lambda a, b: a * b)
MAX = Op('MAX', lambda a, b: b if b > a else a)
MIN = Op('MIN', lambda a, b: b if b < a else a)
LAND = Op('LAND', lambda a, b: bool(a) & bool(b))
LOR = Op('LOR', lambda a, b: bool(a) | bool(b))
LXOR = Op('LXOR', lambda a, b: bool(a) ^ bool(b))
BAND = Op('BAND', lambda a, b: a & b)
BOR = Op('BOR', lambda a, b: a | b)
BXOR = Op('BXOR', lambda a, b: a ^ b)
MAXLOC = Op('MAXLOC', lambda a, b: a if (a[0] > b[0] or (a[0] == b[0] and a[1] <= b[1])) else b)
MINLOC = Op('MINLOC', lambda a, b: a if (a[0] < b[0] or (a[0] == b[0] and a[1] <= b[1])) else b)
REPLACE = Op('REPLACE', lambda a, b: b)
_UFUNC = {'SUM': np.add, 'PROD': np.multiply, 'MAX': np.maximum, 'MIN': np.minimum,
          'LAND': np.logical_and, 'LOR': np.logical_or, 'LXOR': np.logical_xor,
          'BAND': np.bitwise_and, 'BOR': np.bitwise_or, 'BXOR': np.bitwise_xor}


class Datatype:
    def __init__(self, name, dtype=None, sub=None):
        self.name, self.dtype, self.sub = name, (np.dtype(dtype) if dtype is not None else None), sub

    def Get_size(self):
        if self.sub:
            return int(np.prod(self.sub[1])) * self.dtype.itemsize
        return self.dtype.itemsize

    size = property(Get_size)

    def Get_extent(self):
        n = int(np.prod(self.sub[0])) if self.sub else 1
        return (0, n * self.dtype.itemsize)

    extent = property(lambda self: self.Get_extent()[1])

    def Create_subarray(self, sizes, subsizes, starts, order=0):
        assert self.sub is None
        for n, s, o in zip(sizes, subsizes, starts):
            if o < 0 or s < 0 or o + s > n or n < 1:
                raise Exception_('MPI_ERR_ARG: invalid subarray %r %r %r' % (sizes, subsizes, starts))
        return Datatype('subarray', self.dtype, (tuple(sizes), tuple(subsizes), tuple(starts), order))

    def Create_contiguous(self, count):
        return Datatype('contiguous', self.dtype, ((count,), (count,), (0,), 0))

    def Create_vector(self, count, blocklength, stride):
        n = (count - 1) * stride + blocklength
        assert blocklength == 1 or stride >= blocklength
        return Datatype('vector', self.dtype, ((count, stride), (count, blocklength), (0, 0), 0))

    def Commit(self):
        return self

    def Free(self):
        pass

    def __bool__(self):
        return self.dtype is not None

    def view(self, flat, disp=0, count=1):
        """The numpy view of `flat` (bytes) that this datatype selects."""
        if self.sub:
            sizes, subsizes, starts, order = self.sub
            a = np.ndarray(sizes, self.dtype, buffer=flat, offset=disp, order='F' if order == 1 else 'C')
            v = a[tuple(slice(o, o + s) for o, s in zip(starts, subsizes))]
            if count == 0:
                v = v[:0]
            elif count != 1:
                raise NotImplementedError('count > 1 of a derived datatype')
            return v
        return np.ndarray((count,), self.dtype, buffer=flat, offset=disp)


_names = [('BYTE', 'u1'), ('CHAR', 'S1'), ('SIGNED_CHAR', 'i1'), ('UNSIGNED_CHAR', 'u1'),
          ('SHORT', 'i2'), ('UNSIGNED_SHORT', 'u2'), ('INT', 'i4'), ('UNSIGNED', 'u4'),
          ('UNSIGNED_INT', 'u4'), ('LONG', 'i8'), ('UNSIGNED_LONG', 'u8'), ('LONG_LONG', 'i8'),
          ('UNSIGNED_LONG_LONG', 'u8'), ('FLOAT', 'f4'), ('DOUBLE', 'f8'), ('LONG_DOUBLE', 'g'),
          ('C_BOOL', '?'), ('BOOL', '?'), ('INT8_T', 'i1'), ('INT16_T', 'i2'), ('INT32_T', 'i4'),
          ('INT64_T', 'i8'), ('UINT8_T', 'u1'), ('UINT16_T', 'u2'), ('UINT32_T', 'u4'),
          ('UINT64_T', 'u8'), ('C_FLOAT_COMPLEX', 'F'), ('C_DOUBLE_COMPLEX', 'D'),
          ('C_LONG_DOUBLE_COMPLEX', 'G'), ('COMPLEX', 'F'), ('DOUBLE_COMPLEX', 'D'),
          ('F_FLOAT_COMPLEX', 'F'), ('F_DOUBLE_COMPLEX', 'D'), ('C_COMPLEX', 'F'),
          ('FLOAT_COMPLEX', 'F'), ('REAL', 'f4'), ('DOUBLE_PRECISION', 'f8'), ('INTEGER', 'i4'),
          ('COMPLEX8', 'F'), ('COMPLEX16', 'D'), ('REAL4', 'f4'), ('REAL8', 'f8')]
_types = {n: Datatype(n, d) for n, d in _names}
DATATYPE_NULL = Datatype('NULL')
_typedict = {}
for _n, _d in _names:
    _typedict.setdefault(np.dtype(_d).char, _types[_n])
for _c in 'bhilqBHILQfdgFDG?':
    _typedict.setdefault(_c, Datatype(_c, _c))


class Exception_(RuntimeError):
    def Get_error_code(self):
        return 1

    def Get_error_string(self):
        return str(self)


Exception_.__name__ = 'Exception'


class _InPlace:
    def __repr__(self):
        return 'IN_PLACE'


IN_PLACE = _InPlace()
PROC_NULL, ANY_SOURCE, ANY_TAG, ROOT, UNDEFINED = -2, -1, -1, -4, -32766
CART, GRAPH, DIST_GRAPH = 1, 2, 3
ORDER_C, ORDER_FORTRAN = 0, 1
THREAD_SINGLE, THREAD_FUNNELED, THREAD_SERIALIZED, THREAD_MULTIPLE = range(4)


def _flat(a):
    """The memory of a contiguous array as bytes, without a copy."""
    a = np.asarray(a)
    if not (a.flags.c_contiguous or a.flags.f_contiguous):
        raise BufferError('ndarray is not contiguous')
    b = a.reshape(-1, order='A') if not a.flags.c_contiguous else a.reshape(-1)
    return b.view(np.uint8).reshape(-1)


def _buf(spec):
    """(typed 1-D view, datatype) of a simple buffer specification."""
    if isinstance(spec, (list, tuple)):
        a = spec[0]
        rest = list(spec[1:])
    else:
        a, rest = spec, []
    a = np.asarray(a) if not isinstance(a, np.ndarray) else a
    f = _flat(a)
    dt = None
    count = None
    for x in rest:
        if isinstance(x, Datatype):
            dt = x
        elif isinstance(x, str):
            dt = _typedict[np.dtype(x).char]
        elif isinstance(x, (int, np.integer)):
            count = int(x)
        elif isinstance(x, (tuple, list)) and len(x) == 2 and isinstance(x[0], (int, np.integer)):
            count = int(x[0])
        elif x is None:
            pass
        else:
            raise NotImplementedError('buffer specification %r' % (x,))
    if dt is None:
        dt = _typedict[a.dtype.char]
    if dt.sub:
        return dt.view(f, 0, 1 if count is None else count), dt
    v = f[:f.size // dt.dtype.itemsize * dt.dtype.itemsize].view(dt.dtype)
    return (v if count is None else v[:count]), dt


class Status:
    def __init__(self):
        self.source = self.tag = -1

    def Get_source(self):
        return self.source

    def Get_tag(self):
        return self.tag


class Request:
    def __init__(self, fn=None):
        self.fn, self.done, self.val = fn, fn is None, None

    def wait(self, status=None):
        if not self.done:
            self.val = self.fn()
            self.done = True
        return self.val

    def Wait(self, status=None):
        self.wait()
        return True

    def test(self, status=None):
        J().point('test')
        return (True, self.wait())

    def Test(self, status=None):
        self.wait()
        return True

    def Free(self):
        pass

    @staticmethod
    def Waitall(reqs, statuses=None):
        for r in reqs:
            r.wait()
        return True

    @staticmethod
    def waitall(reqs, statuses=None):
        return [r.wait() for r in reqs]


class _Op:
    """One collective operation in progress."""
    __slots__ = ('kind', 'sig', 'first', 'contrib', 'left', 'sync', 'order', 'waiters', 'res')

    def __init__(self, kind, sig, first, sync):
        self.kind, self.sig, self.first, self.sync = kind, sig, first, sync
        self.contrib = {}
        self.left = 0
        self.waiters = []
        self.res = None


class Comm:
    def __init__(self, group=(), ctx=('null',), cart=None):
        self._group, self._ctx, self._cart, self._freed = tuple(group), ctx, cart, False
        self._seq = 0
        self.name = str(ctx)

    # identity
    def __eq__(self, o):
        return isinstance(o, Comm) and self._ctx == o._ctx and self._g() == o._g()

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(self._ctx)

    def __bool__(self):
        return bool(self._g()) and not self._freed

    def _g(self):
        return self._group

    def _me(self):
        return self._g().index(J().cur)

    def _next(self):
        self._seq += 1
        return self._seq

    def Get_rank(self):
        return self._me()

    def Get_size(self):
        return len(self._g())

    rank = property(lambda s: s.Get_rank())
    size = property(lambda s: s.Get_size())

    def Is_inter(self):
        return False

    def Is_intra(self):
        return True

    def Get_topology(self):
        return CART if self._cart else UNDEFINED

    topology = property(lambda s: s.Get_topology())

    def Get_name(self):
        return self.name

    def Set_name(self, n):
        self.name = n

    def Get_group(self):
        return self._g()

    def Abort(self, code=0):
        J().log('MPI_Abort', code)
        J().end('exception', 'rank %d called MPI_Abort(%s)' % (J().cur, code))

    # ---- collectives --------------------------------------------------------------------
    def _coll(self, kind, sig, contrib, need, finish):
        """need(me) -> ranks (in this comm) whose contribution `me` must have before it returns."""
        j = J()
        if self._freed:
            j.violate('rank %d calls %s on a freed communicator' % (j.cur, kind))
        me = self._me()
        seq = self._next()
        j.point(kind, '%s#%d' % (self._ctx, seq))
        key = (self._ctx, self._g(), seq)
        op = j.ops.get(key)
        if op is None:
            op = j.ops[key] = _Op(kind, sig, j.cur, j.mpi_rng.random() < 0.5)
            n = len(self._g())
            op.order = list(range(n))
            j.mpi_rng.shuffle(op.order)
        elif op.kind != kind or op.sig != sig:
            j.violate('collectives do not match on %s, call %d: rank %d is in %s%r while rank %d is in %s%r'
                      % (self._ctx, seq, op.first, op.kind, op.sig, j.cur, kind, sig))
        op.contrib[me] = contrib
        n = len(self._g())
        want = set(range(n)) if op.sync else set(need(me))
        for r, w in list(op.waiters):
            if w <= op.contrib.keys():
                j.wake(r)
                op.waiters.remove((r, w))
        if not want <= op.contrib.keys():
            op.waiters.append((j.cur, want))
            while not want <= op.contrib.keys():
                j.block('%s on %s (call %d; ranks in: %s)' % (kind, self._ctx, seq, sorted(op.contrib)))
        res = finish(op, me)
        op.left += 1
        if op.left == n:
            del j.ops[key]
        return res

    def _all(self, me):
        return range(len(self._g()))

    def barrier(self):
        return self._coll('Barrier', (), None, self._all, lambda op, me: None)

    def Barrier(self):
        self.barrier()

    def _fold(self, op, opr, up=True):
        """Combine contributions in this operation's (seeded) order."""
        if op.res is None:
            vals = [op.contrib[i] for i in op.order]
            acc = pickle.loads(vals[0])
            for v in vals[1:]:
                acc = opr(acc, pickle.loads(v))
            op.res = pickle.dumps(acc)
        return pickle.loads(op.res)

    def allreduce(self, sendobj, op=SUM):
        return self._coll('allreduce', (op.name,), pickle.dumps(sendobj), self._all,
                          lambda o, me: self._fold(o, op))

    def reduce(self, sendobj, op=SUM, root=0):
        self._chkroot(root)
        return self._coll('reduce', (op.name, root), pickle.dumps(sendobj),
                          lambda me: self._all(me) if me == root else (),
                          lambda o, me: self._fold(o, op) if me == root else None)

    def scan(self, sendobj, op=SUM):
        def fin(o, me):
            acc = pickle.loads(o.contrib[0])
            for i in range(1, me + 1):
                acc = op(acc, pickle.loads(o.contrib[i]))
            return acc
        return self._coll('scan', (op.name,), pickle.dumps(sendobj), lambda me: range(me + 1), fin)

    def exscan(self, sendobj, op=SUM):
        def fin(o, me):
            if me == 0:
                return None
            acc = pickle.loads(o.contrib[0])
            for i in range(1, me):
                acc = op(acc, pickle.loads(o.contrib[i]))
            return acc
        return self._coll('exscan', (op.name,), pickle.dumps(sendobj), lambda me: range(me + 1), fin)

    def _chkroot(self, root):
        if not 0 <= root < len(self._g()):
            raise Exception_('MPI_ERR_ROOT: invalid root')

    def bcast(self, obj=None, root=0):
        self._chkroot(root)
        me = self._me()
        return self._coll('bcast', (root,), pickle.dumps(obj) if me == root else None,
                          lambda m: (root,), lambda o, m: obj if m == root else pickle.loads(o.contrib[root]))

    def gather(self, sendobj, root=0):
        self._chkroot(root)
        n = len(self._g())
        return self._coll('gather', (root,), pickle.dumps(sendobj),
                          lambda me: self._all(me) if me == root else (),
                          lambda o, me: [pickle.loads(o.contrib[i]) for i in range(n)] if me == root else None)

    def allgather(self, sendobj):
        n = len(self._g())
        return self._coll('allgather', (), pickle.dumps(sendobj), self._all,
                          lambda o, me: [pickle.loads(o.contrib[i]) for i in range(n)])

    def scatter(self, sendobj=None, root=0):
        self._chkroot(root)
        if self._me() == root:
            sendobj = list(sendobj)
            if len(sendobj) != len(self._g()):
                raise ValueError('expecting %d items, got %d' % (len(self._g()), len(sendobj)))
        return self._coll('scatter', (root,), pickle.dumps(sendobj) if self._me() == root else None,
                          lambda m: (root,), lambda o, m: pickle.loads(o.contrib[root])[m])

    def alltoall(self, sendobj):
        sendobj = list(sendobj)
        n = len(self._g())
        if len(sendobj) != n:
            raise ValueError('expecting %d items, got %d' % (n, len(sendobj)))
        return self._coll('alltoall', (), pickle.dumps(sendobj), self._all,
                          lambda o, me: [pickle.loads(o.contrib[i])[me] for i in range(n)])

    # buffer versions
    def _foldbuf(self, o, opr):
        if o.res is None:
            vals = [o.contrib[i] for i in o.order]
            acc = vals[0].copy()
            f = _UFUNC.get(opr.name)
            for v in vals[1:]:
                acc = f(acc, v).astype(acc.dtype) if f else opr(acc, v)
            o.res = acc
        return o.res

    def Allreduce(self, sendbuf, recvbuf, op=SUM):
        rv, rt = _buf(recvbuf)
        sv, st = (rv, rt) if sendbuf is IN_PLACE else _buf(sendbuf)
        self._same(sv, rv, 'Allreduce')
        res = self._coll('Allreduce', (op.name, sv.dtype.str, sv.size), sv.copy().reshape(-1), self._all,
                         lambda o, me: self._foldbuf(o, op))
        rv[...] = res.reshape(rv.shape)

    def _same(self, a, b, what):
        if a.dtype != b.dtype or a.size != b.size:
            raise ValueError('mismatch in send/receive buffers of %s: %s[%d] and %s[%d]'
                             % (what, a.dtype, a.size, b.dtype, b.size))

    def Reduce(self, sendbuf, recvbuf, op=SUM, root=0):
        self._chkroot(root)
        me = self._me()
        rv = None
        if me == root:
            rv, rt = _buf(recvbuf)
        sv, st = (rv, None) if sendbuf is IN_PLACE else _buf(sendbuf)
        if me == root:
            self._same(sv, rv, 'Reduce')
        res = self._coll('Reduce', (op.name, root, sv.dtype.str, sv.size), sv.copy().reshape(-1),
                         lambda m: self._all(m) if m == root else (),
                         lambda o, m: self._foldbuf(o, op) if m == root else None)
        if me == root:
            rv[...] = res.reshape(rv.shape)

    def Bcast(self, buf, root=0):
        self._chkroot(root)
        v, t = _buf(buf)
        me = self._me()
        res = self._coll('Bcast', (root, v.nbytes), v.copy() if me == root else None, lambda m: (root,),
                         lambda o, m: o.contrib[root])
        if me != root:
            v[...] = np.asarray(res).view(v.dtype).reshape(v.shape)

    def Gather(self, sendbuf, recvbuf, root=0):
        self._chkroot(root)
        me, n = self._me(), len(self._g())
        rv = _buf(recvbuf)[0].reshape(-1) if me == root else None
        sv = rv.reshape(n, -1)[me] if sendbuf is IN_PLACE else _buf(sendbuf)[0].reshape(-1)
        if me == root and rv.nbytes != sv.nbytes * n:
            raise Exception_('MPI_ERR_TRUNCATE: message truncated')
        res = self._coll('Gather', (root, sv.nbytes), sv.copy(),
                         lambda m: self._all(m) if m == root else (),
                         lambda o, m: [o.contrib[i] for i in range(n)] if m == root else None)
        if me == root:
            rv[...] = np.concatenate(res).view(rv.dtype)

    def Allgather(self, sendbuf, recvbuf):
        me, n = self._me(), len(self._g())
        rv = _buf(recvbuf)[0].reshape(-1)
        sv = rv.reshape(n, -1)[me] if sendbuf is IN_PLACE else _buf(sendbuf)[0].reshape(-1)
        if rv.nbytes != sv.nbytes * n:
            raise Exception_('MPI_ERR_TRUNCATE: message truncated')
        res = self._coll('Allgather', (sv.nbytes,), sv.copy(), self._all,
                         lambda o, m: [o.contrib[i] for i in range(n)])
        rv[...] = np.concatenate(res).view(rv.dtype)

    def Gatherv(self, sendbuf, recvbuf, root=0):
        self._chkroot(root)
        me, n = self._me(), len(self._g())
        sv = _buf(sendbuf)[0].reshape(-1)
        res = self._coll('Gatherv', (root,), sv.copy(), lambda m: self._all(m) if m == root else (),
                         lambda o, m: [o.contrib[i] for i in range(n)] if m == root else None)
        if me == root:
            self._placev(recvbuf, res)

    def Allgatherv(self, sendbuf, recvbuf):
        n = len(self._g())
        sv = _buf(sendbuf)[0].reshape(-1)
        res = self._coll('Allgatherv', (), sv.copy(), self._all, lambda o, m: [o.contrib[i] for i in range(n)])
        self._placev(recvbuf, res)

    def _placev(self, recvbuf, res):
        a = recvbuf[0]
        v = _buf(a)[0].reshape(-1)
        cd = recvbuf[1]
        if isinstance(cd[0], (list, tuple, np.ndarray)):
            counts, displs = cd
        else:
            counts = cd
            displs = np.concatenate([[0], np.cumsum(counts)[:-1]])
        for x, c, d in zip(res, counts, displs):
            if x.size > c:
                raise Exception_('MPI_ERR_TRUNCATE: message truncated')
            v[d:d + x.size] = x.view(v.dtype)

    def Scatter(self, sendbuf, recvbuf, root=0):
        self._chkroot(root)
        me, n = self._me(), len(self._g())
        rv = None if recvbuf is IN_PLACE else _buf(recvbuf)[0].reshape(-1)
        sv = _buf(sendbuf)[0].reshape(-1).copy() if me == root else None
        res = self._coll('Scatter', (root,), sv, lambda m: (root,), lambda o, m: o.contrib[root])
        if rv is not None:
            rv[...] = res.reshape(n, -1)[me].view(rv.dtype)

    def Alltoall(self, sendbuf, recvbuf):
        me, n = self._me(), len(self._g())
        rv = _buf(recvbuf)[0].reshape(-1)
        sv = rv if sendbuf is IN_PLACE else _buf(sendbuf)[0].reshape(-1)
        if sv.nbytes % n or rv.nbytes != sv.nbytes:
            raise ValueError('message: buffer size %d is not divisible by the number of blocks %d' % (sv.nbytes, n))
        res = self._coll('Alltoall', (sv.nbytes,), sv.copy().reshape(n, -1), self._all,
                         lambda o, m: [o.contrib[i][m] for i in range(n)])
        rv[...] = np.concatenate(res).view(rv.dtype)

    @staticmethod
    def _wspec(spec, n):
        a = spec[0]
        types_ = spec[-1]
        cd = spec[1] if len(spec) == 3 else None
        counts, displs = [1] * n, [0] * n
        if cd is not None:
            if isinstance(cd, (tuple, list)) and len(cd) == 2 and (cd[0] is None or np.ndim(cd[0]) == 1):
                counts = list(cd[0]) if cd[0] is not None else counts
                displs = list(cd[1]) if cd[1] is not None else displs
            else:
                counts = list(cd)
        return _flat(a), counts, displs, list(types_)

    def Alltoallw(self, sendbuf, recvbuf):
        me, n = self._me(), len(self._g())
        rf, rc, rd, rt = self._wspec(recvbuf, n)
        if sendbuf is IN_PLACE:
            sf, sc, sd, st = rf, rc, rd, rt
        else:
            sf, sc, sd, st = self._wspec(sendbuf, n)
        out = []
        for i in range(n):
            out.append(st[i].view(sf, sd[i], sc[i]).copy())

        def fin(o, m):
            for i in range(n):
                dst = rt[i].view(rf, rd[i], rc[i])
                src = o.contrib[i][m]
                if src.nbytes != dst.nbytes:
                    J().violate('Alltoallw: rank %d sends %d bytes to rank %d, which expects %d'
                                % (self._g()[i], src.nbytes, self._g()[m], dst.nbytes))
                if src.size:
                    dst[...] = np.ascontiguousarray(src).reshape(-1).view(dst.dtype).reshape(dst.shape)
        self._coll('Alltoallw', (), out, self._all, fin)

    def Alltoallv(self, sendbuf, recvbuf):
        me, n = self._me(), len(self._g())

        def parse(b):
            v = _buf(b[0])[0].reshape(-1)
            cd = b[1]
            if isinstance(cd[0], (list, tuple, np.ndarray)):
                return v, list(cd[0]), list(cd[1])
            c = list(cd)
            return v, c, [0] + list(np.cumsum(c)[:-1])
        rv, rc, rd = parse(recvbuf)
        sv, sc, sd = parse(sendbuf)
        out = [sv[d:d + c].copy() for c, d in zip(sc, sd)]

        def fin(o, m):
            for i in range(n):
                src = o.contrib[i][m]
                if src.size != rc[i]:
                    J().violate('Alltoallv: rank %d sends %d items to rank %d, which expects %d'
                                % (self._g()[i], src.size, self._g()[m], rc[i]))
                rv[rd[i]:rd[i] + rc[i]] = src
        self._coll('Alltoallv', (), out, self._all, fin)

    # ---- communicators ------------------------------------------------------------------
    def Dup(self, info=None):
        seq = self._coll('Comm_dup', (), None, self._all, lambda o, m: self._seq)
        c = type(self)(self._g(), self._ctx + ('dup', seq), self._cart)
        return c

    Clone = Dup

    def Split(self, color=0, key=0):
        n = len(self._g())
        tab = self._coll('Comm_split', (), (color, key), self._all,
                         lambda o, m: [o.contrib[i] for i in range(n)])
        if color == UNDEFINED:
            return COMM_NULL
        mem = sorted((k, i) for i, (c, k) in enumerate(tab) if c == color)
        return Intracomm([self._g()[i] for _, i in mem], self._ctx + ('split', self._seq, color))

    def Create_cart(self, dims, periods=None, reorder=False):
        dims = [int(d) for d in dims]
        if int(np.prod(dims)) > len(self._g()):
            raise Exception_('MPI_ERR_TOPOLOGY')
        self._coll('Cart_create', (tuple(dims),), None, self._all, lambda o, m: None)
        g = self._g()[:int(np.prod(dims))]
        if J().cur not in g:
            return COMM_NULL
        return Cartcomm(g, self._ctx + ('cart', self._seq), tuple(dims))

    def Free(self):
        if self._freed:
            raise Exception_('MPI_ERR_COMM: freed twice')
        self._freed = True

    def Disconnect(self):
        self.Free()

    # ---- point to point -----------------------------------------------------------------
    def _box(self, dst):
        return J().mail.setdefault((self._ctx, self._g(), dst), [])

    def _post(self, payload, dest, tag, sync):
        j = J()
        me = self._me()
        if dest == PROC_NULL:
            return None
        j.point('send', '%s->%s' % (me, dest))
        msg = {'src': me, 'tag': tag, 'data': payload, 'sender': j.cur, 'taken': False}
        self._box(dest).append(msg)
        j.wake(self._g()[dest])
        return msg

    def _waitsent(self, msg):
        while msg is not None and not msg['taken']:
            J().block('a send that no rank receives (tag %s)' % msg['tag'])

    def _take(self, source, tag, status=None, peek=False):
        j = J()
        j.point('recv', str(source))
        box = self._box(self._me())
        while True:
            cand = {}
            for m in box:
                if source in (ANY_SOURCE, m['src']) and tag in (ANY_TAG, m['tag']):
                    cand.setdefault(m['src'], m)
            if cand:
                ks = sorted(cand)
                m = cand[ks[j.mpi_rng.randrange(len(ks))]]
                box.remove(m)
                m['taken'] = True
                j.wake(m['sender'])
                if status is not None:
                    status.source, status.tag = m['src'], m['tag']
                return m
            j.block('a receive from rank %s, tag %s' % (source, tag))

    def send(self, obj, dest, tag=0):
        m = self._post(pickle.dumps(obj), dest, tag, False)
        if J().mpi_rng.random() < 0.5:
            self._waitsent(m)

    def ssend(self, obj, dest, tag=0):
        self._waitsent(self._post(pickle.dumps(obj), dest, tag, True))

    def isend(self, obj, dest, tag=0):
        self._post(pickle.dumps(obj), dest, tag, False)
        return Request()

    def recv(self, buf=None, source=ANY_SOURCE, tag=ANY_TAG, status=None):
        return pickle.loads(self._take(source, tag, status)['data'])

    def irecv(self, buf=None, source=ANY_SOURCE, tag=ANY_TAG):
        return Request(lambda: self.recv(None, source, tag))

    def sendrecv(self, sendobj, dest, sendtag=0, recvbuf=None, source=ANY_SOURCE, recvtag=ANY_TAG, status=None):
        self._post(pickle.dumps(sendobj), dest, sendtag, False)
        return self.recv(None, source, recvtag, status)

    def Send(self, buf, dest, tag=0):
        m = self._post(_buf(buf)[0].copy(), dest, tag, False)
        if J().mpi_rng.random() < 0.5:
            self._waitsent(m)

    def Ssend(self, buf, dest, tag=0):
        self._waitsent(self._post(_buf(buf)[0].copy(), dest, tag, True))

    def Isend(self, buf, dest, tag=0):
        self._post(_buf(buf)[0].copy(), dest, tag, False)
        return Request()

    def Recv(self, buf, source=ANY_SOURCE, tag=ANY_TAG, status=None):
        v = _buf(buf)[0]
        d = self._take(source, tag, status)['data']
        if d.nbytes > v.nbytes:
            raise Exception_('MPI_ERR_TRUNCATE: message truncated')
        fl = v.reshape(-1)
        d = d.reshape(-1).view(fl.dtype)
        if v.flags.c_contiguous:
            v.reshape(-1)[:d.size] = d
        else:
            v[...] = d.reshape(v.shape)

    def Irecv(self, buf, source=ANY_SOURCE, tag=ANY_TAG):
        return Request(lambda: self.Recv(buf, source, tag))

    def Sendrecv(self, sendbuf, dest, sendtag=0, recvbuf=None, source=ANY_SOURCE, recvtag=ANY_TAG, status=None):
        self._post(_buf(sendbuf)[0].copy(), dest, sendtag, False)
        self.Recv(recvbuf, source, recvtag, status)

    def Sendrecv_replace(self, buf, dest, sendtag=0, source=ANY_SOURCE, recvtag=ANY_TAG, status=None):
        self._post(_buf(buf)[0].copy(), dest, sendtag, False)
        self.Recv(buf, source, recvtag, status)

    def py2f(self):
        return 0


class Intracomm(Comm):
    pass


class Topocomm(Intracomm):
    pass


class Cartcomm(Topocomm):
    def Get_dim(self):
        return len(self._cart)

    dim = property(lambda s: s.Get_dim())
    dims = property(lambda s: list(s._cart))

    def Get_topo(self):
        return list(self._cart), [0] * len(self._cart), self.Get_coords(self._me())

    def Get_coords(self, r):
        return [int(x) for x in np.unravel_index(r, self._cart)]

    coords = property(lambda s: s.Get_coords(s._me()))

    def Get_cart_rank(self, coords):
        return int(np.ravel_multi_index(coords, self._cart))

    def Shift(self, direction, disp):
        c = self.coords

        def at(d):
            x = list(c)
            x[direction] += d
            return self.Get_cart_rank(x) if 0 <= x[direction] < self._cart[direction] else PROC_NULL
        return at(-disp), at(disp)

    def Sub(self, remain_dims):
        rem = [bool(x) for x in remain_dims]
        self._coll('Cart_sub', (tuple(rem),), None, self._all, lambda o, m: None)
        me = self.coords
        g = []
        for r in range(len(self._g())):
            c = self.Get_coords(r)
            if all(rm or a == b for rm, a, b in zip(rem, c, me)):
                g.append(self._g()[r])
        dims = tuple(d for d, rm in zip(self._cart, rem) if rm)
        color = tuple(a for a, rm in zip(me, rem) if not rm)
        return Cartcomm(g, self._ctx + ('sub', self._seq, color), dims or (1,))


class _World(Intracomm):
    """MPI_COMM_WORLD: one object, the rank is that of the running thread."""
    def __init__(self):
        super().__init__((), ('world',))
        self._seqs = {}

    def _g(self):
        return tuple(range(J().n))

    def _next(self):
        j = J()
        k = (id(j), j.cur)
        self._seqs[k] = self._seqs.get(k, 0) + 1
        self._seq = self._seqs[k]
        return self._seq

    @property
    def _seq(self):
        j = kernel.CUR
        return self._seqs.get((id(j), j.cur), 0) if j is not None else 0

    @_seq.setter
    def _seq(self, v):
        pass

    def __bool__(self):
        return True


class _Self(_World):
    def __init__(self):
        super().__init__()
        self._ctx = ('self',)

    def _g(self):
        return (J().cur,)


COMM_WORLD = _World()
COMM_SELF = _Self()
COMM_NULL = Comm((), ('null',))


def Compute_dims(nnodes, dims):
    """MPI_Dims_create: as balanced as possible, non-increasing (Open MPI's result)."""
    dims = list(dims) if not isinstance(dims, (int, np.integer)) else [0] * int(dims)
    fixed = 1
    for d in dims:
        if d > 0:
            fixed *= d
    if nnodes % fixed:
        raise Exception_('MPI_ERR_DIMS: invalid dimensions')
    rest = nnodes // fixed
    free = [i for i, d in enumerate(dims) if d == 0]
    if not free:
        if rest != 1:
            raise Exception_('MPI_ERR_DIMS: invalid dimensions')
        return dims
    best = None

    def rec(k, left, cur):
        nonlocal best
        if k == 1:
            c = sorted(cur + [left], reverse=True)
            key = (c[0] - c[-1], c)
            if best is None or key < best:
                best = key
            return
        for d in range(1, left + 1):
            if left % d == 0:
                rec(k - 1, left // d, cur + [d])
    rec(len(free), rest, [])
    for i, d in zip(free, best[1]):
        dims[i] = d
    return dims


def Wtime():
    return J().clock()


class Info(dict):
    @classmethod
    def Create(cls):
        return cls()

    def Set(self, k, v):
        self[k] = v

    def Free(self):
        pass


INFO_NULL = Info()


def install():
    """Put the stand-in where `import mpi4py` finds it."""
    pkg = types.ModuleType('mpi4py')
    pkg.__path__ = []
    pkg.__version__ = '4.1.2'
    mpi = types.ModuleType('mpi4py.MPI')
    for k, v in list(globals().items()):
        if k[0] != '_' and k not in ('J', 'kernel', 'np', 'pickle', 'sys', 'types', 'install'):
            setattr(mpi, k, v)
    for k, v in _types.items():
        setattr(mpi, k, v)
    mpi._typedict = _typedict
    mpi.Exception = Exception_
    mpi.Is_initialized = lambda: True
    mpi.Is_finalized = lambda: False
    mpi.Init = mpi.Finalize = lambda *a: None
    mpi.Query_thread = lambda: THREAD_SINGLE
    mpi.Get_processor_name = lambda: 'sim%d' % J().cur
    rc = types.SimpleNamespace(initialize=True, finalize=True, threads=False)
    pkg.rc = rc
    pkg.MPI = mpi
    pkg.get_include = lambda: ''
    pkg.get_config = lambda: {}
    sys.modules['mpi4py'] = pkg
    sys.modules['mpi4py.MPI'] = mpi
    rcm = types.ModuleType('mpi4py.rc')
    sys.modules['mpi4py.rc'] = rcm
