"""The C++ program on simulated ranks.

It is compiled from the tree's sources against stand-ins for the MPI and FFTW-MPI libraries (dst/cpp), and loaded
once per rank, so that every rank has global variables and streams of its own.  Each library call comes back here
and goes through the same simulated communicator as those of the Python program.
"""
import ctypes
import glob
import os
import shutil
import subprocess
import traceback

import numpy as np

HERE = os.path.dirname(os.path.abspath(__file__))
OPS = ('INIT FINALIZE ABORT RANK SIZE BARRIER BCAST REDUCE ALLREDUCE GATHER ALLGATHER SEND RECV WTIME TEXT LOCALSIZE PLAN '
       'EXECUTE DESTROY INITIALIZED').split()
DT = {1: 'f8', 2: 'f4', 3: 'i4', 4: 'i8', 5: 'i1', 6: 'u1', 7: 'c16', 8: 'u4', 9: 'u8'}
CB = ctypes.CFUNCTYPE(ctypes.c_long, ctypes.c_int, ctypes.POINTER(ctypes.c_long), ctypes.POINTER(ctypes.c_void_p))
LIB = None


class NoBuild(Exception):
    pass


def build(repo, root):
    """Compiles cpp/*.cpp of the repository; -> path of the shared library."""
    global LIB
    src = sorted(glob.glob(os.path.join(repo, 'cpp', '*.cpp')))
    out = os.path.join(root, 'libspectral.so')
    inc = os.path.join(HERE, 'cpp')
    env = {k: v for k, v in os.environ.items() if k not in ('CC', 'CXX')}
    fl = ['-std=c++11', '-O3', '-fPIC', '-w', '-fno-gnu-unique', '-I', inc]
    obj = []
    for s in src + [os.path.join(inc, 'stub.cpp')]:
        o = os.path.join(root, 'cpp-%d.o' % len(obj))
        extra = [] if s.startswith(inc) else ['-I', os.path.join(repo, 'cpp')]
        p = subprocess.run(['g++'] + fl + extra + ['-c', s, '-o', o], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if not p.returncode and extra:
            # (a function that is called main may end without a return statement, so it is not renamed before)
            p = subprocess.run(['objcopy', '--redefine-sym', 'main=spectral_main', o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode:
            raise NoBuild(p.stdout.decode(errors='replace')[-3000:])
        obj.append(o)
    p = subprocess.run(['g++', '-shared', '-Wl,-Bsymbolic', '-Wl,--version-script=' + os.path.join(inc, 'exports.map'), '-static-libstdc++', '-static-libgcc'] + obj + ['-o', out, '-lm'],
                       env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode:
        raise NoBuild(p.stdout.decode(errors='replace')[-3000:])
    LIB = out
    return out


def _arr(p, dtype, n):
    n = int(n)
    if n <= 0:
        return np.zeros(0, dtype)
    d = np.dtype(dtype)
    return np.frombuffer((ctypes.c_char * (n*d.itemsize)).from_address(p), dtype=d)


class Rank:
    def __init__(self, r, job, cfg):
        from mpi4py import MPI
        self.MPI, self.r, self.job, self.cfg = MPI, r, job, cfg
        self.comm = MPI.COMM_WORLD
        self.n = self.comm.Get_size()
        self.plans = []
        self.nr2c = 0
        self.log = []           # what was transformed: ('r2c' or 'c2r', arrays) on the first rank
        self.fail = None
        self.wt = []
        self.state = 0
        self.local = {}

    def share(self, n):
        b = -(-n//self.n)
        lo = min(self.r*b, n)
        m = min(b, n-lo)
        return m, lo if m else 0

    def shares(self, n):
        b = -(-n//self.n)
        return [(min(q*b, n), min((q+1)*b, n)) for q in range(self.n)]

    def __call__(self, op, i, p):
        try:
            return int(getattr(self, OPS[op])(i, p) or 0)
        except BaseException as e:          # noqa
            self.job.end('error', 'the simulated library: ' + ''.join(traceback.format_exception(type(e), e, e.__traceback__)))

    # -- MPI
    def INIT(self, i, p):
        self.state = 1
        self.job.point('MPI_Init')

    def INITIALIZED(self, i, p):
        return self.state > 0

    def FINALIZE(self, i, p):
        self._up('MPI_Finalize')
        self.state = 2
        self.comm._coll('Finalize', (), None, self.comm._all, lambda o, me: None)

    def _up(self, what):
        if self.state != 1:
            self.job.violate('rank %d calls %s %s' % (self.r, what, 'after MPI_Finalize' if self.state else 'before MPI_Init'))

    def ABORT(self, i, p):
        self.comm.Abort(i[0])

    def RANK(self, i, p):
        self._up('MPI_Comm_rank')
        return self.r

    def SIZE(self, i, p):
        self._up('MPI_Comm_size')
        return self.n

    def BARRIER(self, i, p):
        self._up('MPI_Barrier')
        self.comm.Barrier()

    def _op(self, k):
        return {1: self.MPI.SUM, 2: self.MPI.MIN, 3: self.MPI.MAX, 4: self.MPI.PROD}[k]

    def _b(self, p, n, d):
        return _arr(p, DT[d], n)

    def BCAST(self, i, p):
        self._up('MPI_Bcast')
        self.comm.Bcast(self._b(p[0], i[0], i[1]), root=i[2])

    def _send(self, p, n, d, inplace):
        if p in (2**64-1, -1):
            return inplace
        return self._b(p, n, d)

    def REDUCE(self, i, p):
        self._up('MPI_Reduce')
        r = self._b(p[1], i[0], i[1]) if self.r == i[3] else None
        self.comm.Reduce(self._send(p[0], i[0], i[1], self.MPI.IN_PLACE), r, op=self._op(i[2]), root=i[3])

    def ALLREDUCE(self, i, p):
        self._up('MPI_Allreduce')
        self.comm.Allreduce(self._send(p[0], i[0], i[1], self.MPI.IN_PLACE), self._b(p[1], i[0], i[1]), op=self._op(i[2]))

    def GATHER(self, i, p):
        self._up('MPI_Gather')
        r = self._b(p[1], i[2]*self.n, i[3]) if self.r == i[4] else None
        self.comm.Gather(self._send(p[0], i[0], i[1], self.MPI.IN_PLACE), r, root=i[4])

    def ALLGATHER(self, i, p):
        self._up('MPI_Allgather')
        self.comm.Allgather(self._send(p[0], i[0], i[1], self.MPI.IN_PLACE), self._b(p[1], i[2]*self.n, i[3]))

    def SEND(self, i, p):
        self._up('MPI_Send')
        self.comm.Send(self._b(p[0], i[0], i[1]), i[2], tag=i[3])

    def RECV(self, i, p):
        self._up('MPI_Recv')
        self.comm.Recv(self._b(p[0], i[0], i[1]), source=i[2], tag=i[3])

    def WTIME(self, i, p):
        t = self.job.clock()
        self.wt.append(t)
        self.job.point('Wtime')
        _arr(p[0], 'f8', 1)[0] = t

    def TEXT(self, i, p):
        s = ctypes.string_at(p[0], i[0]).decode('latin-1')
        if not i[1]:
            self.job.out.append((self.r, s))

    # -- FFTW
    def LOCALSIZE(self, i, p):
        a, b, c, tr = i[0], i[1], i[2], i[3]
        (m, lo), (k, k0) = self.share(a), self.share(b)
        _arr(p[0], 'i8', 4)[:] = (m, lo, k, k0)
        size = max(1, m*b*c, k*a*c if tr else 0)
        # the library is free to ask for more than the data need
        size += (0, 1, 7, c)[(self.cfg.get('extra', 0)+self.r) % 4]
        self.local[(a, b, c)] = size
        return size

    def PLAN(self, i, p):
        fwd, a, b, c, to, ti, est = (i[k] for k in range(7))
        self.comm._coll('plan', (fwd, a, b, c, to, ti), None, self.comm._all, lambda o, me: None)
        pl = dict(fwd=fwd, N=(a, b, c), tr=bool(to if fwd else ti))
        if not est:
            # planning by trial runs over the arrays
            for q, n in zip((p[0], p[1]), self.sizes(pl)):
                _arr(q, 'f8', n)[:] = np.nan
        self.plans.append(pl)
        return len(self.plans)-1

    def sizes(self, pl):
        a, b, c = pl['N']
        m, k = self.share(a)[0], self.share(b)[0]
        return m*b*2*(c//2+1), 2*(k*a if pl['tr'] else m*b)*(c//2+1)

    def DESTROY(self, i, p):
        self.plans[i[0]] = None

    def EXECUTE(self, i, p):
        pl = self.plans[i[0]]
        a, b, c = pl['N']
        cf = c//2+1
        nr, nc = self.sizes(pl)
        m, k = self.share(a)[0], self.share(b)[0]
        R = _arr(p[0], 'f8', nr).reshape(m, b, 2*cf)
        C = _arr(p[1], 'f8', nc).view('c16')
        C = C.reshape((k, a, cf) if pl['tr'] else (m, b, cf))
        if pl['fwd']:
            if self.cfg.get('ic') is not None and self.nr2c < 3:
                self.substitute(R[:, :, :c], (a, b, c))
            self.nr2c += 1
            mine = R[:, :, :c].copy()
            whole = self.comm._coll('r2c', (i[0],), mine, self.comm._all, self.whole)
            out = np.fft.rfftn(whole)
            C[:] = self.cut(out, pl['tr'])
            rec = ('r2c', whole)
        else:
            mine = C.copy()
            parts = self.comm._coll('c2r', (i[0],), mine, self.comm._all, self.whole)
            spec = parts.transpose(1, 0, 2) if pl['tr'] else parts
            out = np.fft.irfftn(spec, s=(a, b, c), axes=(0, 1, 2))*(a*b*c)
            lo = self.share(a)[1]
            R[:, :, :c] = out[lo:lo+m]
            R[:, :, c:] = np.nan        # the padding is anything
            rec = ('c2r', out)
        self.job.note(mine.tobytes())
        if self.r == 0:
            self.log.append(rec)

    def whole(self, o, me):
        if o.res is None:
            o.res = np.concatenate([o.contrib[q] for q in range(self.n)], axis=0)
        return o.res

    def cut(self, spec, tr):
        a, b = spec.shape[:2]
        m, lo = self.share(b if tr else a)
        return spec[:, lo:lo+m].transpose(1, 0, 2) if tr else spec[lo:lo+m]

    def substitute(self, R, N):
        """The program's initial field is replaced where it lies in memory, before its first transforms."""
        m, lo = self.share(N[0])
        x = [np.arange(q)*2*np.pi/q for q in N]
        X = np.array(np.meshgrid(*x, indexing='ij'))
        tg = [np.sin(X[0])*np.cos(X[1])*np.cos(X[2]), -np.cos(X[0])*np.sin(X[1])*np.cos(X[2]), 0*X[0]]
        whole = self.comm._coll('initial', (), R.copy(), self.comm._all, self.whole)
        same = [k for k in range(3) if np.allclose(whole, tg[k], atol=1e-10)]
        if same:
            # on very small meshes the components cannot be told apart
            k = same[0] if len(same) == 1 else self.nr2c
            R[:] = self.cfg['field'](N[0], self.cfg['ic'])[k, lo:lo+m]
            self.taken += 1

    taken = 0


def prog(r, job, cfg):
    path = os.path.join(os.getcwd(), 'rank%d.so' % r)
    shutil.copyfile(LIB, path)
    lib = ctypes.CDLL(path, mode=0)
    q = Rank(r, job, cfg)
    cb = CB(q)
    argv = [b'spectralDNS'] + ([str(cfg['M']).encode()] if cfg.get('M') is not None else [])
    av = (ctypes.c_char_p*(len(argv)+1))(*argv, None)
    rc = lib.dst_start(cb, len(argv), av)
    return dict(rc=rc, log=q.log, wt=q.wt, taken=q.taken, finalized=q.state == 2)
