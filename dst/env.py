"""Installs the seams around the code under test and runs simulated jobs in forked children."""
import builtins
import ctypes
import gc
import hashlib
import io
import os
import pickle
import random
import signal
import struct
import sys
import time as _time
import types

import numpy as np

from . import kernel, fakempi, fakeh5

REAL = {}
_libc = ctypes.CDLL(None)
TREE = None


def active():
    j = kernel.CUR
    return j if (j is not None and j.cur is not None and j.outcome is None and not j.busy) else None


# ---- clocks -------------------------------------------------------------------------------
def _clock(name):
    real = getattr(_time, name)
    REAL['time.' + name] = real
    ns = name.endswith('_ns')

    def f(*a):
        j = active()
        if j is None:
            return real(*a)
        t = j.clock()
        return int(t * 1e9) if ns else t
    f.__name__ = name
    return f


def _sleep(s):
    j = active()
    if j is None:
        return REAL['time.sleep'](s)
    j.now += max(0.0, s)
    j.point('sleep')


# ---- directory operations ----------------------------------------------------------------
def _fs(name, mod=os):
    real = getattr(mod, name)
    REAL['os.' + name] = real

    def f(*a, **k):
        j = active()
        if j is None:
            return real(*a, **k)
        p = a[0] if a else k.get('path', '.')
        try:
            p = os.fspath(p) if not isinstance(p, int) else '#fd'
            p = p.decode() if isinstance(p, bytes) else p
        except TypeError:
            p = '.'
        if p.startswith('/') and not p.startswith(j.scratch):
            return real(*a, **k)
        j.point('fs.' + name, p.replace(j.scratch, '~'))
        fakeh5._disk_fault(name, p)
        res = _stale(j, name, p, real, a, k) if name in LOOKS else real(*a, **k)
        if name == 'listdir':
            res = sorted(res)       # the order of a listing is the file system's
            random.Random('ls-%s-%d' % (j.seed, j.nev)).shuffle(res)
        if name == 'listdir' and j.watch in res or name in ('stat', 'access') and os.path.basename(p) == j.watch and res is not False:
            j.marks.append((j.nev, j.cur, 'saw'))
        return res
    f.__name__ = name
    return f


def _copyfile(src, dst, *a, **k):
    """Copying a file is not atomic: the target is emptied, and its contents come bit by bit."""
    j = active()
    real = REAL['shutil.copyfile']
    if j is None:
        return real(src, dst, *a, **k)
    p = os.path.abspath(os.fspath(dst))
    with _real_open(src, 'rb') as f:
        data = f.read()
    for i, part in enumerate((b'', data[:len(data)//2], data)):
        j.point('fs.copyfile%d' % i, p.replace(j.scratch, '~'))
        fakeh5._disk_fault('copyfile', p)
        with _real_open(p, 'wb') as f:
            f.write(part)
    j.point('fs.copied', p.replace(j.scratch, '~'))
    return dst


LOOKS = ('listdir', 'stat', 'access')


def _stale(j, name, p, real, a, k):
    """A network file system may show a process an old state of a folder: the file job.watch is not seen at
    the first job.stale[rank] looks."""
    left = (j.stale or {}).get(j.cur, 0)
    if not left or j.watch is None or not os.path.lexists(os.path.join(j.scratch, j.watch)) or j.cur is None:
        return real(*a, **k)
    if name == 'listdir':
        res = real(*a, **k)
        if j.watch not in res:
            return res
        res = [x for x in res if x != j.watch]
    elif os.path.basename(p) == j.watch:
        if name == 'stat':
            res = None
        else:
            res = False
    else:
        return real(*a, **k)
    j.stale[j.cur] = left - 1
    j.fire('stale folder', 'rank %d' % j.cur)
    if res is None:
        raise FileNotFoundError(2, 'No such file or directory', p)
    return res


_real_open = builtins.open


# ---- memory: uninitialised memory is poisoned ---------------------------------------------
_empty, _empty_like = np.empty, np.empty_like


def _poison(a):
    j = active()
    if j is not None and j.poison is not None:
        if a.dtype.kind in 'fc':
            a.fill(j.poison)
        elif a.dtype.itemsize == 1 and a.dtype.kind in 'iu' and a.size > 64:
            # raw buffers from which aligned arrays are cut; as floating point numbers NaN or harmless-looking
            a.fill({True: 0xff}.get(j.poison != j.poison, {0.0: 0}.get(j.poison, 0x3f)) if a.dtype.kind == 'u' else
                   {True: -1}.get(j.poison != j.poison, {0.0: 0}.get(j.poison, 0x3f)))
    return a


def p_empty(*a, **k):
    return _poison(_empty(*a, **k))


def p_empty_like(*a, **k):
    return _poison(_empty_like(*a, **k))


PROFILED = ['RK4', 'ComputeRHS', 'Alltoallw', 'cross1', 'Conv']


class FakeProfile:
    """cProfile.Profile: the interpreter allows one active profiler per process, a rank has one each."""

    def __init__(self, *a, **k):
        self._on = False
        self.stats = {}

    def enable(self, *a, **k):
        self._on = True

    def disable(self):
        self._on = False

    def getstats(self):
        return [1] if self._on else []

    def create_stats(self):
        self.disable()
        j = active()
        names = [sys.intern(n) for n in getattr(j, 'profile_names', None) or PROFILED]
        self.stats = {}
        for i, n in enumerate(names):
            self.stats[('sim.py', i, n)] = (1, 1, 0.25 * (i + 1) + (j.cur if j else 0), 0.5 * (i + 1) + (j.cur if j else 0), {})

    def clear(self):
        self.stats = {}

    def runcall(self, f, *a, **k):
        return f(*a, **k)

    def runctx(self, *a, **k):
        raise NotImplementedError


class Out(io.TextIOBase):
    def __init__(self, name):
        self.name_ = name

    def write(self, s):
        j = kernel.CUR
        if j is not None and j.cur is not None:
            j.out.append((j.cur, s))
        return len(s)

    def flush(self):
        pass


def memory(rank, kind, look):
    """In MB."""
    return 100 + rank + 3*look*(rank+1) if kind == 'RSS' else 500 + 2*rank + 5*look


def _check_output(cmd, *a, **k):
    c = ' '.join(cmd) if isinstance(cmd, (list, tuple)) else cmd
    if c.strip().startswith('ps '):
        # the memory of a process grows from look to look, by rank
        j = active()
        kind = 'VSZ' if 'vsz' in c else 'RSS'
        looks = j.looks = getattr(j, 'looks', {})
        k = looks[j.cur, kind] = looks.get((j.cur, kind), -1) + 1
        return b'  %s\n%d\n' % (kind.encode(), 1024 * memory(j.cur, kind, k))
    raise RuntimeError('the simulation runs no other process: %r' % (cmd,))


def install(tree):
    """Once per process, before shenfun or spectralDNS is imported."""
    global TREE
    TREE = tree
    import threading, random, tempfile, subprocess, sympy, scipy.sparse.linalg, numba   # noqa: keep the real clock
    import scipy.fft, scipy.integrate, scipy.special, mpmath, cProfile, pstats, yaml, argparse, json  # noqa
    try:
        import numexpr                # noqa
    except ImportError:
        pass
    fakempi.install()
    fakeh5.install()
    for n in ('time', 'perf_counter', 'monotonic', 'process_time', 'time_ns', 'perf_counter_ns'):
        setattr(_time, n, _clock(n))
    REAL['time.sleep'] = _time.sleep
    _time.sleep = _sleep
    for n in ('listdir', 'remove', 'unlink', 'rename', 'replace', 'stat', 'scandir', 'mkdir', 'rmdir', 'access',
              'link', 'symlink'):
        setattr(os, n, _fs(n))
    import shutil
    REAL['shutil.copyfile'] = shutil.copyfile
    shutil.copyfile = _copyfile
    np.empty, np.empty_like = p_empty, p_empty_like
    import cProfile
    cProfile.Profile = FakeProfile
    import subprocess
    subprocess.check_output = _check_output
    sys.path.insert(0, tree)
    for n in ('shenfun', 'spectralDNS'):
        assert n not in sys.modules
    _numba_lock()
    import shenfun                    # noqa: loads the compiled modules once
    import mpi4py_fft                 # noqa


def _numba_lock():
    """No scheduling inside Numba's compiler: it holds a real lock, which another rank may ask for."""
    from numba.core import compiler_lock as cl
    K = type(cl.global_compiler_lock)
    acq, rel = K.acquire, K.release

    def acquire(self):
        if kernel.CUR is not None:
            kernel.CUR.busy += 1
        acq(self)

    def release(self):
        rel(self)
        if kernel.CUR is not None:
            kernel.CUR.busy -= 1
    K.acquire, K.release = acquire, release


def setup_rank():
    """In each rank, before the code under test is imported."""
    import mpi4py_fft.fftw as fftw
    # The planner measures run times with a clock of its own; its estimate is deterministic.
    est = fftw.flag_dict['FFTW_ESTIMATE']
    for k in ('FFTW_MEASURE', 'FFTW_PATIENT', 'FFTW_EXHAUSTIVE'):
        fftw.flag_dict[k] = est


def crash_disk(job):
    fakeh5.crash(job)


def in_child(fn, timeout=600):
    """Run fn() in a forked child; returns ('ok', result) | ('died', why) | ('timeout', why)."""
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            try:
                res = ('ok', fn())
            except BaseException as e:      # noqa
                import traceback
                res = ('error', ''.join(traceback.format_exception(type(e), e, e.__traceback__)))
            data = pickle.dumps(res, protocol=4)
            with _real_open(w, 'wb') as f:
                f.write(struct.pack('<Q', len(data)))
                f.write(data)
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    import select
    buf = bytearray()
    end = REAL.get('time.time', _time.time)() + timeout
    tnow = REAL.get('time.time', _time.time)
    ok = True
    while True:
        left = end - tnow()
        if left <= 0:
            ok = False
            break
        rd, _, _ = select.select([r], [], [], min(left, 5))
        if rd:
            b = os.read(r, 1 << 20)
            if not b:
                break
            buf += b
    os.close(r)
    if not ok:
        os.kill(pid, signal.SIGKILL)
        os.waitpid(pid, 0)
        return ('timeout', 'no result after %d s' % timeout)
    _, st = os.waitpid(pid, 0)
    if len(buf) < 8:
        return ('died', 'child ended with status %d' % st)
    n = struct.unpack('<Q', bytes(buf[:8]))[0]
    return pickle.loads(bytes(buf[8:8 + n]))


def run_job(prog, n, scratch, seed=0, policy='random', trace=None, crash_at=None, faults=(), clock=None,
            poison=float('nan'), perturb=0, at_event=(), max_events=400000, timeout=600, profile_names=None,
            stale=None, watch=None):
    """Run prog(rank, job) on n simulated ranks with `scratch` as the working directory.

    Returns a dict describing the execution (a child process dies with all of the job's memory;
    only the files in `scratch` survive).
    """
    def child():
        gc.disable()
        os.chdir(scratch)
        if perturb:
            _libc.mallopt(-6, perturb)      # M_PERTURB
        job = kernel.Job(n, seed, policy, trace=trace, crash_at=crash_at, max_events=max_events,
                         faults=faults, clock=clock)
        job.scratch = os.path.abspath(scratch)
        job.poison = poison
        job.profile_names = profile_names
        job.stale, job.watch = dict(stale or {}), watch
        job.at_event = sorted([(ev, _action(job, act)) for ev, act in at_event], key=lambda t: t[0])
        sys.stdout, sys.stderr = Out('out'), Out('err')
        import warnings
        warnings.simplefilter('ignore')
        np.seterr(all='ignore')

        def main(r):
            setup_rank()
            return prog(r, job)
        try:
            job.run(main)
        finally:
            sys.stdout, sys.stderr = sys.__stdout__, sys.__stderr__
        if job.outcome != 'finished':
            crash_disk(job)
        exits = [None if e is None else (e.code if isinstance(e, SystemExit) else repr(e)) for e in job.exc]
        return dict(outcome=job.outcome, detail=job.detail, exits=exits,
                    exc=[None if e is None else type(e).__name__ for e in job.exc],
                    excmsg=[None if e is None else str(e) for e in job.exc],
                    tb=job.tb, ret=job.ret, obs=job.obs, out=job.out, nev=job.nev, kinds=job.kinds,
                    digest=job.digest.hexdigest(), ilv=job.ilv.hexdigest(), choices=bytes(job.choices),
                    fired=job.fired, sim_s=job.sim_seconds(), tail=job.tail[-40:], n=n,
                    readings=job.readings, marks=job.marks, clocks=job.clocks, disk=job.disk)
    st, res = in_child(child, timeout)
    if st != 'ok':
        return dict(outcome=st, detail=res, exits=[], exc=[], excmsg=[], tb=[], ret=[], obs=[], out=[], nev=0,
                    kinds={}, digest='', ilv='', choices=b'', fired=[], sim_s=0.0, tail=[], n=n, readings=[], marks=[], clocks=[], disk=[])
    return res


def _action(job, act):
    def touch():
        with _real_open(os.path.join(job.scratch, act[1]), 'w'):
            pass
        job.fire(act[0], 'event %d' % job.nev)

    def unlink():
        try:
            REAL['os.remove'](os.path.join(job.scratch, act[1]))
        except OSError:
            pass
    if act[0] == 'killfile':
        return touch
    if act[0] == 'unlink':
        return unlink
    raise ValueError(act)
