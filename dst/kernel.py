"""The simulator kernel: rank threads, the seeded scheduler, simulated clocks and the event log.

Every MPI rank of a simulated job is one real thread of this process, but only the thread that
holds the baton runs.  The baton changes hands only at *points* (an MPI call, a disk or directory
operation, a clock reading), and the scheduler decides who gets it, so a seed is one execution.
"""
import hashlib
import random
import sys
import threading
import traceback
import _thread

CUR = None          # the Job that is running in this process (one at a time)

# Packages of which every rank has a private copy (their modules hold per-process state:
# parameters, ranks, work arrays, plans ...).  Compiled extension modules are shared.
PRIVATE = ('spectralDNS', 'shenfun', 'mpi4py_fft', 'OrrSommerfeld_shen')


class _Shared:
    """Meta path finder: a rank that imports a compiled extension module gets the shared one."""

    def __init__(self, mods):
        self.mods = mods

    def find_spec(self, name, path=None, target=None):
        if name in self.mods:
            import importlib.machinery
            return importlib.machinery.ModuleSpec(name, self, origin=self.mods[name].__file__)
        return None

    def create_module(self, spec):
        return self.mods[spec.name]

    def exec_module(self, module):
        pass


def _seams(shared):
    import importlib._bootstrap as ib
    sys.meta_path.insert(0, _Shared(shared))
    real = ib._get_module_lock

    def get(name):
        # import locks are per process, hence per rank
        if CUR is not None and name.split('.', 1)[0] in PRIVATE:
            name = '%s@%s' % (name, CUR.cur)
        return real(name)
    ib._get_module_lock = get


class Stop(BaseException):
    """Never caught by the code under test: ends a rank thread."""


class Job:
    """One incarnation of an MPI job: n ranks from start to end, abort, crash or deadlock."""

    def __init__(self, n, seed, policy='random', trace=None, crash_at=None,
                 max_events=400000, faults=(), clock=None):
        self.n = n
        self.seed = seed
        # independent streams, so that removing one fault does not reshuffle everything else
        self.rng = random.Random('sched-%s' % seed)
        self.mpi_rng = random.Random('mpi-%s' % seed)
        self.disk_rng = random.Random('disk-%s' % seed)
        self.clk_rng = random.Random('clock-%s' % seed)
        self.policy = policy
        self.trace = list(trace) if trace is not None else None
        self.tpos = 0
        self.choices = []
        self.crash_at = crash_at
        self.max_events = max_events
        self.faults = list(faults)
        self.fault_hits = {}
        self.fired = []
        self.sems = [_thread.allocate_lock() for _ in range(n)]
        for s in self.sems:
            s.acquire()
        self.ctrl = _thread.allocate_lock()
        self.ctrl.acquire()
        self.state = ['run'] * n
        self.waiting = [None] * n
        self.cur = None
        self.nev = 0
        self.kinds = {}
        self.digest = hashlib.sha256()
        self.ilv = hashlib.sha256()
        self.tail = []
        self.marks = []             # events that touch the disk or the folder
        self.outcome = None
        self.detail = ''
        self.exc = [None] * n
        self.tb = [''] * n
        self.ret = [None] * n
        self.finish_order = []
        self.out = []
        self.obs = []
        self.mods = [{} for _ in range(n)]
        self.modlen = -1
        self.modkeys = []
        self.now = 1.0e9
        ck = clock or {}
        self.skew = ck.get('skew', [0.0] * n)
        self.drift = ck.get('drift', [0.0] * n)
        self.tick = ck.get('tick', 1e-4)
        self.jumps = {tuple(j[:2]): j[2] for j in ck.get('jumps', [])}   # (rank, reading) -> seconds
        self.readings = [0] * n
        self.disk = []              # (operation, its number, file) of everything asked of the disk
        self.clocks = []            # clock readings and steps, in order
        self.t_start = self.now
        self.ops = {}
        self.mail = {}
        self.h5open = {}
        self.at_event = []          # [(event number, callable)] e.g. a user touching the kill file
        self.prio = [self.rng.random() for _ in range(n)]
        self.pct_points = set()
        self.busy = 0

    # -- events ---------------------------------------------------------------------------
    def log(self, kind, detail=''):
        self.nev += 1
        self.now += self.tick
        self.kinds[kind] = self.kinds.get(kind, 0) + 1
        rec = '%d %s %s %s' % (self.nev, self.cur, kind, detail)
        self.digest.update(rec.encode())
        self.ilv.update(b'%d%s' % (self.cur, kind[:6].encode()))
        self.tail.append(rec)
        if kind[:2] in ('fs', 'H5', 'h5') and len(self.marks) < 20000:
            self.marks.append((self.nev, self.cur, kind))
        if len(self.tail) > 400:
            del self.tail[:200]
        while self.at_event and self.at_event[0][0] <= self.nev:
            _, fn = self.at_event.pop(0)
            fn()
        if self.nev >= self.max_events:
            self.end('steps', 'no end after %d events' % self.nev)
        if self.crash_at is not None and self.nev >= self.crash_at:
            self.fire('crash', 'event %d (%s by rank %s)' % (self.nev, kind, self.cur))
            self.end('crash', 'crashed at event %d' % self.nev)

    def note(self, data):
        """Fold observed data (hash) into the execution's digest."""
        self.digest.update(data)

    def fire(self, kind, detail=''):
        self.fault_hits[kind] = self.fault_hits.get(kind, 0) + 1
        self.fired.append((kind, str(detail)))

    def point(self, kind, detail=''):
        """A scheduling point of the running rank."""
        self.log(kind, detail)
        self._switch(self.cur)

    # -- scheduling -----------------------------------------------------------------------
    def _pick(self, runnable):
        if len(runnable) == 1:
            return runnable[0]
        if self.trace is not None:
            if self.tpos < len(self.trace):
                c = self.trace[self.tpos]
                self.tpos += 1
                if c not in runnable:
                    c = self.cur if self.cur in runnable else runnable[0]
            else:
                c = self.cur if self.cur in runnable else runnable[0]
        else:
            p = self.policy
            rng = self.rng
            if p == 'random':
                c = runnable[rng.randrange(len(runnable))]
            elif p == 'sticky':
                c = (self.cur if self.cur in runnable and rng.random() < 0.9
                     else runnable[rng.randrange(len(runnable))])
            elif p == 'pct':
                if rng.random() < 0.01:
                    self.prio[rng.randrange(self.n)] = rng.random() - len(self.choices)
                c = max(runnable, key=lambda r: self.prio[r])
            elif p.startswith('starve'):
                k = int(p[6:] or 0) % self.n
                rest = [r for r in runnable if r != k] or runnable
                c = rest[rng.randrange(len(rest))]
            elif p.startswith('rush'):
                k = int(p[4:] or 0) % self.n
                c = k if k in runnable else runnable[rng.randrange(len(runnable))]
            elif p == 'lowest':
                c = runnable[0]
            elif p == 'highest':
                c = runnable[-1]
            else:
                raise ValueError('unknown policy ' + p)
        self.choices.append(c)
        return c

    def _switch(self, r, gone=False):
        runnable = [i for i in range(self.n) if self.state[i] == 'run']
        if not runnable:
            if all(s == 'done' for s in self.state):
                self.end('finished')
            else:
                self.end('deadlock', '; '.join(
                    'rank %d %s' % (i, 'has ended' if self.state[i] == 'done' else
                                    'waits in %s' % (self.waiting[i],)) for i in range(self.n)))
        c = self._pick(runnable)
        if c == r:
            return
        self._swap_modules(c)
        self.cur = c
        self.sems[c].release()
        if not gone:
            self.sems[r].acquire()

    def block(self, why):
        r = self.cur
        self.state[r] = 'blocked'
        self.waiting[r] = why
        self._switch(r)
        self.waiting[r] = None

    def wake(self, r):
        if self.state[r] == 'blocked':
            self.state[r] = 'run'

    def end(self, outcome, detail=''):
        """End the job here and now; no rank runs another instruction of the code under test."""
        if self.outcome is None:
            self.outcome = outcome
            self.detail = detail
            self.ctrl.release()
        lock = _thread.allocate_lock()
        lock.acquire()
        lock.acquire()          # park for ever (daemon thread; the process ends with os._exit)

    def violate(self, what):
        self.end('violation', what)

    # -- per-rank modules -----------------------------------------------------------------
    def _swap_modules(self, to):
        sm = sys.modules
        fr = self.cur
        if len(sm) != self.modlen:
            keys = [k for k in sm if k.split('.', 1)[0] in PRIVATE]
        else:
            keys = self.modkeys
        if fr is not None:
            mine = {k: sm[k] for k in keys if k in sm}
            self.mods[fr] = mine
        for k in keys:
            sm.pop(k, None)
        sm.update(self.mods[to])
        self.modlen = len(sm)
        self.modkeys = list(self.mods[to])

    # -- clocks ---------------------------------------------------------------------------
    def clock(self):
        r = self.cur
        self.readings[r] += 1
        self.log('clock')
        j = self.jumps.get((r, self.readings[r]))
        if j:
            self.skew[r] += j
            self.fire('clock_jump', 'rank %d reading %d %+g s' % (r, self.readings[r], j))
        t = self.now + self.skew[r] + (self.now - self.t_start) * self.drift[r]
        self.clocks.append((r, 'clock', t))
        return t

    def peek(self, r):
        """What the clock of rank r shows, without reading it."""
        return self.now + self.skew[r] + (self.now - self.t_start) * self.drift[r]

    # -- running --------------------------------------------------------------------------
    def _thread(self, r, main):
        self.sems[r].acquire()
        try:
            try:
                self.ret[r] = main(r)
            except Stop:
                raise
            except BaseException as e:          # noqa: the job's own outcome is what we record
                self.exc[r] = e
                self.tb[r] = ''.join(traceback.format_exception(type(e), e, e.__traceback__))
        finally:
            self.state[r] = 'done'
            self.finish_order.append(r)
            self.log('exit', type(self.exc[r]).__name__ if self.exc[r] else '')
            e = self.exc[r]
            if e is not None and not isinstance(e, SystemExit):
                # an uncaught exception ends that process; mpirun then aborts the whole job
                self.end('exception', 'rank %d: %s: %s' % (r, type(e).__name__, e))
            self._switch(r, gone=True)

    def run(self, main):
        global CUR
        CUR = self
        base = {k: m for k, m in sys.modules.items() if k.split('.', 1)[0] in PRIVATE}
        shared = {k: m for k, m in base.items() if (getattr(m, '__file__', '') or '').endswith('.so')}
        for k in base:
            del sys.modules[k]
        _seams(shared)
        threading.stack_size(64 * 1024 * 1024)
        ths = [threading.Thread(target=self._thread, args=(r, main), daemon=True)
               for r in range(self.n)]
        for t in ths:
            t.start()
        first = self._pick(list(range(self.n)))
        self.cur = None
        self._swap_modules(first)
        self.cur = first
        self.sems[first].release()
        self.ctrl.acquire()
        return self.outcome

    def sim_seconds(self):
        return self.now - self.t_start
