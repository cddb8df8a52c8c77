"""Runs cases on the simulator, minimises what fails, writes replay and evidence files.

A case is a JSON dict: {'fn': scenario, 'cfg': {...}, 'n': ranks, 'seed': int, 'policy': ..., ...}.  A scenario is a
function (ctx, case) that runs one or more simulated jobs and raises Violation.  Given a case, everything that
happens is a function of the case and of the code under test.
"""
import base64
import hashlib
import json
import os
import pickle
import random
import select
import shutil
import signal
import struct
import sys
import tempfile
import time
import traceback
import zlib

from . import env

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
now = time.time         # bound before the seams are installed: the real clock


class Violation(Exception):
    """The property is broken.  `key` names the way it is broken, for minimising and for known findings."""

    def __init__(self, key, msg):
        Exception.__init__(self, msg)
        self.key, self.msg = key, msg


class HarnessError(Exception):
    pass


class Ctx:
    """What a scenario sees."""

    def __init__(self, case, scratch, replay=None, shallow=False):
        self.case = case
        self.scratch = scratch
        self.replay = replay
        self.jobs = []
        self.stats = dict(jobs=0, multi=0, events=0, sim_s=0.0, faults={}, ilv=set(), dig=set(), kinds={},
                          checked=0, ranks={}, outcomes={}, probes={}, steps=0)
        self.ndir = 0

    # -- folders ---------------------------------------------------------------------------
    def newdir(self, name=None):
        self.ndir += 1
        d = os.path.join(self.scratch, name or 'd%d' % self.ndir)
        os.makedirs(d, exist_ok=True)
        return d

    # -- jobs ------------------------------------------------------------------------------
    def job(self, cfg, n=1, d=None, prog=None, timeout=60, seed=None, policy=None, **kw):
        """One incarnation of the program on n ranks; returns the record of the execution."""
        from . import sim
        c = self.case
        k = len(self.jobs)
        if d is None:
            d = self.newdir()
        if seed is None:
            seed = c.get('seed', 0)
        if policy is None:
            policy = c.get('policy', 'random')
        kw.setdefault('max_events', 300000)
        if n == 1:
            policy = 'lowest'
        trace = None
        if self.replay is not None and k < len(self.replay):
            trace = self.replay[k]
        body = prog or sim.simulate
        res = env.run_job(lambda r, job: body(r, job, cfg), n, d, seed=seed, policy=policy, trace=trace,
                          timeout=timeout, **kw)
        if res['outcome'] == 'error':
            raise HarnessError(res['detail'])
        if res['outcome'] == 'timeout':
            # a wall-clock limit says nothing unless the machine was not the reason
            res = env.run_job(lambda r, job: body(r, job, cfg), n, d, seed=seed, policy=policy, trace=trace,
                              timeout=3*timeout, **kw)
        self.jobs.append(dict(n=n, seed=seed, policy=policy, outcome=res['outcome'], digest=res['digest'],
                              choices=res['choices'], fired=res['fired'], nev=res['nev'], tail=res['tail']))
        s = self.stats
        s['jobs'] += 1
        s['multi'] += n > 1
        s['events'] += res['nev']
        s['sim_s'] += res['sim_s']
        s['ranks'][n] = s['ranks'].get(n, 0) + 1
        s['outcomes'][res['outcome']] = s['outcomes'].get(res['outcome'], 0) + 1
        for f, _ in res['fired']:
            s['faults'][f] = s['faults'].get(f, 0) + 1
        for f, m in res['kinds'].items():
            s['kinds'][f] = s['kinds'].get(f, 0) + m
        if n > 1:
            s['ilv'].add(res['ilv'][:16])
        s['dig'].add(res['digest'][:16])
        res['dir'] = d
        return res

    def fail(self, key, msg):
        raise Violation(key, msg)

    def probe(self, name, k=1):
        """Counts that a rare situation was reached."""
        self.stats['probes'][name] = self.stats['probes'].get(name, 0) + k

    def checked(self, k=1):
        self.stats['checked'] += k

    def finished(self, res, what):
        """The job must have ended normally on every rank."""
        if res['outcome'] != 'finished':
            tb = ''
            for t in res['tb']:
                if t:
                    tb = ' | ' + ' / '.join(x.strip() for x in t.strip().split('\n')[-4:])
            self.fail('outcome-' + res['outcome'], '%s: %s: %s%s' % (what, res['outcome'], str(res['detail'])[:600],
                                                                     tb[:900]))
        bad = [(r, e) for r, e in enumerate(res['exc']) if e]
        if bad:
            self.fail('exit', '%s: rank %d ended with %s(%s)' % (what, bad[0][0], bad[0][1],
                                                                 res['excmsg'][bad[0][0]]))
        return res


def run_case(fns, case, root, replay=None):
    """-> dict(status ok|violation|error, key, msg, jobs, stats)"""
    from . import sim
    scratch = tempfile.mkdtemp(prefix='case', dir=root)
    ctx = Ctx(case, scratch, replay)
    t0 = now()
    out = dict(status='ok', key='', msg='')
    try:
        fns[case['fn']](ctx, case)
    except Violation as v:
        out = dict(status='violation', key=v.key, msg=v.msg)
    except sim.Broken as e:
        out = dict(status='violation', key='layout', msg=str(e))
    except BaseException as e:              # noqa
        out = dict(status='error', key=type(e).__name__,
                   msg=''.join(traceback.format_exception(type(e), e, e.__traceback__)))
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    out.update(jobs=ctx.jobs, stats=ctx.stats, wall=now()-t0, case=case)
    return out


# ---------------------------------------------------------------------------------------------
class Pool:
    """Forked workers that run cases, so that 8 cores are used; the result does not depend on which one."""

    def __init__(self, fns, root, n=8):
        self.fns, self.root, self.n = fns, root, n
        self.ws = []
        for i in range(n):
            self._spawn()

    def _spawn(self):
        a, b = os.pipe(), os.pipe()
        sys.stdout.flush()
        pid = os.fork()
        if pid == 0:
            try:
                signal.signal(signal.SIGINT, signal.SIG_IGN)
                os.setpgid(0, 0)
                os.close(a[1])
                os.close(b[0])
                for w in self.ws:
                    os.close(w['to'])
                    os.close(w['fr'])
                fi, fo = os.fdopen(a[0], 'rb'), os.fdopen(b[1], 'wb')
                while True:
                    h = fi.read(8)
                    if len(h) < 8:
                        break
                    case, replay = pickle.loads(fi.read(struct.unpack('<Q', h)[0]))
                    data = pickle.dumps(run_case(self.fns, case, self.root, replay))
                    fo.write(struct.pack('<Q', len(data)) + data)
                    fo.flush()
            finally:
                os._exit(0)
        os.close(a[0])
        os.close(b[1])
        self.ws.append(dict(pid=pid, to=a[1], fr=b[0], busy=None, buf=bytearray()))

    def map(self, jobs, deadline, stop=lambda res: False, order=True):
        """Yield (index, result) as they finish; jobs is an iterator of (case, replay)."""
        it = iter(enumerate(jobs))
        live = 0
        stopped = False
        while True:
            while not stopped and now() < deadline:
                free = [w for w in self.ws if w['busy'] is None]
                if not free:
                    break
                try:
                    i, (case, replay) = next(it)
                except StopIteration:
                    stopped = True
                    break
                w = free[0]
                data = pickle.dumps((case, replay))
                w['busy'] = (i, case)
                live += 1
                os.write(w['to'], struct.pack('<Q', len(data)))
                mv = memoryview(data)
                while mv:
                    mv = mv[os.write(w['to'], mv):]
            if not live:
                return
            if now() >= deadline:
                stopped = True
            rd, _, _ = select.select([w['fr'] for w in self.ws if w['busy']], [], [], 1.0)
            for w in self.ws:
                if w['fr'] in rd:
                    b = os.read(w['fr'], 1 << 20)
                    if not b:
                        raise HarnessError('a worker died while running %s' % json.dumps(w['busy'][1]))
                    w['buf'] += b
                    if len(w['buf']) >= 8:
                        k = struct.unpack('<Q', bytes(w['buf'][:8]))[0]
                        if len(w['buf']) >= 8+k:
                            res = pickle.loads(bytes(w['buf'][8:8+k]))
                            i = w['busy'][0]
                            w['busy'], w['buf'] = None, bytearray()
                            live -= 1
                            if stop(res):
                                stopped = True
                            yield i, res

    def close(self, kill=False):
        for w in self.ws:
            for fd in (w['to'], w['fr']):
                try:
                    os.close(fd)
                except OSError:
                    pass
            try:
                os.killpg(w['pid'], signal.SIGKILL)
            except OSError:
                pass
            try:
                os.kill(w['pid'], signal.SIGKILL)
            except OSError:
                pass
            try:
                os.waitpid(w['pid'], 0)
            except OSError:
                pass
        self.ws = []


# ---------------------------------------------------------------------------------------------
def pack(b):
    return base64.b64encode(zlib.compress(bytes(b), 9)).decode()


def unpack(s):
    return zlib.decompress(base64.b64decode(s))


def shrinks(case):
    """Simpler cases, most radical first."""
    cfg = case.get('cfg', {})

    def but(**kw):
        c = json.loads(json.dumps(case))
        for k, v in kw.items():
            if v is None:
                c.pop(k, None)
            else:
                c[k] = v
        return c

    def cbut(**kw):
        c = json.loads(json.dumps(case))
        for k, v in kw.items():
            if v is None:
                c['cfg'].pop(k, None)
            else:
                c['cfg'][k] = v
        return c
    for k in ('faults', 'jumps', 'crashes', 'then'):
        fs = case.get(k)
        if fs:
            yield but(**{k: []})
            for i in range(len(fs)):
                yield but(**{k: fs[:i]+fs[i+1:]})
    if case.get('clock'):
        yield but(clock=None)
    if case.get('stale'):
        yield but(stale=None)
        for r in case['stale']:
            if len(case['stale']) > 1:
                yield but(stale={q: m for q, m in case['stale'].items() if q != r})
    n = case.get('n', 1)
    for m in (2, 3, 4):
        if m < n:
            yield but(n=m)
    if case.get('policy', 'random') != 'lowest':
        yield but(policy='lowest')
    st = cfg.get('steps')
    if st and st > 1:
        for m in (1, 2, st//2, st-1):
            if 0 < m < st:
                yield cbut(steps=m)
    for m in range(1, cfg.get('M') or 0):
        yield cbut(M=m)
    for k in sorted(cfg):
        if k not in ('solver', 'N', 'L', 'steps', 'conv', 'integ', 'opt', 'M'):
            yield cbut(**{k: None})
    for k in ('src', 'profile'):
        if cfg.get(k):
            yield cbut(**{k: 0})
    if cfg.get('deco') == 'pencil':
        yield cbut(deco='slab')
    if 'N' in cfg:
        yield cbut(N=None, L=None)
        if isinstance(cfg['N'], list) and any(x != 8 for x in cfg['N']):
            yield cbut(N=[8 if len(cfg['N']) == 3 else 16 for _ in cfg['N']])
    if isinstance(cfg.get('L'), list) and any(x != 1 for x in cfg['L']):
        yield cbut(L=None)


def minimise(pool, res, deadline):
    """Greedy: keep the first simpler case (in order) that fails in the same way."""
    best, tried = res, 0
    seen = {json.dumps(res['case'], sort_keys=True)}
    again = True
    while again and now() < deadline:
        again = False
        cand = []
        for c in shrinks(best['case']):
            k = json.dumps(c, sort_keys=True)
            if k not in seen:
                seen.add(k)
                cand.append(c)
        hits = {}
        for i, r in pool.map(((c, None) for c in cand), deadline,
                             stop=lambda r: r['status'] == 'violation' and r['key'] == best['key']):
            tried += 1
            if r['status'] == 'violation' and r['key'] == best['key']:
                hits[i] = r
        if hits:
            best = hits[min(hits)]
            again = True
    # the schedule: the shortest prefix of forced choices, after which ranks run on undisturbed
    traces = [bytes(j['choices']) for j in best['jobs']]
    for k in range(len(traces)):
        lens = sorted({0, 1, 2, 4, 8, 16, 32, 64, len(traces[k])//8, len(traces[k])//4, len(traces[k])//2,
                       3*len(traces[k])//4})
        lens = [m for m in lens if m < len(traces[k])]
        if not lens or now() > deadline:
            continue
        hits = {}
        for i, r in pool.map(((best['case'], traces[:k]+[traces[k][:m]]+traces[k+1:]) for m in lens), deadline):
            tried += 1
            if r['status'] == 'violation' and r['key'] == best['key']:
                hits[i] = r
        if hits:
            i = min(hits)
            traces[k] = traces[k][:lens[i]]
            best = hits[i]
            # what was really executed, for exact replay
    return best, tried, [len(t) for t in traces]


def write_replay(prop, res, forced, seed, tier):
    d = os.path.join(HERE, 'evidence', 'replays')
    os.makedirs(d, exist_ok=True)
    body = dict(property=prop, key=res['key'], message=res['msg'], case=res['case'], verif_seed=seed, tier=tier,
                forced_choices=forced,
                jobs=[dict(n=j['n'], seed=j['seed'], policy=j['policy'], outcome=j['outcome'], events=j['nev'],
                           digest=j['digest'], faults=j['fired'], choices=pack(j['choices']),
                           last_events=j['tail'][-12:]) for j in res['jobs']])
    name = '%s-%s.json' % (prop, hashlib.sha256(json.dumps(body, sort_keys=True).encode()).hexdigest()[:12])
    p = os.path.join(d, name)
    with open(p, 'w') as f:
        json.dump(body, f, indent=1)
    return p


def known(prop):
    """[(match, text)] for the findings listed for prop."""
    p = os.path.join(HERE, 'known_findings.json')
    try:
        with open(p) as f:
            k = json.load(f)
    except OSError:
        return []
    return [x for x in k.get('findings', []) if x['property'] == prop]


def is_known(res, finds):
    for f in finds:
        m = f['match']
        if res['key'] != m['key'] or res['case'].get('fn') != m.get('fn', res['case'].get('fn')):
            continue
        cfg = res['case'].get('cfg', {})
        if all(cfg.get(k) in v for k, v in m.get('cfg', {}).items()) and m.get('text', '') in res['msg']:
            return f
    return None


def merge(tot, s):
    for k in ('jobs', 'multi', 'events', 'sim_s', 'checked', 'steps'):
        tot[k] += s[k]
    for k in ('faults', 'kinds', 'ranks', 'outcomes', 'probes'):
        for a, b in s[k].items():
            tot[k][a] = tot[k].get(a, 0) + b
    tot['ilv'] |= s['ilv']
    tot['dig'] |= s['dig']


def subseed(*a):
    return int(hashlib.sha256(repr(a).encode()).hexdigest()[:8], 16)


def check(prop, tier, seed, mod, fns, tree, root, t_start, workers=8):
    """Run the cases of one property; returns the exit status."""
    quick = tier == 'quick'
    budget = float(os.environ.get('DST_BUDGET', 0)) or getattr(mod, 'BUDGET', {}).get(tier, 240 if quick else 720)
    deadline = t_start + budget
    rng = random.Random('%s-%s' % (prop, seed))
    fixed = mod.cases(tier, seed)
    for i, c in enumerate(fixed):
        c.setdefault('seed', subseed(prop, seed, i))

    def stream():
        for c in fixed:
            yield c, None
        if not quick and hasattr(mod, 'more'):
            i = len(fixed)
            while True:
                c = mod.more(random.Random(subseed(prop, seed, 'more', i)), i)
                c.setdefault('seed', subseed(prop, seed, i))
                yield c, None
                i += 1
    pool = Pool(fns, root, workers)
    finds = known(prop)
    hits = {}
    tot = dict(jobs=0, multi=0, events=0, sim_s=0.0, faults={}, kinds={}, ranks={}, outcomes={}, probes={},
               checked=0, steps=0, ilv=set(), dig=set())
    n, bad, errors, samples, by = 0, [], [], [], {}
    slow = []

    def stop(res):
        if res['status'] == 'error':
            return True
        return res['status'] == 'violation' and not is_known(res, finds)
    try:
        for i, res in pool.map(stream(), deadline, stop):
            n += 1
            merge(tot, res['stats'])
            slow.append((res['wall'], res['case'].get('fn'), json.dumps(res['case'].get('cfg', {}))[:100]))
            k = res['case']['fn']
            by[k] = by.get(k, 0) + 1
            if res['status'] == 'error':
                errors.append(res)
            elif res['status'] == 'violation':
                f = is_known(res, finds)
                if f:
                    hits.setdefault(f['id'], (f, res))
                else:
                    bad.append((i, res))
            elif len(samples) < 4 and (n % 7 == 1):
                samples.append(dict(case=res['case'], jobs=[dict(n=j['n'], outcome=j['outcome'], events=j['nev'],
                                                                digest=j['digest'][:16], faults=j['fired'][:4])
                                                           for j in res['jobs']]))
        status = 0
        for f, res in hits.values():
            print('KNOWN-FINDING: property=%s %s' % (prop, f['what']))
        if bad:
            bad.sort(key=lambda t: t[0])
            i, res = bad[0]
            print('violated by case %d: %s' % (i, res['msg'][:1500]))
            sys.stdout.flush()
            # minimising may take a while, but the answer must come in time
            best, tried, forced = minimise(pool, res, min(now() + (60 if quick else 120), t_start + 800))
            path = write_replay(prop, best, forced, seed, tier)
            print('minimised in %d runs to: %s' % (tried, json.dumps(best['case'], sort_keys=True)))
            print(best['msg'][:2500])
            print('VIOLATION property=%s replay=%s' % (prop, path))
            status = 1
        elif errors:
            print('HARNESS ERROR (no verdict): %s\n%s' % (json.dumps(errors[0]['case']), errors[0]['msg'][-3000:]))
            status = 2
    finally:
        pool.close()
    wall = now() - t_start
    cov = dict(
        evaluations=tot['jobs'],
        distinct_nontrivial=len(tot['ilv']) + sum(1 for _ in ()) if tot['multi'] else len(tot['dig']),
        rule=mod.RULE,
        samples=samples,
        cases=n, cases_by_scenario=by, cases_not_run=max(0, len(fixed)-n),
        comparisons=tot['checked'],
        simulated_runs=tot['jobs'], runs_on_several_ranks=tot['multi'], runs_by_ranks=tot['ranks'],
        run_outcomes=tot['outcomes'],
        runs_per_hour=round(tot['jobs']/max(wall, 1e-9)*3600), seeds_per_hour=round(n/max(wall, 1e-9)*3600),
        simulated_seconds=round(tot['sim_s'], 3), scheduler_events=tot['events'],
        events_by_kind=dict(sorted(tot['kinds'].items(), key=lambda t: -t[1])[:24]),
        faults_injected=tot['faults'], probes=tot['probes'],
        distinct_interleavings=len(tot['ilv']), distinct_executions=len(tot['dig']),
        interleaving_measure='hash of the sequence (rank, kind of operation) of all events of a run on several ranks',
        real_components=getattr(mod, 'REAL', None) or ['spectralDNS (all Python modules and compiled extension modules)', 'shenfun', 'mpi4py-fft with FFTW',
                         'numpy', 'scipy', 'os/file calls outside HDF5 (intercepted, then executed in a scratch folder)'],
        stub_components=getattr(mod, 'STUB', None) or ['MPI library (mpi4py.MPI, in-process)', 'HDF5 (h5py.File, in-process simulated disk)', 'clocks',
                         'cProfile.Profile', 'FFTW planner effort forced to ESTIMATE'],
        known_findings_seen=sorted(hits),
        slowest_cases=[('%.1f' % w, f, c) for w, f, c in sorted(slow)[-3:]],
        violations_found=len(bad), tree=('repo' if tree == '/repo' else 'scratch copy with rebuilt extension modules'),
    )
    ev = dict(property=prop, tier=tier, seed=seed, level=getattr(mod, 'LEVEL', 'exploration'), coverage=cov,
              assumptions=getattr(mod, 'ASSUMES', []) + [
                  'the in-process MPI and HDF5 stand-ins behave as the standards say; real MPI progress threads, '
                  'network loss (MPI is reliable) and HDF5 file-format details are not simulated'],
              wall_s=round(wall, 2), violations=len(bad))
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', prop+'.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    print('%s %s: %d cases, %d runs (%d on several ranks), %d interleavings, %d comparisons, %.1f s'
          % (prop, tier, n, tot['jobs'], tot['multi'], len(tot['ilv']), tot['checked'], wall))
    return status


def replay(path, load, tree, root):
    with open(path) as f:
        b = json.load(f)
    mod, fns = load(b['property'])
    res = run_case(fns, b['case'], root, [unpack(j['choices']) for j in b['jobs']])
    print('status=%s key=%s\n%s' % (res['status'], res['key'], res['msg']))
    if res['status'] == 'error':
        return 2
    if res['status'] != 'violation':
        print('not reproduced: the property holds on this execution now')
        return 0
    same = res['msg'] == b['message'] and [j['digest'] for j in res['jobs']] == [j['digest'] for j in b['jobs']]
    print('replayed exactly' if same else 'violated, but not by exactly the recorded execution (the code differs)')
    print('VIOLATION property=%s replay=%s' % (b['property'], path))
    return 1
