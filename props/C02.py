"""C02: processes stay in lockstep: the same collectives, the same step, no deadlock, no race of messages."""
import random

from dst import gen, sim
from .common import *

RULE = ('A case runs one random configuration on several ranks under a seeded scheduler, with results, checkpoints, profiling, '
        'a stop request placed at a random event, an early end asked for by the user, zero steps or adaptive steps.  The '
        'simulated MPI and HDF5 libraries stop the run at the first collective that differs between ranks, at a deadlock and '
        'at an operation bound; afterwards the recorded (step, time, dt) of all ranks are compared.')


def lockstep(ctx, case):
    cfg, n = case['cfg'], case['n']
    what = describe(cfg, n)
    kw = {}
    if case.get('kill') is not None:
        # find where ranks look for the file, then let it appear near one of those events
        dry = ctx.job(cfg, n)
        ctx.finished(dry, 'run on %s' % what)
        look = [m[0] for m in dry['marks'] if m[2].startswith('fs.')] or [dry['nev']//2]
        rng = random.Random(subseed(case, 'kill'))
        i = int(case['kill']*len(look))
        at = max(1, look[min(i, len(look)-1)] + rng.randrange(-3, 4))
        kw['at_event'] = [(at, ('killfile', case.get('killname', 'killspectraldns')))]
    if case.get('clock'):
        kw['clock'] = case['clock']
    res = ctx.job(cfg, n, profile_names=case.get('names'), **kw)
    if res['outcome'] != 'finished':
        ctx.finished(res, 'run on %s' % what)
    # all ranks end the same way
    if len(set(map(str, res['exits']))) != 1:
        ctx.fail('exit', 'run on %s: exit status by rank: %s' % (what, res['exits']))
    if res['exits'][0] is not None and not (kw and res['exits'][0] == 1):
        ctx.fail('exit', 'run on %s: all ranks end with status %r' % (what, res['exits'][0]))
    hist = {r: [] for r in range(n)}
    for o in res['obs']:
        hist[o[0]].append(o[1:])
    for r in range(n):
        ctx.checked()
        if hist[r] != hist[0]:
            i = next((k for k in range(min(len(hist[r]), len(hist[0]))) if hist[r][k] != hist[0][k]),
                     min(len(hist[r]), len(hist[0])))
            ctx.fail('history', 'run on %s: steps of rank %d and rank 0 part at step %d: %s and %s'
                     % (what, r, i+1, hist[r][i:i+1], hist[0][i:i+1]))
    if res['exits'][0] is None:
        ends = [q['end'] for q in res['ret']]
        if len(set(ends)) != 1:
            ctx.fail('end', 'run on %s: (step, t, dt) at the end by rank: %s' % (what, ends))
        calls = [q['calls'][-1] for q in res['ret']]
        if any(c[0] != 'regression_test' for c in calls):
            ctx.fail('final', 'run on %s: last call by rank: %s' % (what, calls))
    else:
        ctx.probe('stopped')


FNS = dict(lockstep=lockstep)
NAMES = ['fft', 'RK4', 'ForwardEuler', 'AB2', 'adaptiveRK', 'add_linear', 'cross1', 'cross2', 'compute_curl', 'Cross',
         'ComputeRHS', 'solve_linear', 'Conv', "<method 'Alltoallw' of 'mpi4py.MPI.Comm' objects>", 'forward.rfftn']


def one(rng, k, seed, long=False):
    s = sim.ALL[k % len(sim.ALL)]
    cfg = gen.config(rng, s)
    cfg['every'] = 10**9
    kind = ['plain', 'out', 'ckpt', 'profile', 'kill', 'early', 'zero', 'kill', 'all'][k % 9]
    if s not in sim.CHANNEL:
        cfg['steps'] = 3
        if long:
            gen.lengthen(rng, cfg)
        if k % 4 == 1:
            cfg.update(integ='BS5_adaptive', TOL=rng.choice([1e-3, 1e-5, 1e-7]), dt=0.02)
    case = dict(fn='lockstep', cfg=cfg, n=gen.ranks(rng, cfg), policy=gen.policy(rng))
    if rng.random() < 0.4:
        case['clock'] = gen.clock(rng, case['n'], cfg['steps'])
    if kind in ('out', 'all'):
        cfg['write'] = rng.choice([1, 2])
    if kind in ('ckpt', 'all'):
        cfg['ckpt'] = rng.choice([1, 2])
    if kind in ('profile', 'all'):
        cfg['profile'] = 1
        case['names'] = rng.sample(NAMES, rng.randrange(1, 9))
    if kind in ('kill', 'all'):
        case['kill'] = round(rng.random(), 4)
        if rng.random() < 0.2:
            case['killname'] = rng.choice(['killspectraldns.txt', 'Killspectraldns', 'xkillspectraldns'])
    if kind == 'early':
        cfg['end_at'] = rng.choice([1, 2])
    if kind == 'zero':
        cfg['T'] = 0.0 if k % 2 else cfg.get('dt', 0.005)*0.5
    return case


def cases(tier, seed):
    rng = random.Random('C02-%s' % seed)
    out = [one(rng, k, seed) for k in range(63)]
    rng = random.Random('C02-long-%s' % seed)
    return out+[one(rng, k, seed, True) for k in (13, 16, 19, 26)]


def more(rng, i):
    return one(rng, i, rng.random())
