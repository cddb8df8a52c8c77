"""C09: the distributed periodic solvers refine a simple sequential model of their equations."""
import random

import refmodel
from dst import gen, sim
from .common import *

RULE = ('A case runs a random configuration of a periodic solver on a random number of ranks under a seeded scheduler, and after '
        'every step compares the gathered global state with that of an independent sequential model (numpy, refmodel.py) which '
        'takes the same step.')


def refine(ctx, case):
    cfg, n = case['cfg'], case['n']
    c = sim.full(cfg)
    res = run(ctx, cfg, n)
    m, u = refmodel.initial(c)
    key = refmodel.name(c)
    lim = tol(cfg)
    what = describe(cfg, n)
    compare(ctx, {key: u}, sim.gather_start(res['ret']), lim, 'initial state on ' + what, key='start')
    step = m.stepper()
    for st, t, dt, g in res['snaps']:
        u = step(u, took(res, st))
        compare(ctx, {key: u}, g, lim, 'after step %d of %s' % (st, what))
    ctx.stats['probes']['model_rhs'] = ctx.stats['probes'].get('model_rhs', 0) + m.evals


def took(res, st):
    """The size of step st: the difference of consecutive times."""
    ts = [res['ret'][0]['start'][1]] + [s[1] for s in res['snaps']]
    i = [s[0] for s in res['snaps']].index(st)
    return ts[i+1]-ts[i]


FNS = dict(refine=refine)


def one(rng, s, k):
    cfg = gen.config(rng, s, integ=['RK4', 'ForwardEuler', 'AB2', 'BS5_fixed'][k % 4], dealias=gen.DEALIAS[(k//4) % 3])
    cv = sim.convections(s)
    cfg['conv'] = cv[(k//2) % len(cv)]
    if k % 11 == 7:
        cfg.update(precision='single', mask=False, dt=0.01)
    cfg['slope'] = rng.choice([2.0, 2.0, 0.5, 1.0])
    if s == 'Bq2D' or rng.random() < 0.3:
        cfg['nu'] = rng.choice([0.003, 0.02, 0.1])
    # inviscid, perfectly conducting, unstably and not stratified fluids
    if k % 7 == 3:
        cfg['nu'] = 0.0
    if s == 'MHD' and k % 5 == 4:
        cfg['eta'] = 0.0
    if s == 'Bq2D' and k % 5 == 2:
        cfg['Ri'] = rng.choice([-0.4, -1.3, 0.0])
    if rng.random() < 0.3:
        cfg['T'] = cfg['dt']*(cfg['steps']-rng.choice([0.5, 0.1, 0.9]))    # the last step is shorter
    return dict(fn='refine', cfg=cfg, n=rng.choice([1, gen.ranks(rng, cfg), gen.ranks(rng, cfg)]), policy=gen.policy(rng))


def cases(tier, seed):
    rng = random.Random('C09-%s' % seed)
    out = []
    for k in range(24):
        for s in sim.TRIPLY+sim.DOUBLY:
            if k < 24 if s == 'NS' else k < 14:
                out.append(one(rng, s, k))
    rng = random.Random('C09-long-%s' % seed)
    for k, s in enumerate(sim.TRIPLY+sim.DOUBLY):
        out.append(one(rng, s, 4*k+rng.randrange(4)))
        gen.lengthen(rng, out[-1]['cfg'])
        out[-1]['cfg'].pop('T', None)
        out[-1]['n'] = gen.ranks(rng, out[-1]['cfg'])
    return out


def more(rng, i):
    return one(rng, rng.choice(sim.TRIPLY+sim.DOUBLY), rng.randrange(1000))
