"""C19: the distributed channel solvers refine a sequential dense Galerkin model of their equations."""
import random

import chanmodel
from dst import gen, sim
from .common import *

RULE = ('A case runs a random configuration of a channel solver on several ranks under a seeded scheduler, and after every step '
        'compares the gathered global state with that of an independent sequential model (dense systems per Fourier mode, '
        'chanmodel.py) which takes the same step.')


def refine(ctx, case):
    cfg, n = case['cfg'], case['n']
    c = sim.full(cfg)
    res = run(ctx, cfg, n)
    lim = 1e-8
    what = describe(cfg, n)
    m = chanmodel.Run(c, sim.gather_start(res['ret']))
    names = ['U_hat'] + (['g'] if m.g is not None else []) + (['phi_hat'] if m.phi is not None else [])
    for st, t, dt, g in res['snaps']:
        m.step(c['dt'])
        h = m.state()
        got = {k: g[k] for k in names}
        compare(ctx, h, got, lim, 'after step %d of %s' % (st, what), names=names)
    ctx.stats['probes']['model_rhs'] = ctx.stats['probes'].get('model_rhs', 0) + m.m.evals


FNS = dict(refine=refine)


def one(rng, s, k):
    cv = sim.convections(s)
    cfg = gen.config(rng, s, conv=cv[k % len(cv)], dealias=gen.DEALIAS[(k//2) % 3], quad=['GC', 'GL', 'GC'][(k//3) % 3], mask=True,
                     deco=['slab', 'pencil', 'slab'][k % 3])
    cfg['steps'] = rng.choice([2, 3]) if 'RK3' in s else rng.choice([3, 4])
    if rng.random() < 0.4:
        cfg['nu'] = rng.choice([0.005, 0.1, 1.0, 4e-4])
    if 'RB' in s:
        cfg['kappa'] = rng.choice([0.04, 0.01, 0.2])
    if rng.random() < 0.3:
        cfg['dt'] = rng.choice([0.001, 0.02])
    return dict(fn='refine', cfg=cfg, n=rng.choice([1, gen.ranks(rng, cfg), gen.ranks(rng, cfg)]), policy=gen.policy(rng))


def cases(tier, seed):
    rng = random.Random('C19-%s' % seed)
    out = []
    for k in range(18):
        for s in sim.CHANNEL:
            if k < {'KMM': 18, 'KMMRK3': 14, 'KMM_RB': 14, 'KMMRK3_RB': 14}.get(s, 10):
                out.append(one(rng, s, k))
    return out


def more(rng, i):
    return one(rng, rng.choice(sim.CHANNEL), rng.randrange(1000))
