"""C01: the flow does not depend on the number of ranks, the decomposition or message timing."""
import random

from dst import gen, sim
from .common import *

RULE = ('A case is a random run configuration (solver, convection form, integrator, dealiasing, mesh, physical parameters, '
        'body force) run once on one rank and once on several ranks under a seeded scheduler; the states after every step '
        'are compared.  Non-trivial: runs on several ranks with a distinct interleaving.')


def layout(ctx, case):
    cfg, n = case['cfg'], case['n']
    a = run(ctx, cfg, 1)
    finite(ctx, a['snaps'], 'one rank')
    b = run(ctx, cfg, n)
    compare(ctx, sim.gather_start(a['ret']), sim.gather_start(b['ret']), tol(cfg),
            'initial state on %s' % describe(cfg, n), key='start')
    same_states(ctx, a['snaps'], b['snaps'], tol(cfg), 'on %s' % describe(cfg, n))
    for r, q in enumerate(b['ret']):
        if q['end'] != b['ret'][0]['end']:
            ctx.fail('end', 'rank %d ends at (step, t, dt) = %s, rank 0 at %s' % (r, q['end'], b['ret'][0]['end']))


FNS = dict(layout=layout)


def cases(tier, seed):
    out = []
    rng = random.Random('C01-%s' % seed)
    k = 0
    for s in sim.ALL:
        forms = [(s, cv) for cv in sim.convections(s)]
        if s not in sim.CHANNEL:
            forms = [(s, cv) for cv in sim.convections(s) for _ in range(2 if s == 'NS' else 4)]
        elif len(forms) == 1:
            forms = forms*2
        for s_, cv in forms:
            k += 1
            cfg = gen.config(rng, s, conv=cv, dealias=gen.DEALIAS[k % 3], steps=2 if s in sim.CHANNEL else 3,
                             precision='single' if s not in sim.CHANNEL and k % 9 == 5 else 'double')
            if s not in sim.CHANNEL:
                cfg['integ'] = gen.INTEGRATORS[k % 5]
            if s not in sim.DOUBLY:
                cfg['deco'] = ['slab', 'pencil'][k % 2]
            n = gen.ranks(rng, cfg)
            out.append(dict(fn='layout', cfg=cfg, n=n, policy=gen.policy(rng)))
    rng = random.Random('C01-long-%s' % seed)
    for s in gen.LONG[:6]:
        cfg = gen.lengthen(rng, gen.config(rng, s))
        out.append(dict(fn='layout', cfg=cfg, n=gen.ranks(rng, cfg), policy=gen.policy(rng)))
    return out


def more(rng, i):
    cfg = gen.config(rng)
    return dict(fn='layout', cfg=cfg, n=gen.ranks(rng, cfg, 8), policy=gen.policy(rng))
