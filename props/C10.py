"""C10: optimised kernels change speed, never the flow, on any process layout."""
import random

from dst import gen, sim
from .common import *

RULE = ('A case runs a random configuration on several ranks twice, with plain NumPy and with a compiled implementation (Cython, '
        'Numba, Pythran; single and double precision), whose kernels then see the local array shapes of that layout, and '
        'compares the gathered states after every step and the derived fields at the end.  Some runs consist of several calls of '
        'solve().')


def optimised(ctx, case):
    cfg, n = case['cfg'], case['n']
    plain = dict(cfg)
    opt = plain.pop('opt')
    plain['opt'] = ''
    a = run(ctx, plain, n)
    finite(ctx, a['snaps'], 'NumPy')
    b = run(ctx, cfg, n)
    what = '%s instead of NumPy on %s' % (opt, describe(cfg, n))
    lim = tol(cfg)
    if cfg.get('precision') != 'single' and 'Coupled' not in cfg['solver']:
        lim = 1e-11         # nothing but the order of operations may differ
    compare(ctx, sim.gather_start(a['ret']), sim.gather_start(b['ret']), lim, 'initial state: '+what, key='start')
    same_states(ctx, a['snaps'], b['snaps'], lim, what)
    if cfg.get('diag'):
        x, y = sim.gather_dict(a['ret'], 'final'), sim.gather_dict(b['ret'], 'final')
        scale = np.abs(x['U' if 'U' in x else sorted(x)[0]]).max()
        for k in x:
            if k == 'div':
                if not np.abs(y[k]).max() <= 1e3*lim*scale:
                    ctx.fail('derived', '%s: divergence %.3g' % (what, np.abs(y[k]).max()))
            else:
                compare(ctx, {k: x[k]}, {k: y[k]}, 10*lim, what, key='derived')
    for i in range(n):
        if a['ret'][i]['end'][0] != b['ret'][i]['end'][0]:
            ctx.fail('end', '%s: rank %d ends at %s instead of %s' % (what, i, b['ret'][i]['end'], a['ret'][i]['end']))
    ctx.probe(opt+'_'+cfg.get('precision', 'double'))


FNS = dict(optimised=optimised)
SINGLE = sim.TRIPLY+sim.DOUBLY


def one(rng, s, opt, k):
    cfg = gen.config(rng, s, opt=opt)
    cv = sim.convections(s)
    cfg['conv'] = cv[k % len(cv)]
    if s not in sim.CHANNEL:
        cfg['integ'] = ['RK4', 'AB2', 'ForwardEuler', 'BS5_fixed'][k % 4]
        if rng.random() < 0.3:
            cfg['T'] = cfg['dt']*(cfg['steps']-0.5)
        if k % 3 == 2:
            cfg.update(precision='single', mask=False, dt=0.01)
    if s not in sim.CHANNEL and rng.random() < 0.4:     # kernels see the parameters, not only the state
        cfg['nu'] = rng.choice([0.0, 2e-6, 0.3])
    if cfg.get('integ') == 'AB2' and rng.random() < 0.3 and not cfg.get('T'):
        cfg['steps'] = rng.choice([7, 9])
    if s == 'Bq2D':
        cfg['Pr'], cfg['Ri'] = rng.choice([0.7, 0.02, 7.0, 0.2]), rng.choice([0.3, -0.4, 0.0, 2.0])
    if not cfg.get('T') and (cfg['integ'] == 'AB2' or rng.random() < 0.25):
        # several calls: integrators start afresh, with steps already counted
        cut = rng.randrange(1, cfg['steps'])
        cfg['segments'] = [cut*cfg['dt'], cfg['steps']*cfg['dt']]
    if rng.random() < 0.5 and not (s in sim.CHANNEL and cfg['conv'] != 'Vortex'):
        cfg['diag'] = True
    return dict(fn='optimised', cfg=cfg, n=rng.choice([1, gen.ranks(rng, cfg), gen.ranks(rng, cfg)]), policy=gen.policy(rng))


def cases(tier, seed):
    rng = random.Random('C10-%s' % seed)
    out = []
    for opt, m in (('cython', 12), ('pythran', 4), ('numba', 3)):
        for s in sim.ALL:
            for k in range(m):
                if s in sim.CHANNEL and k >= max(2, m//2):
                    continue
                out.append(one(rng, s, opt, k+(rng.randrange(12) if m < 12 else 0)))
    return out


def more(rng, i):
    return one(rng, rng.choice(sim.ALL), rng.choice(['cython', 'cython', 'cython', 'pythran', 'numba']), rng.randrange(100))
