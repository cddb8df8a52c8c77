"""C03: a restart from a checkpoint continues the same trajectory, on any layout."""
import random

from dst import gen, sim
from .common import *

RULE = ('A case runs a random configuration with a checkpoint on the way, kills nothing, and then continues from a copy of the '
        'checkpoint file in a new job with another number of ranks and another decomposition (and again from a checkpoint of '
        'that job); every later state is compared with the uninterrupted run.  Integrators that need previous steps which are '
        'not saved (AB2) or a previous step size (BS5_adaptive) are compared with a new run from the saved fields.')


def ckfile(res, cfg):
    return os.path.join(res['dir'], cfg.get('name', 'results')+'_c.h5')


def need(ctx, path, what):
    if not os.path.exists(path):
        ctx.fail('no-checkpoint', '%s: no checkpoint file %s' % (what, os.path.basename(path)))


def restart(ctx, case):
    cfg = case['cfg']
    c = sim.full(cfg)
    own = c['integ'] in ('AB2', 'BS5_adaptive')
    a = run(ctx, cfg, case['n'])
    finite(ctx, a['snaps'], 'uninterrupted run')
    ref = {s[0]: s for s in a['snaps']}
    prev, pcfg = a, cfg
    for g, (n, deco) in enumerate(case['then']):
        what = 'restart %d on %d ranks (%s) of %s' % (g+1, n, deco, describe(cfg, case['n']))
        need(ctx, ckfile(prev, pcfg), what)
        d = ctx.newdir()
        shutil.copy(ckfile(prev, pcfg), os.path.join(d, 'restart.h5'))
        cp = max(k for k in ref if k % pcfg['ckpt'] == 0)
        rc = dict(cfg, deco=deco, restart='restart.h5')
        b = run(ctx, rc, n, what=what, d=d)
        st, t, _ = b['ret'][0]['start']
        if st != cp or abs(t-ref[cp][1]) > 1e-9:
            ctx.fail('position', '%s: continues at step %d, time %r instead of step %d, time %r'
                     % (what, st, t, cp, ref[cp][1]))
        if own:
            d = ctx.newdir()
            shutil.copy(ckfile(prev, pcfg), os.path.join(d, 'restart.h5'))
            nw = run(ctx, dict(rc, as_new=True, T=c.get('T', c['dt']*c['steps'])-t), 1, d=d,
                     what='new run from the saved fields')
            want = [(s[0]+cp, s[1]+t, s[2], s[3]) for s in nw['snaps']]
        else:
            want = [s for s in a['snaps'] if s[0] > cp]
            compare(ctx, {k: v for k, v in ref[cp][3].items() if k != 'g'},
                    {k: v for k, v in sim.gather_start(b['ret']).items() if k != 'g'}, tol(cfg), what, key='restored')
        same_states(ctx, want, b['snaps'], case.get('slack', 1)*tol(cfg), what)
        ctx.probe('restarts')
        prev, pcfg = b, rc
        if own:
            break
        if not [s for s in b['snaps'] if s[0] % cfg['ckpt'] == 0]:
            break


FNS = dict(restart=restart)


def one(rng, s, long=False, **fix):
    cfg = gen.config(rng, s, **fix)
    steps = cfg['steps'] = rng.choice([3, 4, 5]) if s in sim.TRIPLY+sim.DOUBLY else rng.choice([3, 4])
    cfg['ckpt'] = rng.randrange(1, steps)
    if steps % cfg['ckpt'] == 0 and cfg['ckpt'] != 1:
        cfg['steps'] += 1
    if cfg['ckpt'] == 1:
        cfg['ckpt'] = 2
        cfg['steps'] = 3
    if cfg['integ'] == 'BS5_adaptive':
        cfg.update(TOL=1e-4, ckpt=2, steps=5)
    if long:
        gen.lengthen(rng, cfg)
    if rng.random() < 0.4:
        cfg['write'] = 1
    if rng.random() < 0.3 and cfg['integ'] not in ('AB2', 'BS5_adaptive'):
        # the run itself does not start at zero
        cfg['tstep'] = cfg['ckpt']*rng.choice([50, 499, 33333])
        cfg['t'] = rng.choice([0.0, 1.0, 20.0])
        cfg['T'] = cfg['t']+sim.full(cfg)['dt']*cfg['steps']
    n = rng.choice([1, gen.ranks(rng, cfg)])
    then = []
    for _ in range(rng.choice([1, 1, 2])):
        deco = rng.choice(['slab', 'pencil']) if s not in sim.DOUBLY else 'slab'
        then.append([rng.choice([1, gen.ranks(rng, dict(cfg, deco=deco)), gen.ranks(rng, dict(cfg, deco=deco))]), deco])
    return dict(fn='restart', cfg=cfg, n=n, then=then, policy=gen.policy(rng))


def cases(tier, seed):
    rng = random.Random('C03-%s' % seed)
    out = []
    for k in range(5):
        for s in sim.ALL:
            fix = {}
            if s not in sim.CHANNEL:
                fix['integ'] = gen.INTEGRATORS[(k+len(s)) % 5]
            if s in ('Coupled', 'CoupledRK3') and k > 1:
                continue
            cv = sim.convections(s)
            fix['conv'] = cv[k % len(cv)]
            out.append(one(rng, s, **fix))
    rng = random.Random('C03-long-%s' % seed)
    return out + [one(rng, s, True) for s in gen.LONG[:8]]


def more(rng, i):
    return one(rng, rng.choice(sim.ALL))
