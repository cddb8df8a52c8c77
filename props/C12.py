"""C12: uninitialised or recycled memory never influences a result, nor does looking at derived fields."""
import random

from dst import gen, sim
from .common import *
from . import C06

RULE = ('A case runs the same configuration with the same schedule several times: with fresh memory full of NaN, full of other '
        'values (also inside malloc), and with a user who computes all derived fields after every step; states, files and '
        'derived fields must be the same.  Faults: hostile contents of fresh memory.')


def files(res, c):
    out = {}
    for k in ('_w', '_c'):
        p = os.path.join(res['dir'], c['name']+k+'.h5')
        if os.path.exists(p):
            f = fakeh5.read_file(p)
            out.update({k+a: v for a, v in f.items() if isinstance(v, np.ndarray) and v.dtype.kind in 'fc'})
            out.update({k+a: np.array([float(v)]) for a, v in f.items() if a in ('@t', '@tstep')})
    return out


def memory(ctx, case):
    cfg, n = case['cfg'], case['n']
    c = sim.full(cfg)
    what = describe(cfg, n)
    a = run(ctx, cfg, n)
    finite(ctx, a['snaps'], 'fresh memory holds NaN: '+what)
    fa = files(a, c)
    for k, v in fa.items():
        ctx.checked()
        if not np.isfinite(v).all():
            ctx.fail('file-nan', '%s: fresh memory that holds NaN reaches %s of the files' % (what, k))
    da = sim.gather_dict(a['ret'], 'final') if cfg.get('diag') else {}
    for k, v in da.items():
        if not np.isfinite(v).all():
            ctx.fail('derived-nan', '%s: fresh memory that holds NaN reaches the derived field %s' % (what, k))
    ea = [q.get('extras', {}) for q in a['ret']]
    for r, e in enumerate(ea):
        for k, v in e.items():
            if not np.isfinite(v).all():
                ctx.fail('derived-nan', '%s: fresh memory that holds NaN reaches what rank %d gets for %s' % (what, r, k))
    for poison, perturb in case['memory']:
        w = 'with fresh memory holding %r/%d instead of NaN, %s' % (poison, perturb, what)
        b = run(ctx, cfg, n, poison=poison, perturb=perturb, what=w)
        for q in range(n):
            if [s[:3] for s in a['ret'][q]['snaps']] != [s[:3] for s in b['ret'][q]['snaps']]:
                ctx.fail('times', '%s: the course of the run differs' % w)
        same_states(ctx, a['snaps'], b['snaps'], 1e-14, w)
        fb = files(b, c)
        if sorted(fa) != sorted(fb):
            ctx.fail('files', '%s: the files differ in %s' % (w, sorted(set(fa) ^ set(fb))[:5]))
        for k in fa:
            compare(ctx, {k: fa[k]}, {k: fb[k]}, 1e-14, w + ': file', key='file')
        if da:
            scale = max(np.abs(v).max() for k, v in da.items() if k != 'div')
            db = sim.gather_dict(b['ret'], 'final')
            for k in da:
                if k == 'div':
                    if not np.abs(da[k]-db[k]).max() <= 1e-12*scale:
                        ctx.fail('derived', '%s: divergence differs' % w)
                else:
                    compare(ctx, {k: da[k]}, {k: db[k]}, 1e-13, w + ': derived field', key='derived')
        for r, e in enumerate(ea):
            for k, v in e.items():
                ctx.checked()
                x = b['ret'][r]['extras'][k]
                if not np.abs(v-x).max(initial=0) <= 1e-13*max(np.abs(v).max(initial=0), np.abs(x).max(initial=0)):
                    ctx.fail('derived', '%s: what rank %d gets for %s differs' % (w, r, k))
        ctx.probe('poisoned')
        ctx.stats['faults']['poisoned_memory'] = ctx.stats['faults'].get('poisoned_memory', 0)+1
    for look in case.get('look') or ():
        w = ('with a user who looks at derived fields after every step, ' if look == 'look' else
             'with work arrays recycled for other things between steps, ') + what
        b = run(ctx, dict(cfg, touch=look), n, what=w)
        same_states(ctx, a['snaps'], b['snaps'], 1e-12 if c['precision'] == 'double' else 1e-5, w)
        fb = files(b, c)
        if sorted(fa) != sorted(fb):
            ctx.fail('files', '%s: the files differ in %s' % (w, sorted(set(fa) ^ set(fb))[:5]))
        for k in fa:
            compare(ctx, {k: fa[k]}, {k: fb[k]}, 1e-12 if c['precision'] == 'double' else 1e-5, w + ': file', key='look-file')
        ctx.probe(look)


FNS = dict(memory=memory)


def one(rng, s, k):
    cfg = gen.config(rng, s)
    cv = sim.convections(s)
    cfg['conv'] = cv[k % len(cv)]
    if s not in sim.CHANNEL:
        cfg['integ'] = gen.INTEGRATORS[k % 5]
        if cfg['integ'] == 'BS5_adaptive':
            cfg.update(TOL=1e-5, dt=rng.choice([0.01, 0.2]), T=0.25)
        if rng.random() < 0.2:
            cfg.update(precision='single', mask=False)
        if rng.random() < 0.3:
            cfg['opt'] = rng.choice(['cython', 'cython', 'pythran'])
    elif rng.random() < 0.3:
        cfg['opt'] = 'cython'
    cfg['steps'] = 3 if 'Coupled' not in s else 2
    cfg['write'] = rng.choice([1, 2])
    cfg['ckpt'] = rng.choice([1, 2])
    cfg['diag'] = cfg['extras'] = True
    return dict(fn='memory', cfg=cfg, n=rng.choice([1, gen.ranks(rng, cfg)]), policy=gen.policy(rng), look=rng.choice([['look'], ['scramble'], ['look', 'scramble']]),
                memory=[[rng.choice([0.0, 1e3, -7.5, 1e-3]), rng.choice([0, 0x55, 0xfe])]])


def cases(tier, seed):
    rng = random.Random('C12-%s' % seed)
    return [one(rng, sim.ALL[k % 12], k//12) for k in range(84) if k < 36 or 'Coupled' not in sim.ALL[k % 12]]


def more(rng, i):
    return one(rng, rng.choice(sim.ALL), rng.randrange(100))
