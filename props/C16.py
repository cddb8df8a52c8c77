"""C16: disk failures are never reported as success and never damage older data."""
import random

from .common import *
from . import C04, C12

RULE = ('error: a random configuration that writes results and checkpoints runs once undisturbed, then again for seeded disk '
        'operations (open, write, close, rename of a data file, on any rank), each failing with an I/O error or a full disk. Every '
        'such run has to end with an error, the checkpoint left on disk has to be a finished one, and a run that continues from '
        'it has to reach the states of the undisturbed run.  restart: reading the checkpoint fails.  slow: any operations take '
        'seconds; states and files must be those of the undisturbed run.')
BUDGET = dict(quick=150)
OPS = ('open', 'write', 'close', 'rename', 'replace', 'read', 'copyfile')


def eligible(res, name='results'):
    return [(op, k, f) for op, k, f in res['disk'] if op in OPS and f.startswith(name)]


def choose(el, frac):
    """One of the operations; every other time one of each kind of operation is as likely as that of another kind."""
    if int(frac*1e5) % 2:
        kinds = sorted({x[0] for x in el})
        kind = kinds[min(int(frac*len(kinds)), len(kinds)-1)]
        el, frac = [x for x in el if x[0] == kind], frac*len(kinds) % 1
    return el[min(int(frac*len(el)), len(el)-1)]


def ended_in_error(ctx, res, what):
    """The user learns of the failure: not every process ended as if all were well."""
    if res['outcome'] == 'exception':
        return
    if res['outcome'] == 'finished' and any(e not in (None, 0) for e in res['exits']):
        return
    if res['outcome'] == 'finished':
        ctx.fail('success', '%s: the run ended as if nothing had happened' % what)
    ctx.finished(res, what)


def error(ctx, case):
    cfg, n = case['cfg'], case['n']
    c = sim.full(cfg)
    lim = tol(cfg)
    ref = run(ctx, cfg, 1)
    want = checkpoints(ref, c)
    states = {s[0]: s for s in ref['snaps']}
    cks = [k for k in want if k % c['ckpt'] == 0]
    dry = ctx.job(cfg, n)
    ctx.finished(dry, 'run on %s' % describe(cfg, n))
    el = eligible(dry, cfg.get('name', 'results'))
    if not el:
        return
    for q, (kind, frac, then) in enumerate(case['then']):
        op, k, f = choose(el, frac)
        d = ctx.newdir()
        what = '%s in %s number %d (of %s), %s' % (kind, op, k, f, describe(cfg, n))
        res = ctx.job(cfg, n, d=d, faults=[dict(kind=kind, op=op, k=k)])
        if not any(x[0] == kind for x in res['fired']):
            continue
        ctx.checked()
        ctx.probe('%s_%s' % (kind, op))
        ended_in_error(ctx, res, what)
        al = C04.allowed({None}, res, n, cks)
        have = check_checkpoint(ctx, os.path.join(d, cfg.get('name', 'results')+'_c.h5'), want, al, lim, 'after '+what)
        if have is None or have == c['steps'] or not then:
            continue
        ctx.probe('continued_after_error')
        rc = dict(cfg, restart=cfg.get('name', 'results')+'_c.h5', mode='w')
        fin = run(ctx, rc, then, d=d, what='run after %s' % what)
        if c['integ'] not in ('AB2', 'BS5_adaptive'):
            same_states(ctx, [states[k] for k in sorted(states) if k > have], fin['snaps'], lim, 'continued after %s' % what)


def second(ctx, case):
    """A run continues from a checkpoint in the same folder, and the disk fails then."""
    cfg, n = case['cfg'], case['n']
    c = sim.full(cfg)
    lim = tol(cfg)
    ref = run(ctx, cfg, 1)
    want = checkpoints(ref, c)
    cks = [k for k in want if k % c['ckpt'] == 0]
    stop = case['at']
    d = ctx.newdir()
    first = run(ctx, dict(cfg, T=c['dt']*stop), n, d=d)
    last = [k for k in cks if k <= stop]
    if not last:
        return
    have = check_checkpoint(ctx, os.path.join(d, cfg.get('name', 'results')+'_c.h5'), want, {last[-1]}, lim, 'first part of %s' % describe(cfg, n))
    rc = dict(cfg, restart=cfg.get('name', 'results')+'_c.h5', mode=case.get('mode', 'w'))

    def again(**kw):
        e = ctx.newdir()
        for x in os.listdir(d):
            shutil.copy(os.path.join(d, x), e)
        return e, ctx.job(rc, n, d=e, **kw)
    e, dry = again()
    ctx.finished(dry, 'continued run on %s' % describe(rc, n))
    el = eligible(dry, cfg.get('name', 'results'))
    for kind, frac, _ in case['then']:
        op, k, f = choose(el, frac)
        what = '%s in %s number %d (of %s) of the run continued from step %d, %s' % (kind, op, k, f, have, describe(rc, n))
        e, res = again(faults=[dict(kind=kind, op=op, k=k)])
        if not any(x[0] == kind for x in res['fired']):
            continue
        ctx.checked()
        ctx.probe('%s_%s' % (kind, op))
        ended_in_error(ctx, res, what)
        al = C04.allowed({have}, res, n, [k for k in cks if k > have])
        check_checkpoint(ctx, os.path.join(e, cfg.get('name', 'results')+'_c.h5'), want, al, lim, 'after '+what)


def slow(ctx, case):
    cfg, n = case['cfg'], case['n']
    c = sim.full(cfg)
    what = 'slow disk, %s' % describe(cfg, n)
    a = run(ctx, cfg, n)
    b = run(ctx, cfg, n, faults=[dict(kind='slow_disk', op=op, k=k) for op, k in case['slow']], what=what)
    same_states(ctx, a['snaps'], b['snaps'], 1e-13, what)
    fa, fb = C12.files(a, c), C12.files(b, c)
    if sorted(fa) != sorted(fb):
        ctx.fail('files', '%s: the files differ in %s' % (what, sorted(set(fa) ^ set(fb))[:5]))
    for k in fa:
        compare(ctx, {k: fa[k]}, {k: fb[k]}, 1e-13, what + ': file', key='file')
    if sorted(map(str, a['obs'])) != sorted(map(str, b['obs'])):
        ctx.fail('course', '%s: the course of the run differs' % what)


FNS = dict(error=error, second=second, slow=slow)


def one(rng, fn, s, deep, long=False):
    fix = dict(integ='implicit' if s in sim.CHANNEL else rng.choice(['RK4', 'ForwardEuler', 'BS5_fixed']))
    cfg = gen.config(rng, s, N=gen.mesh(rng, s, True), conv=sim.convections(s)[0], **fix)
    cfg['steps'] = rng.choice([2, 3, 4]) if s not in ('Coupled', 'CoupledRK3') else 2
    cfg['ckpt'] = rng.choice([1, 1, 2])
    cfg['write'] = rng.choice([1, 2, 10**8])
    if rng.random() < 0.2:
        cfg['profile'] = 1
    if long:
        gen.lengthen(rng, cfg)
    n = rng.choice([1, gen.ranks(rng, cfg, 4), gen.ranks(rng, cfg, 4)])
    case = dict(fn=fn, cfg=cfg, n=n, policy=gen.policy(rng))
    if fn == 'slow':
        case['slow'] = [[rng.choice(['open', 'write', 'close', 'replace', 'listdir']), rng.choice([1, 2, 3])] for _ in range(2)]
    else:
        case['then'] = [[rng.choice(['EIO', 'ENOSPC']), round(rng.random(), 5), rng.choice([0, 1, 2, n])] for _ in range(deep)]
        if fn == 'second':
            case['at'] = rng.randrange(1, cfg['steps'])
            case['mode'] = rng.choice(['w', 'a'])
    return case


def cases(tier, seed):
    rng = random.Random('C16-%s' % seed)
    out = []
    order = ['NS', 'KMM', 'NS2D', 'VV', 'KMM_RB', 'MHD', 'Bq2D', 'KMMr', 'NS', 'KMMRK3', 'Coupled', 'NS2D', 'VV', 'KMMRK3_RB',
             'CoupledRK3', 'NS', 'KMM', 'MHD', 'NS2D', 'NS']
    for k, s in enumerate(order):
        out.append(one(rng, 'error', s, 8 if s in sim.TRIPLY+sim.DOUBLY else 5))
        if k % 2 == 0:
            out.append(one(rng, 'second', order[-k-1], 5))
        if k % 3 == 0:
            out.append(one(rng, 'slow', order[-k-2], 0))
    rng = random.Random('C16-long-%s' % seed)
    return out + [one(rng, 'error', s, 5, True) for s in gen.LONG[:3]]


def more(rng, i):
    return one(rng, rng.choice(['error', 'error', 'second', 'slow']), rng.choice(sim.ALL), 6)
