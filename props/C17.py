"""C17: every step is taken, counted, reported and timed exactly once."""
import random

from .common import *
from . import C06

RULE = ('course: random configurations with end times that are and are not multiples of the step size, and start times and step '
        'numbers that are not zero, run on several ranks; the sequence of steps, times, step sizes and calls of the user on every '
        'rank is compared with the sequence that the end time demands.  order: the user changes the solution in the callback; what '
        'is stored for that step has to be the changed solution.')


def expected(c, t, k, T):
    """[(step number, time)] of a run from time t and step k to T."""
    dt = c['dt']
    out = []
    # T and the multiple of dt are the same time if they agree to round-off
    n = int(np.floor((T-t+1e-11)/dt))
    if n < 1:
        return out
    for i in range(1, n+1):
        out.append((k+i, t+i*dt, dt))
    rest = T-t-n*dt
    if c['solver'] not in sim.CHANNEL and rest > 1e-11:
        out.append((k+n+1, T, rest))
    return out


def course(ctx, case):
    cfg, n = case['cfg'], case['n']
    c = sim.full(cfg)
    what = describe(cfg, n)
    t0, k0 = c.get('t', 0.0), c.get('tstep', 0)
    T = t0 + case['dur']*c['dt'] + case.get('off', 0)
    cfg = dict(cfg, T=T)
    res = run(ctx, cfg, n)
    exp = expected(c, t0, k0, T)
    if case['dur'] != int(case['dur']):
        ctx.probe('end_between_steps')
    if case.get('off'):
        ctx.probe('end_near_step')
    eps = 1e-11*max(1, abs(T)/10)
    for r, q in enumerate(res['ret']):
        ctx.checked(len(exp)+2)
        calls = q['calls']
        ups = [x for x in calls if x[0] == 'update']
        if [x[1] for x in ups] != [x[0] for x in exp]:
            ctx.fail('steps', 'rank %d was called after steps %s instead of %s, %s to T = %r'
                     % (r, [x[1] for x in ups], [x[0] for x in exp], what, T))
        before = t0
        for u, e in zip(ups, exp):
            if not abs(u[2]-e[1]) <= eps:
                ctx.fail('times', 'rank %d is at time %r after step %d instead of %r, %s to T = %r' % (r, u[2], u[1], e[1], what, T))
            before = u[2]
        if before > T+eps:
            ctx.fail('beyond', 'rank %d ran to %r beyond the end time %r, %s' % (r, before, T, what))
        fin = [i for i, x in enumerate(calls) if x[0] == 'regression_test']
        if fin != [len(calls)-1]:
            ctx.fail('final', 'rank %d: the final call came %d times, at position %s of %d calls, %s' % (r, len(fin), fin, len(calls), what))
        last = exp[-1] if exp else (k0, t0)
        if calls[-1][1] != last[0] or not abs(calls[-1][2]-last[1]) <= eps:
            ctx.fail('final', 'rank %d: the final call came at step %d, time %r instead of %d, %r, %s'
                     % (r, calls[-1][1], calls[-1][2], last[0], last[1], what))
        if q['end'][0] != last[0] or not abs(q['end'][1]-last[1]) <= eps:
            ctx.fail('end', 'rank %d ended with step %d, time %r instead of %d, %r, %s' % (r, q['end'][0], q['end'][1], last[0], last[1], what))
        if not abs(q['end'][2]-c['dt']) <= 1e-12:
            ctx.fail('dt', 'rank %d: the step size is %r after the run instead of %r, %s' % (r, q['end'][2], c['dt'], what))
    # the steps stored follow the step number, wherever it started
    w = [e[0] for e in exp if e[0] % c['write'] == 0]
    p = os.path.join(res['dir'], cfg.get('name', 'results')+'_w.h5')
    if os.path.exists(p):
        have = sorted({int(k.rsplit('/', 1)[1]) for k in C06.content(p)})
        ctx.checked()
        if have != w:
            ctx.fail('stored', 'results hold steps %s instead of %s, %s' % (have, w, what))
    elif w:
        ctx.fail('stored', 'there is no results file, %s' % what)
    k = [e for e in exp if e[0] % c['ckpt'] == 0]
    p = os.path.join(res['dir'], cfg.get('name', 'results')+'_c.h5')
    if k:
        want = {}
        prev = sim.gather_start(res['ret'])
        for st, t, dt, g in res['snaps']:
            want[st] = (t, checkpoint_of(c, g, prev))
            prev = g
        check_checkpoint(ctx, p, want, {k[-1][0]}, tol(cfg), 'after %s' % what)
    elif os.path.exists(p):
        ctx.fail('checkpoint', 'a checkpoint was written though no step is a multiple of %d, %s' % (c['ckpt'], what))


def order(ctx, case):
    cfg, n = case['cfg'], case['n']
    c = sim.full(cfg)
    what = 'the user changes the solution after step %s, %s' % (c['nudge'], describe(cfg, n))
    res = run(ctx, cfg, n, what=what)
    s = c['solver']
    p = os.path.join(res['dir'], cfg.get('name', 'results')+'_c.h5')
    last = res['snaps'][-1]
    st, t, data = read_checkpoint(p)
    now = checkpoint_of(c, last[3], last[3])
    ctx.checked()
    if st != last[0]:
        ctx.fail('order', '%s: the checkpoint is of step %d' % (what, st))
    for k in now:
        if k.endswith('/0'):
            compare(ctx, {k: now[k]}, {k: data[k]}, tol(cfg), what + ': checkpoint', key='order')
    if s in sim.TRIPLY+sim.DOUBLY and c['write'] == 1:
        f = C06.content(os.path.join(res['dir'], cfg.get('name', 'results')+'_w.h5'))
        name = {'VV': 'W_hat', 'MHD': 'UB_hat', 'Bq2D': 'Ur_hat'}.get(s, 'U_hat')
        grp = {'VV': 'curl', 'MHD': 'UB', 'Bq2D': 'UR'}.get(s, 'U')
        for st, t, dt, g in res['snaps']:
            a = C06.physical(c, g[name])
            for i in range(a.shape[0]):
                k = '/%s%d/%dD/%d' % (grp, i, len(c['N']), st)
                compare(ctx, {k: a[i]}, {k: f[k]}, tol(cfg), what + ': results', key='order')


FNS = dict(course=course, order=order)


def one(rng, fn, s, long=False, k=0):
    cfg = gen.config(rng, s, integ=gen.integ(rng, s, ['RK4', 'ForwardEuler', 'AB2', 'BS5_fixed']))
    cfg['conv'] = sim.convections(s)[0] if s in sim.CHANNEL else cfg['conv']
    cfg['ckpt'] = rng.choice([1, 2, 3, 10**8])
    cfg['write'] = rng.choice([1, 2, 3, 10**8])
    steps = cfg.pop('steps')
    n = rng.choice([1, gen.ranks(rng, cfg, 5), gen.ranks(rng, cfg, 5)])
    case = dict(fn=fn, cfg=cfg, n=n, policy=gen.policy(rng))
    if fn == 'order':
        cfg['ckpt'], cfg['write'], cfg['steps'] = 1, 1, 2
        cfg['nudge'] = [[rng.choice([1, 2]), 1.25], [2, 0.75]]
        cfg['peek'] = k % 2 == 0
        return case
    if rng.random() < 0.4:
        cfg['tstep'] = rng.choice([0, 5, 10, 37])
        cfg['t'] = rng.choice([0.0, 1.0, 0.37, 7.0])
        if s in sim.CHANNEL:
            # the first step number tells implicit solvers and AB2 whether to make a start-up step
            cfg['t'] = rng.choice([0.0, 1.0])
    case['dur'] = rng.choice([1, 2, 3, 4, 1.5, 2.25, 2.9, 3.01, 1.999, 0.5, 5, 2, 3])
    if s in ('Coupled', 'CoupledRK3'):
        case['dur'] = min(case['dur'], 2.25)
    if long:
        gen.lengthen(rng, cfg)
        cfg.pop('steps')
        case['dur'] = rng.choice([11, 12, 13.5, 20, 31, 24.01])
        if 'tstep' in cfg:
            cfg['tstep'] = rng.choice([95, 998, 99999])
        if 't' in cfg or rng.random() < 0.4:
            cfg['t'] = rng.choice([1.0, 20.0, 50.0])
            if s in sim.CHANNEL:
                cfg.setdefault('tstep', 95)
    elif k % 3 == 2:
        # T just before or after the end of a step
        case['dur'] = rng.choice([1, 2, 3])
        case['off'] = rng.choice([-1, 1])*rng.choice([1e-5, 5e-7, 5e-7, 3e-8, 5e-9, 5e-9, 5e-10])
    if rng.random() < 0.15:
        cfg['dt'] = rng.choice([1/3., 0.1, 0.7])*0.05
    return case


def cases(tier, seed):
    rng = random.Random('C17-%s' % seed)
    out = []
    for k in range(84):
        out.append(one(rng, 'course', (sim.TRIPLY+sim.DOUBLY+sim.TRIPLY+sim.DOUBLY+sim.ALL)[k % 22], k=k))
    for k in range(24):
        out.append(one(rng, 'order', sim.ALL[k % 12]))
    rng = random.Random('C17-long-%s' % seed)
    return out + [one(rng, 'course', s, True) for s in gen.LONG+gen.LONG[:3]+gen.LONG]


def more(rng, i):
    return one(rng, rng.choice(['course', 'course', 'order']), rng.choice(sim.ALL), k=i)
