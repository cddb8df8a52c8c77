"""C11: integrating in several calls gives the same flow as integrating in one."""
import random

import refmodel
from dst import gen, sim
from .common import *
from . import C06, C07

RULE = ('A case advances the same configuration once in one call of solve() and once in several calls (some of which have '
        'nothing to do) on several ranks under a seeded scheduler, and compares states, times and step numbers at every step, '
        'what every call leaves behind, and the results and checkpoint files.  AB2 and adaptive runs, which start every call '
        'afresh, are compared with a sequential model (refmodel.py).')


def legs(c, case):
    """End times of the calls."""
    out = []
    k = 0
    for m in case['calls']:
        k += m
        out.append(k*c['dt'])
    return out, k


def split(ctx, case):
    cfg, n = dict(case['cfg']), case['n']
    c = sim.full(cfg)
    ends, total = legs(c, case)
    cfg['steps'] = total
    c = sim.full(cfg)
    what = 'in calls of %s steps, on %s' % (case['calls'], describe(cfg, n))
    b = run(ctx, dict(cfg, segments=ends), n, what=what)
    lim = tol(cfg)
    own = c['integ'] in ('AB2', 'BS5_adaptive')
    if own:
        try:
            want = model(c, ends)
        except C07.Unclear:
            ctx.probe('unclear')
            return
        key = refmodel.name(c)
        if len(want) != len(b['snaps']):
            ctx.fail('steps', '%s: takes %d steps instead of %d' % (what, len(b['snaps']), len(want)))
        for (t, u), s in zip(want, b['snaps']):
            ctx.checked()
            if abs(s[1]-t) > 1e-6*max(t, 1e-3):
                ctx.fail('times', '%s: step %d ends at time %r instead of %r' % (what, s[0], s[1], t))
            compare(ctx, {key: u}, s[3], 100*lim, 'after step %d %s' % (s[0], what))
    else:
        a = run(ctx, cfg, n)
        finite(ctx, a['snaps'], 'one call')
        same_states(ctx, a['snaps'], b['snaps'], lim, what)
    # what every call leaves behind
    at = {0: (0.0, None)}
    at.update({s[0]: (s[1], s[3]) for s in b['snaps']})
    for i, (m, T) in enumerate(zip(case['calls'], ends)):
        for r in range(n):
            st, t, dt, _ = b['ret'][r]['segs'][i]
            ctx.checked()
            if abs(t-T) > 1e-9 or (not own and st != round(T/c['dt'])):
                ctx.fail('position', '%s: call %d ends at step %d, time %r on rank %d instead of time %r' % (what, i+1, st, t, r, T))
            if dt != c['dt']:
                ctx.fail('dt', '%s: call %d leaves step size %r on rank %d instead of %r' % (what, i+1, dt, r, c['dt']))
        g = {k: sim.assemble([q['segs'][i][3][k] for q in b['ret']]) for k in b['ret'][0]['segs'][i][3]}
        last = at[b['ret'][0]['segs'][i][0]][1] or sim.gather_start(b['ret'])
        compare(ctx, last, g, 1e-13, 'left by call %d %s' % (i+1, what), key='left')
        if not m:
            ctx.probe('empty_calls')
    for r in range(n):
        k = sum(x[0] == 'regression_test' for x in b['ret'][r]['calls'])
        if k != len(ends):
            ctx.fail('final', '%s: the function for the end of a simulation is called %d times for %d calls on rank %d' % (what, k, len(ends), r))
    if not own:
        files(ctx, c, a, b, what, lim)


def files(ctx, c, a, b, what, lim):
    wa, wb = (os.path.join(x['dir'], c['name']+'_w.h5') for x in (a, b))
    if os.path.exists(wa) != os.path.exists(wb):
        ctx.fail('results', '%s: the results file is %s' % (what, 'missing' if os.path.exists(wa) else 'not expected'))
    if os.path.exists(wa):
        fa, fb = C06.content(wa), C06.content(wb)
        if sorted(fa) != sorted(fb):
            ctx.fail('results', '%s: the results file differs from that of one call in %s' % (what, sorted(set(fa) ^ set(fb))[:6]))
        for k in fa:
            compare(ctx, {k: fa[k]}, {k: fb[k]}, 10*lim, what + ': results file', key='results')
    ca, cb = (os.path.join(x['dir'], c['name']+'_c.h5') for x in (a, b))
    if os.path.exists(ca) != os.path.exists(cb):
        ctx.fail('checkpoint', '%s: the checkpoint file is %s' % (what, 'missing' if os.path.exists(ca) else 'not expected'))
    if os.path.exists(ca):
        sa, ta, fa = read_checkpoint(ca)
        sb, tb, fb = read_checkpoint(cb)
        if sa != sb or abs(ta-tb) > 1e-9 or sorted(fa) != sorted(fb):
            ctx.fail('checkpoint', '%s: the checkpoint is of step %d, time %r with %s instead of step %d, time %r with %s'
                     % (what, sb, tb, sorted(fb), sa, ta, sorted(fa)))
        for k in fa:
            compare(ctx, {k: fa[k]}, {k: fb[k]}, lim, what + ': checkpoint', key='checkpoint')
        ctx.probe('checkpoints')


def model(c, ends):
    m, u = refmodel.initial(c)
    out, t = [], 0.0
    for T in ends:
        step, dt = m.stepper(), c['dt']
        if not t+dt <= T+1e-12:
            continue
        while dt is not None:
            if c['integ'] == 'AB2':
                u, took, nxt = step(u, dt), dt, c['dt']
                if abs(t+took-T) < 1e-9:
                    took = T-t
            else:
                u, took, nxt, rej = C07.attempt(m, u, dt, c['TOL'])
            t += took
            out.append((t, u))
            if c['integ'] == 'AB2':
                dt = None if abs(t-T) < 1e-12 else min(nxt, T-t)
            else:
                dt = C07.clip(t, nxt, T)
            if len(out) > 60:
                raise C07.Unclear()
    return out


FNS = dict(split=split)


def one(rng, s, k, long=False):
    cfg = gen.config(rng, s)
    if s not in sim.CHANNEL:
        cfg['integ'] = gen.INTEGRATORS[k % 5]
        if cfg['integ'] == 'BS5_adaptive':
            cfg.update(TOL=rng.choice([1e-4, 1e-6]), slope=3.0, dt=0.01)
        if s != 'Coupled' and rng.random() < 0.2:
            cfg['opt'] = 'cython'
    cfg.pop('steps', None)
    if rng.random() < 0.6:
        cfg['write'] = rng.choice([1, 2])
    if rng.random() < 0.6:
        cfg['ckpt'] = rng.choice([1, 2, 3])
    if cfg['integ'] == 'BS5_adaptive':
        calls = [rng.choice([3, 5, 7]), rng.choice([2, 4])]
    else:
        calls = rng.choice([[1, 1], [2, 1], [1, 2], [1, 1, 1], [2, 2], [3, 1]]) if 'Coupled' not in s else [1, 1]
    calls = list(calls)
    if long:
        calls = rng.choice([[11, 2], [1, 12], [4, 5, 6], [10, 10]])
        gen.lengthen(rng, cfg)
        cfg.pop('steps')
    for _ in range(rng.choice([0, 1, 1, 2])):
        calls.insert(rng.randrange(len(calls)+1), 0)
    return dict(fn='split', cfg=cfg, n=rng.choice([1, gen.ranks(rng, cfg), gen.ranks(rng, cfg)]), calls=calls, policy=gen.policy(rng))


def cases(tier, seed):
    rng = random.Random('C11-%s' % seed)
    out = [one(rng, sim.ALL[k % 12], k//12+k) for k in range(96) if k < 36 or 'Coupled' not in sim.ALL[k % 12]]
    rng = random.Random('C11-long-%s' % seed)
    return out + [one(rng, s, k, True) for k, s in enumerate(gen.LONG[:6])]


def more(rng, i):
    return one(rng, rng.choice(sim.ALL), rng.randrange(100))
