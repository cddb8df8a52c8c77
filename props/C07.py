"""C07: adaptive steps are decided from the global error and end exactly at T."""
import math
import random

import refmodel
from dst import gen, sim
from .common import *

RULE = ('A case runs a periodic solver with the adaptive Bogacki-Shampine integrator on several ranks; tolerance and first step '
        'size are drawn so that attempts get rejected.  An independent sequential model (refmodel.py) predicts every attempt: '
        'error estimate, acceptance, step size and state, and the end time is placed inside a chosen step of the prediction.')


class Unclear(Exception):
    """An estimate within round-off of the limit: nothing can be predicted."""


def attempt(m, u, dt, TOL, tried=None):
    """Model of one adaptive step -> (new state, step taken, next step size, rejections)"""
    rej = 0
    while True:
        new, err = refmodel.bs5(m.rhs, u, dt)
        if tried is not None:
            tried.append(dt)
        est = refmodel.estimate(u, new, err, TOL)
        if abs(est-1) < 1e-5:
            raise Unclear()
        if not math.isfinite(est):
            est = math.inf      # the stages overflow: far too large a step
        nxt = refmodel.controller(est, dt, rej > 0)
        if est <= 1:
            return new, dt, nxt, rej
        rej += 1
        if rej > 12:
            raise Unclear()
        dt = nxt


def kicked(c, step, dt):
    return dict(c.get('kick', ())).get(step, dt)


def clip(t, dt, T):
    """The size of the step after time t, or None at the end."""
    if abs(t-T) < 1e-12:
        return None
    if abs(t+dt-T) < 1e-7*dt:
        raise Unclear()     # whether this step ends at T is a matter of round-off
    return min(dt, T-t)


def adaptive(ctx, case):
    cfg, n = dict(case['cfg']), case['n']
    cfg['stages'] = True
    c = sim.full(cfg)
    TOL = c['TOL']
    m, u0 = refmodel.initial(c)
    if case.get('aim'):
        # the tolerance for which the estimate of the first attempt is just above or below the limit
        new, err = refmodel.bs5(m.rhs, u0, c['dt'])
        est = refmodel.estimate(u0, new, err, TOL)
        if math.isfinite(est) and 1e-9 <= TOL*est <= 1:      # (above round-off)
            TOL = cfg['TOL'] = TOL*est/case['aim']
            c = sim.full(cfg)
            ctx.probe('at_the_limit')
    try:
        # where does the end time have to be, for the run to take about as many steps as asked for?
        u, t, dt = u0, 0.0, c['dt']
        for i in range(case['nsteps']):
            u, took, dt, rej = attempt(m, u, dt, TOL)
            if i < case['nsteps']-1:
                t += took
            dt = kicked(c, i+1, dt)
        T = t+took*case['frac']
        if case.get('huge'):
            T, cfg['end_at'] = 2*c['dt'], case['nsteps']    # the user stops the run
        elif case['nsteps'] == 1 or T < c['dt']:
            T = max(T, c['dt']*1.0000001)
        cfg['T'] = T
        # the prediction
        u, t, dt = u0, 0.0, c['dt']
        path, asked = [], []
        while dt is not None:
            if len(path) == 40:
                ctx.probe('too_long')
                return
            f, tried = m.rhs(u), []
            u, took, nxt, rej = attempt(m, u, dt, TOL, tried)
            t += took
            asked += [x for d in tried for x in ((len(path), 'begun', f), (len(path), 'rejected', d))][:-1]
            path.append((t, took, nxt, rej, u))
            dt = clip(t, kicked(c, len(path), nxt), T)
            if len(path) == cfg.get('end_at'):
                T = t
                break
    except Unclear:
        ctx.probe('unclear')
        return
    res = run(ctx, cfg, n)
    what = describe(cfg, n)
    key = refmodel.name(c)
    ends = [[s[:3] for s in q['snaps']] for q in res['ret']]
    for r, e in enumerate(ends):
        if e != ends[0]:
            i = [i for i in range(max(len(e), len(ends[0]))) if e[i:i+1] != ends[0][i:i+1]][0]
            ctx.fail('ranks', '%s: (step, time, step size) is %s on rank %d and %s on rank 0' % (what, e[i:i+1], r, ends[0][i:i+1]))
    before = 0.0
    for i, (st, t, dt, g) in enumerate(res['snaps']):
        if i >= len(path):
            ctx.fail('extra', '%s: takes step %d at time %r after the end at T=%r' % (what, st, t, T))
        ct, took, nxt, rej, u = path[i]
        ctx.checked(2)
        if abs((t-before)-took) > 1e-6*took+1e-13:
            ctx.fail('step-size', '%s: step %d has size %r instead of %r (%d attempts rejected by the model)' % (what, st, t-before, took, rej))
        if abs(dt-nxt) > 1e-6*nxt:
            ctx.fail('next-size', '%s: after step %d the step size becomes %r instead of %r (%d attempts rejected by the model)' % (what, st, dt, nxt, rej))
        compare(ctx, {key: u}, g, 100*tol(cfg), 'after step %d (%d attempts rejected) of %s' % (st, rej, what))
        if rej and i:
            ctx.probe('rejected_later', rej)
        if rej:
            ctx.probe('rejected', rej)
        if nxt == 2*took:
            ctx.probe('doubled')
        before = t
    if len(res['snaps']) < len(path):
        ctx.fail('short', '%s: ends after %d steps at time %r instead of T=%r' % (what, len(res['snaps']), before, T))
    callbacks(ctx, res, asked, what, 100*tol(cfg))
    for r, q in enumerate(res['ret']):
        if abs(q['end'][1]-T) > 1e-12:
            ctx.fail('end', '%s: rank %d ends at time %r instead of %r' % (what, r, q['end'][1], T))
        if q['end'][2] != c['dt']:
            ctx.fail('left', '%s: the run leaves step size %r on rank %d instead of the configured %r' % (what, q['end'][2], r, c['dt']))


def callbacks(ctx, res, asked, what, limit):
    """The additional callback is called with F(u) in every attempt and with the step size of every rejected one."""
    for r, q in enumerate(res['ret']):
        got = [x[:2] for x in q['stages']]
        if got != [x[:2] for x in asked]:
            i = [i for i in range(max(len(got), len(asked))) if got[i:i+1] != [x[:2] for x in asked][i:i+1]][0]
            ctx.fail('callback', '%s: additional callback %d on rank %d is %s instead of %s' % (what, i+1, r, got[i:i+1], [x[:2] for x in asked][i:i+1]))
    for i, (st, kind, v) in enumerate(asked):
        mine = [q['stages'][i][2] for q in res['ret']]
        if kind == 'rejected':
            if not max(abs(x-v) for x in mine) <= 1e-6*v:
                ctx.fail('callback', '%s: rejected step sizes are %s instead of %r after step %d' % (what, mine, v, st))
        else:
            compare(ctx, {'fu0': v}, {'fu0': sim.assemble(mine)}, limit, 'additional callback after step %d of %s' % (st, what), key='callback')


FNS = dict(adaptive=adaptive)


def one(rng, s, k):
    cfg = gen.config(rng, s, integ='BS5_adaptive')
    cfg['TOL'] = rng.choice([1e-2, 1e-4, 1e-6, 1e-7, 1e-8, 1e-9])
    cfg['dt'] = rng.choice([0.001, 0.01, 0.1, 0.3, 0.3])
    cfg['slope'] = rng.choice([2.0, 3.0])
    cfg['amp'] = rng.choice([1.0, 0.5, 2.0]) if k % 13 != 12 else 0
    cfg.pop('steps', None)
    nsteps = rng.choice([2, 3, 4, 5])
    if rng.random() < 0.5:
        # the user asks for a step that is too large
        cfg['kick'] = [[rng.randrange(1, nsteps), rng.choice([0.2, 0.5, 1.0])]]
    case = dict(fn='adaptive', cfg=cfg, n=rng.choice([1, gen.ranks(rng, cfg), gen.ranks(rng, cfg), gen.ranks(rng, cfg)]),
                nsteps=nsteps, frac=rng.choice([1.01, 0.999, 0.5, 0.2, 1e-3, 0.8]), policy=gen.policy(rng))
    if k % 8 == 5:
        case['aim'] = rng.choice([1.002, 1.02, 1.02, 1.3, 0.98, 0.998])
        cfg['dt'] = rng.choice([0.1, 0.3, 0.2])
    if k % 10 == 3:
        # the first step is so large that attempts overflow
        cfg.pop('kick', None)
        cfg['dt'] = rng.choice([30., 300., 1e4, 1e8])
        cfg['TOL'] = rng.choice([1e-2, 1e-4])
        cfg['amp'] = 1.0
        case['huge'] = True
        case.pop('aim', None)
    return case


def cases(tier, seed):
    rng = random.Random('C07-%s' % seed)
    P = sim.TRIPLY+sim.DOUBLY
    return [one(rng, 'NS' if k % 7 > 4 else P[k % 5], k) for k in range(70)]


def more(rng, i):
    return one(rng, rng.choice(sim.TRIPLY+sim.DOUBLY), i)
