"""C04: a crash at any point leaves the last checkpoint complete and consistent."""
import random

from dst import gen, sim
from .common import *

RULE = ('A case runs a random configuration that checkpoints, and crashes the whole job (all memory lost, writes that were not '
        'closed are lost, torn or kept by seeded choice) at seeded points: most of them at or next to file and directory '
        'operations, some anywhere.  After each crash the checkpoint on disk is compared with the states of an undisturbed run; '
        'then the program is started again in the same folder, from the checkpoint or afresh, crashes again, and finally runs '
        'to its end, where its states must be those of the undisturbed run.')
BUDGET = dict(quick=120)


def allowed(before, res, n, ck):
    """Steps whose checkpoint may be on disk; None: there need not be a valid one."""
    done, begun = progress(res, n)
    fin = [k for k in ck if k <= done]
    a = {fin[-1]} if fin else set(before)
    return a | {k for k in ck if done < k <= begun}


def crash(ctx, case):
    cfg, n = case['cfg'], case['n']
    c = sim.full(cfg)
    ref = run(ctx, cfg, 1)
    want = checkpoints(ref, c)
    states = {s[0]: s for s in ref['snaps']}
    lim = tol(cfg)
    cks = [k for k in want if k % c['ckpt'] == 0]
    dry = ctx.job(cfg, n)
    ctx.finished(dry, 'run on %s' % describe(cfg, n))
    check_checkpoint(ctx, os.path.join(dry['dir'], cfg.get('name', 'results')+'_c.h5'), want, {cks[-1]}, lim, 'after a run without crash')
    marks = [m[0] for m in dry['marks']]
    for q, plan in enumerate(case['crashes']):
        d = ctx.newdir()
        path = os.path.join(d, cfg.get('name', 'results')+'_c.h5')
        before = {None}
        have = None
        start = 0
        for g, (frac, off, how, m) in enumerate(plan):
            what = 'crash %d.%d of %s' % (q, g, describe(cfg, m))
            rc = dict(cfg)
            if how == 'restart' and have is not None:
                rc['restart'] = cfg.get('name', 'results')+'_c.h5'
                start = have
            else:
                start = 0
            if case.get('mode') == 'a':
                rc['mode'] = 'a'
                try:
                    fakeh5.read_file(os.path.join(d, cfg.get('name', 'results')+'_w.h5'))
                except OSError:
                    rc['mode'] = 'w'        # the results of a crashed run may be lost; then start a new file
            mk, tot = marks, dry['nev']
            if m != n or start:
                # event numbers of this incarnation: run it once elsewhere without a crash
                dd = ctx.newdir()
                for f in os.listdir(d):
                    shutil.copy(os.path.join(d, f), dd)
                t = ctx.job(rc, m, d=dd)
                ctx.finished(t, 'run after a crash, %s' % describe(rc, m))
                mk, tot = [x[0] for x in t['marks']], t['nev']
            if off is None or not mk:
                ev = 1 + int(frac*tot)
            else:
                ev = max(1, mk[int(frac*len(mk))] + off)
            res = ctx.job(rc, m, d=d, crash_at=ev)
            if res['outcome'] not in ('crash', 'finished'):
                ctx.finished(res, what)
            ck = [k for k in cks if k > start]
            al = allowed(before, res, m, ck)
            have = check_checkpoint(ctx, path, want, al, lim, what)
            ctx.probe('crash_points')
            if have is not None:
                ctx.probe('valid_checkpoint_after_crash')
                before = {have}
            else:
                before = {None}
        rc = dict(cfg)
        if have is not None:
            rc['restart'] = cfg.get('name', 'results')+'_c.h5'
        own = c['integ'] in ('AB2', 'BS5_adaptive') and have is not None
        if have == c['steps']:
            continue
        fin = run(ctx, rc, plan[-1][3], d=d, what='last run after %d crashes, %s' % (len(plan), describe(rc, plan[-1][3])))
        if not own:
            same_states(ctx, [states[k] for k in sorted(states) if k > (have or 0)], fin['snaps'], lim,
                        'last run after %d crashes of %s' % (len(plan), describe(cfg, n)))
        if cks[-1] > (have or 0):
            check_checkpoint(ctx, path, want, {cks[-1]}, lim if not own else 1e9, 'after the last run, %s' % describe(rc, plan[-1][3]))


FNS = dict(crash=crash)


def one(rng, s, k, deep=3, long=False):
    fix = dict(integ='implicit' if s in sim.CHANNEL else rng.choice(['RK4', 'ForwardEuler', 'BS5_fixed']))
    cfg = gen.config(rng, s, N=gen.mesh(rng, s, True), conv=sim.convections(s)[0], **fix)
    cfg['steps'] = rng.choice([2, 3, 4]) if s not in ('Coupled', 'CoupledRK3') else 2
    cfg['ckpt'] = rng.choice([1, 1, 2])
    if rng.random() < 0.4:
        cfg['write'] = rng.choice([1, 2])
    if k % 3 == 0:
        cfg['name'] = s             # the files have the default names
    if long:
        gen.lengthen(rng, cfg)
    n = gen.ranks(rng, cfg, 4)
    crashes = []
    for _ in range(deep):
        plan = []
        for g in range(rng.choice([1, 1, 2, 3])):
            off = rng.choice([0, 0, 0, 1, 1, -1, 2, None])
            m = n if g == 0 or rng.random() < 0.6 else rng.choice([1, 2])
            plan.append([round(rng.random(), 5), off, rng.choice(['restart', 'restart', 'afresh']), m])
        crashes.append(plan)
    return dict(fn='crash', cfg=cfg, n=n, crashes=crashes, mode=rng.choice(['w', 'a']), policy=gen.policy(rng))


def cases(tier, seed):
    rng = random.Random('C04-%s' % seed)
    order = ['NS', 'KMM', 'NS2D', 'VV', 'KMM_RB', 'MHD', 'Bq2D', 'KMMr', 'NS', 'KMMRK3', 'Coupled', 'NS', 'NS2D', 'VV',
             'KMMRK3_RB', 'CoupledRK3', 'KMM', 'NS', 'Bq2D', 'MHD', 'NS2D', 'KMM_RB', 'VV', 'NS']
    out = [one(rng, s, k, 5 if s in sim.TRIPLY+sim.DOUBLY else 3) for k, s in enumerate(order)]
    rng = random.Random('C04-long-%s' % seed)
    return out + [one(rng, s, k, 3, True) for k, s in enumerate(gen.LONG[:3])]


def more(rng, i):
    return one(rng, rng.choice(sim.ALL), i, 4)
