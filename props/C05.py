"""C05: a stop request ends the run cleanly, at the same step on all processes."""
import random

from dst import gen, sim
from .common import *

RULE = ('A case lets a file named killspectraldns appear at a seeded event of a run on several ranks, mostly next to the events '
        'at which ranks look for it, so that some ranks can see it one step earlier than others; other ranks may be shown an old state of the folder for some looks, as '
        'network file systems do.  All ranks must stop after the '
        'same step with status 1, not later than the first step that begins after the file appeared; the checkpoint must be of '
        'that step; the file must be gone; the continued run must follow the undisturbed one.  Files with similar names, and no '
        'file, must not stop a run.')


def kill(ctx, case):
    cfg, n = case['cfg'], case['n']
    c = sim.full(cfg)
    what = describe(cfg, n)
    ref = run(ctx, cfg, 1)
    want = checkpoints(ref, c)
    states = {s[0]: s for s in ref['snaps']}
    dry = ctx.job(cfg, n)
    ctx.finished(dry, 'run on %s without a stop request' % what)
    marks = [m[0] for m in dry['marks'] if m[2].startswith(('fs.', 'update'))]
    name = case.get('name', 'killspectraldns')
    for q, (frac, off) in enumerate(case['at']):
        if frac is None:
            ev = 0
        else:
            ev = max(1, marks[min(len(marks)-1, int(frac*len(marks)))] + off) if off is not None else 1+int(frac*dry['nev'])
        d = ctx.newdir()
        for i in range(case.get('clutter', 0)):     # other files of the user
            open(os.path.join(d, 'note%02d.txt' % i), 'w').close()
        old = os.path.join(ref['dir'], c['name']+'_c.h5')
        if case.get('clutter') and q % 2 and os.path.exists(old):
            # what is left of a program that was killed before
            tmp = os.path.join(d, c['name']+'_c_tmp.h5')
            shutil.copyfile(old, tmp)
            if q % 4 == 3:
                os.truncate(tmp, os.path.getsize(tmp)//2)
                ctx.probe('torn_file_left_behind')
        kw = dict(watch=name)
        if case.get('stale') and q % 2:
            kw['stale'] = {int(r): m for r, m in case['stale'].items() if int(r) < n}
        if ev:
            kw['at_event'] = [(ev, ('killfile', name))]
        else:
            open(os.path.join(d, name), 'w').close()
        res = ctx.job(cfg, n, d=d, **kw)
        w = 'stop request at event %d of %s' % (ev, what)
        if res['outcome'] != 'finished':
            ctx.finished(res, w)
        there = os.path.exists(os.path.join(d, name))
        codes = res['exits']
        saw = [(nev, r) for nev, r, k in res['marks'] if k == 'saw']
        if name != 'killspectraldns':
            if any(x is not None for x in codes):
                ctx.fail('false-stop', '%s: the file is called %s, but the run ends with %s' % (w, name, codes))
            if not there and (not ev or res['nev'] >= ev):
                ctx.fail('removed', '%s: the file %s is gone' % (w, name))
            ctx.probe('similar_name_ignored')
            continue
        last = [max([o[2] for o in res['obs'] if o[0] == r] or [0]) for r in range(n)]
        ctx.checked()
        began = {}
        for nev, r, k in res['marks']:
            if k.startswith('update '):
                st = int(k[7:])
                began[st] = min(began.get(st, 10**9), nev)
        must = [st for st in sorted(began) if began[st] >= ev]
        if saw:             # the step in which a process saw the file is the last one
            nev, r = min(saw)
            st = max([int(k[7:]) for e, q, k in res['marks'] if q == r and k.startswith('update ') and e <= nev] or [0])
            must = sorted(set(must) | ({st} if st else set()))
        if all(x is None for x in codes):
            if must:
                ctx.fail('ignored', '%s: the run goes on to its end, though the request was there, or seen, at step %d' % (w, must[0]))
            ctx.probe('request_after_last_look')
            continue
        if any(x != 1 for x in codes):
            ctx.fail('status', '%s: exit status by rank: %s' % (w, codes))
        if len(set(last)) != 1:
            ctx.fail('step', '%s: last step by rank: %s' % (w, last))
        k = last[0]
        if must and k > must[0]:
            ctx.fail('late', '%s: stops after step %d, though step %d began after the request' % (w, k, must[0]))
        if there:
            ctx.fail('left', '%s: the file killspectraldns is still there' % w)
        check_checkpoint(ctx, os.path.join(d, cfg.get('name', 'results')+'_c.h5'), want, {k}, tol(cfg), w)
        ctx.probe('stopped')
        if len(set((nev > ev) for nev, r, kk in res['marks'] if kk == 'fs.listdir' and began.get(k, 0) <= nev)) == 2:
            ctx.probe('seen_by_some_ranks_only')
        if k < c['steps'] and c['integ'] not in ('AB2', 'BS5_adaptive'):
            m = case.get('m', n)
            fin = run(ctx, dict(cfg, restart=cfg.get('name', 'results')+'_c.h5'), m, d=d, what='continued after ' + w)
            same_states(ctx, [states[s] for s in sorted(states) if s > k], fin['snaps'], tol(cfg), 'continued after ' + w)


FNS = dict(kill=kill)


def one(rng, s, k, long=False):
    cfg = gen.config(rng, s, N=gen.mesh(rng, s, True), conv=sim.convections(s)[0])
    cfg['steps'] = rng.choice([2, 3, 4]) if s not in ('Coupled', 'CoupledRK3') else 2
    if cfg['integ'] == 'BS5_adaptive':
        cfg['TOL'] = 1e-5
    if rng.random() < 0.4:
        cfg['ckpt'] = rng.choice([1, 2, 3])
    if rng.random() < 0.4:
        cfg['write'] = rng.choice([1, 2])
    if long:
        gen.lengthen(rng, cfg)
    n = gen.ranks(rng, cfg)
    at = [[round(rng.random(), 5), rng.choice([0, 0, 1, -1, 2, -2, None])] for _ in range(4)]
    if rng.random() < 0.2:
        at.append([None, 0])
    case = dict(fn='kill', cfg=cfg, n=n, at=at, policy=gen.policy(rng), m=rng.choice([1, n, n]))
    case['clutter'] = [0, 2, 40][k % 3]
    if rng.random() < 0.6:
        # some ranks see an old state of the folder for some looks, never all ranks
        case['stale'] = {str(r): rng.choice([1, 2, 50]) for r in rng.sample(range(n), rng.randint(1, n-1))}
    if rng.random() < 0.15:
        case['name'] = rng.choice(['killspectraldns.txt', 'KILLSPECTRALDNS', 'mykillspectraldns', 'kill', 'killspectraldn'])
    return case


def cases(tier, seed):
    rng = random.Random('C05-%s' % seed)
    out = [one(rng, (sim.ALL + ('NS', 'NS2D', 'KMM', 'VV', 'NS', 'Bq2D', 'KMMRK3', 'MHD'))[k % 20], k) for k in range(40)]
    rng = random.Random('C05-long-%s' % seed)
    return out + [one(rng, s, k, True) for k, s in enumerate(gen.LONG[:5])]


def more(rng, i):
    return one(rng, rng.choice(sim.ALL), i)
