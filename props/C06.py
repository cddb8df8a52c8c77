"""C06: the results file holds exactly the scheduled steps and the true fields."""
import random

from dst import gen, sim
from .common import *

RULE = ('A case runs a random configuration that writes results (also slices of fields) on several ranks, with checkpoints, slow '
        'disks and continued runs that append to the file mixed in.  The file is compared with that of one rank, its set of '
        'steps with the schedule, its fields with the transform (numpy.fft for periodic solvers, the transform of the library on '
        'one rank for channels) of the recorded spectral states, and earlier steps with a copy taken before later ones were added.')

#          group -> (state variable, first component) or the name of a derived field
FIELDS = {'NS': ['U', 'P'], 'VV': ['U', 'curl'], 'MHD': ['UB'], 'NS2D': ['U', 'P'], 'Bq2D': ['UR']}


def content(path):
    return {k: v for k, v in fakeh5.read_file(path).items() if '@' not in k and '/mesh/' not in k and '/domain/' not in k}


def physical(c, a):
    """Inverse transform of a gathered spectral field (real input in the last axis)."""
    N = [int(n) for n in c['N']]
    return np.fft.irfftn(a, s=N, axes=tuple(range(-len(N), 0)))*np.prod(N)


def fields_of(c, snap, diag):
    """{group: global array} of what the solver has to store for this step."""
    s = c['solver']
    d = '%dD' % len(c['N'])
    full = {}
    if s in ('NS', 'NS2D'):
        full['U'] = physical(c, snap['U_hat'])
        if 'P' in diag:
            full['P'] = diag['P']
    elif s == 'VV':
        full['curl'] = physical(c, snap['W_hat'])
        full['U'] = diag['U']
    elif s == 'MHD':
        full['UB'] = physical(c, snap['UB_hat'])
    elif s == 'Bq2D':
        full['UR'] = physical(c, snap['Ur_hat'])
    else:
        full['U'] = diag['U']
        if 'phi' in diag:
            full['phi'] = diag['phi']
    out = {}
    for k, a in full.items():
        if a.ndim > len(c['N']):
            for i in range(a.shape[0]):
                out['/%s%d/%s' % (k, i, d)] = a[i]
        else:
            out['/%s/%s' % (k, d)] = a
    return out


def close(ctx, g, h, limit, scale, what, key):
    """The array h is g, on the scale of the whole field g is (a part of) a component of."""
    if g.shape != h.shape:
        ctx.fail(key+'-shape', '%s has shape %s instead of %s' % (what, h.shape, g.shape))
    ctx.checked()
    e = np.abs(g-h)
    if not (np.isfinite(e).all() and e.max() <= limit*max(scale, 1e-300)):
        i = np.unravel_index(np.argmax(np.where(np.isfinite(e), e, np.inf)), g.shape)
        ctx.fail(key, '%s differs by %.3g (on the scale %.3g), e.g. %r instead of %r at index %s'
                 % (what, e[i], scale, h[i], g[i], tuple(int(x) for x in i)))


def verify(ctx, path, c, ref, lo, hi, lim, what, old=None):
    """The file at path holds the multiples of `write` in (lo, hi] (and `old`), with the right fields."""
    if not os.path.exists(path):
        ctx.fail('missing', '%s: there is no results file' % what)
    f = content(path)
    steps = [k for k in range(lo+1, hi+1) if k % c['write'] == 0]
    groups = set(k.rsplit('/', 1)[0] for k in f)
    have = {g: sorted(int(k.rsplit('/', 1)[1]) for k in f if k.rsplit('/', 1)[0] == g) for g in groups}
    prior = sorted(set(int(k.rsplit('/', 1)[1]) for k in (old or {})))
    for g in sorted(have):
        ctx.checked()
        if have[g] != sorted(set(prior) | set(steps)):
            ctx.fail('steps', '%s: %s holds steps %s instead of %s' % (what, g, have[g], sorted(set(prior) | set(steps))))
    for k in old or {}:
        if k not in f or not np.array_equal(f[k], old[k], equal_nan=True):
            ctx.fail('altered', '%s: the earlier entry %s was altered' % (what, k))
    for k in steps:
        ex = ref[k]
        for g, a in ex.items():
            key = '%s/%d' % (g, k)
            if key not in f:
                ctx.fail('absent', '%s: %s is not in the file (there is %s)' % (what, key, sorted(have)))
            scale = max(np.abs(b).max() for h, b in ex.items() if h.split('/')[1].rstrip('0123456789') == g.split('/')[1].rstrip('0123456789'))
            close(ctx, a, f[key], lim, scale, '%s: %s' % (what, key), 'field')
        for name, spec in c.get('slices', ()):
            nd = sum(x is None for x in spec)
            sl = '_'.join('slice' if x is None else str(x) for x in spec)
            idx = tuple(slice(None) if x is None else x for x in spec)
            for g, a in ex.items():
                if g.split('/')[1].rstrip('0123456789') != name:
                    continue
                key = '/%s/%dD/%s/%d' % (g.split('/')[1], nd, sl, k)
                if key not in f:
                    ctx.fail('absent', '%s: %s is not in the file' % (what, key))
                # (a slice of a wall, say, is 0 up to round-off)
                scale = max(np.abs(b).max() for h, b in ex.items() if h.split('/')[1].rstrip('0123456789') == name)
                close(ctx, a[idx], f[key], lim, scale, '%s: %s' % (what, key), 'slice')
    return f


def results(ctx, case):
    cfg, n = case['cfg'], case['n']
    c = sim.full(cfg)
    what = describe(cfg, n)
    lim = 10*tol(cfg)
    base = cfg.get('tstep', 0)
    steps = list(range(base+1, base+c['steps']+3))       # single precision may need one more tiny step to hit T
    one = run(ctx, dict(cfg, diag_at=steps), 1)
    diag = one['ret'][0]['diag']
    ref = {s[0]: fields_of(c, s[3], {k: sim.assemble([v]) for k, v in diag[s[0]].items()}) for s in one['snaps']}
    last = one['snaps'][-1][0]
    verify(ctx, os.path.join(one['dir'], c['name']+'_w.h5'), c, ref, base, last, lim, 'one rank, ' + describe(cfg))
    first = base+case['first'] if case.get('first') else last
    rc = dict(cfg)
    if first < last:
        rc['end_at'] = first
        rc['ckpt'] = first
    d = ctx.newdir()
    if case.get('used'):
        # the files of an earlier run of this name are in the folder
        run(ctx, dict(cfg, write=1, ckpt=1, steps=cfg['steps']+2, nu=2*c['nu'], slices=()), 1, d=d)
        ctx.probe('used_folder')
    res = run(ctx, rc, n, d=d, faults=case.get('faults') or ())
    path = os.path.join(d, c['name']+'_w.h5')
    f = verify(ctx, path, c, ref, base, first, lim, what)
    f1 = content(os.path.join(one['dir'], c['name']+'_w.h5'))
    lay = {k: (v.shape, v.dtype) for k, v in f1.items() if int(k.rsplit('/', 1)[1]) <= first}
    lay2 = {k: (v.shape, v.dtype) for k, v in f.items()}
    if lay != lay2:
        ctx.fail('layout', '%s: the file differs in layout from that of one rank: %s' % (what, sorted(set(lay.items()) ^ set(lay2.items()), key=str)[:4]))
    m1 = {k: v for k, v in fakeh5.read_file(os.path.join(one['dir'], c['name']+'_w.h5')).items() if '/mesh/' in k and '@' not in k}
    m2 = {k: v for k, v in fakeh5.read_file(path).items() if '/mesh/' in k and '@' not in k}
    if f and sorted(m1) != sorted(m2):
        ctx.fail('layout', '%s: coordinates in the file: %s instead of %s' % (what, sorted(m2), sorted(m1)))
    if f:
        compare(ctx, m1, m2, 1e-6, what + ': coordinates', key='mesh')
    if first < last:
        # continue on another layout and append
        nc = dict(cfg, restart=c['name']+'_c.h5', mode='a', deco=case['deco2'])
        res = run(ctx, nc, case['n2'], d=d)
        verify(ctx, path, c, ref, first, last, lim, 'appended by %d ranks (%s) to %s' % (case['n2'], case['deco2'], what), old=f)
        ctx.probe('appended')
    if cfg.get('slices'):
        ctx.probe('slices')


FNS = dict(results=results)


def one(rng, s, k, long=False):
    cfg = gen.config(rng, s, conv=sim.convections(s)[0])
    if s not in sim.CHANNEL:
        cfg['integ'] = rng.choice(['RK4', 'ForwardEuler', 'AB2', 'BS5_fixed'])
        if k % 5 == 3:
            cfg['precision'], cfg['mask'] = 'single', False
    cfg['steps'] = rng.choice([3, 4, 5]) if s not in ('Coupled', 'CoupledRK3') else 2
    cfg['write'] = rng.choice([1, 1, 2, 3]) if cfg['steps'] > 2 else 1
    if rng.random() < 0.4:
        cfg['ckpt'] = rng.choice([1, 2])
    if long:
        gen.lengthen(rng, cfg)
    cfg['name'] = rng.choice(['results', 'results', 'my_run'])
    if rng.random() < 0.5:
        nd = len(cfg['N'])
        spec = []
        for _ in range(rng.choice([1, 2])):
            sp = [None]*nd
            for i in rng.sample(range(nd), rng.randrange(1, nd)):
                sp[i] = rng.randrange(cfg['N'][i])
            spec.append([{'MHD': 'UB', 'Bq2D': 'UR'}.get(s, 'U'), sp])
        cfg['slices'] = spec
    if k % 6 == 2 and not long:
        # the run starts at a later step
        cfg['tstep'] = cfg['write']*rng.choice([333, 9998, 99998])
        cfg['t'] = rng.choice([0.0, 1.0, 20.0])
        cfg['T'] = cfg['t']+sim.full(cfg)['dt']*cfg['steps']
    n = gen.ranks(rng, cfg)
    case = dict(fn='results', cfg=cfg, n=n, policy=gen.policy(rng))
    if rng.random() < 0.4 and cfg['integ'] != 'AB2' and cfg.get('precision') != 'single':  # (round-off may move the last tiny step)
        case['first'] = rng.randrange(1, cfg['steps'])
        deco = rng.choice(['slab', 'pencil']) if s not in sim.DOUBLY else 'slab'
        case['deco2'], case['n2'] = deco, rng.choice([1, gen.ranks(rng, dict(cfg, deco=deco))])
    if (k+k//12) % 4 == 1 and 'tstep' not in cfg and 'Coupled' not in s and not long:
        case['used'] = True
    if rng.random() < 0.3:
        case['faults'] = [dict(kind='slow_disk', op='write', k=rng.choice([1, 2, 3]))]
    return case


def cases(tier, seed):
    rng = random.Random('C06-%s' % seed)
    out = [one(rng, sim.ALL[k % 12], k) for k in range(60) if k < 36 or k % 12 < 5]
    rng = random.Random('C06-long-%s' % seed)
    return out + [one(rng, s, 0, True) for s in gen.LONG[:6]]


def more(rng, i):
    return one(rng, rng.choice(sim.ALL), i)
