"""C08: incompressibility, mean values, reality, energy and wall conditions are preserved at every step."""
import random

import refmodel
from dst import gen, sim
from .common import *

RULE = ('A case runs a random configuration on several ranks under a seeded scheduler, possibly interrupted and continued from a '
        'checkpoint on another layout, and evaluates the invariants on the gathered global state after every step: divergence, '
        'symmetry of the transform of a real field, mean modes, decay of energy, no-slip and temperature walls, no mean flow '
        'through the walls.')


def weight(N):
    """Multiplicity of each stored mode of a real transform."""
    w = np.full(N[-1]//2+1, 2.0)
    w[0] = 1
    if N[-1] % 2 == 0:
        w[-1] = 1
    return w


def reality(ctx, h, N, what, name):
    """h(-k) = conj(h(k)) on the plane where both are stored; modes without a partner excepted."""
    d = len(N)
    p = h[..., 0]
    ok = np.ones(N[:-1], bool)
    for i in range(d-1):
        if N[i] % 2 == 0:
            ok[(slice(None),)*i+(N[i]//2,)] = False
    q = p
    for i in range(d-1):
        ax = i-(d-1)
        q = np.roll(np.flip(q, ax), 1, ax)
    e = np.abs(np.where(ok, p-q.conj(), 0)).max()
    s = max(np.abs(h).max(), 1e-300)
    ctx.checked()
    return e/s


def walls(x, N, ax):
    """Values at the two ends of a polynomial given at the Chebyshev points x along an axis."""
    V = np.polynomial.chebyshev.chebvander(x, len(x)-1)
    e = np.polynomial.chebyshev.chebvander(np.array([-1.0, 1.0]), len(x)-1)
    return np.tensordot(e @ np.linalg.inv(V), x_to_front(N, ax), axes=(1, 0))


def x_to_front(a, ax):
    return np.moveaxis(a, ax, 0)


class Energy:
    def __init__(self, c):
        self.last = None
        self.c = c

    def __call__(self, ctx, e, what, slack):
        ctx.checked()
        if self.last is not None and not e <= self.last*(1+slack):
            ctx.fail('energy', '%s: the energy of the unforced flow grows from %.15g to %.15g' % (what, self.last, e))
        self.last = e


def periodic(ctx, c, start, snaps, what, en):
    m = refmodel.Model(c)
    s, N = c['solver'], m.N
    key = refmodel.name(c)
    single = c['precision'] == 'single'
    lim = 3e-5 if single else 1e-11
    w = weight(N)
    parts = {'NS': [(0, m.d)], 'NS2D': [(0, m.d)], 'VV': [(0, 3)], 'MHD': [(0, 3), (3, 6)], 'Bq2D': [(0, 2)]}[s]
    names = {'VV': ['vorticity'], 'MHD': ['velocity', 'magnetic field']}.get(s, ['velocity'])
    h0 = start[key]
    for st, t, dt, g in snaps:
        h = g[key]
        if not np.isfinite(h).all():
            ctx.fail('nan', '%s: not finite after step %d' % (what, st))
        where = 'after step %d of %s' % (st, what)
        for (a, b), nm in zip(parts, names):
            div = np.abs(m.div(h[a:b])).max()
            ref = max(sum(np.abs(m.K[i]*h[a+i]).max() for i in range(m.d)), 1e-300)
            ctx.checked()
            if not div <= lim*ref:
                ctx.fail('divergence', '%s: %s has divergence %.3g (relative)' % (where, nm, div/ref))
        for i in range(h.shape[0]):
            e = reality(ctx, h[i], N, where, key)
            if not e <= lim*10:
                ctx.fail('reality', '%s: component %d is not the transform of a real field: asymmetry %.3g (relative)' % (where, i, e))
        if c['mask']:      # what is masked stays out of everything that had none of it at the start
            clean = np.abs(h0*(1-m.mask)).max() <= lim*np.abs(h0).max()
            bad = np.abs(h*(1-m.mask)).max() if clean else 0
            ctx.checked()
            if not bad <= lim*np.abs(h).max():
                ctx.fail('nyquist', '%s: masked Nyquist modes are filled: %.3g' % (where, bad))
        # without a mask, odd derivatives of Nyquist modes are not those of real fields; only divergence forms keep means then
        if not c['src'] and (c['mask'] or c['conv'] == 'Divergence'):
            z = (slice(None),)+(0,)*m.d
            mean, mean0 = h[z], h0[z]
            if s == 'Bq2D':
                idx = [0, 2]
            elif s == 'VV':
                idx = [0, 1, 2]
            else:
                idx = range(h.shape[0])
            for i in idx:
                ctx.checked()
                if not abs(mean[i]-mean0[i]) <= lim*max(np.abs(h).max(), abs(mean0[i])):
                    ctx.fail('mean', '%s: the mean of component %d is %r instead of %r' % (where, i, mean[i], mean0[i]))
            if s != 'Bq2D' and c['dealias'] != 'None' and c['mask'] and c['integ'] != 'AB2':
                u = m.curl(h)/m.K2i if s == 'VV' else h
                if c['dealias'] == '2/3-rule':
                    # only the modes that take part in products exchange energy without loss
                    for i, n in enumerate(N):
                        u = u*(np.abs(m.k[i]) < n//3)
                en(ctx, float((np.abs(u)**2*w).sum()), where, 1e-6 if single else 1e-9)


def channel(ctx, c, diag, start, snaps, what, en):
    s = c['solver']
    wall = 2 if s == 'KMMr' else 0
    N = [int(n) for n in c['N']]
    L = sim.lengths(c)
    lim = 1e-8 if 'Coupled' in s else 1e-9
    x = diag['x']
    kinds = {}
    for st, t, dt, g in snaps:
        if st not in diag:
            continue
        where = 'after step %d of %s' % (st, what)
        U, div = diag[st]['U'], diag[st]['div']
        if not (np.isfinite(U).all() and np.isfinite(div).all()):
            ctx.fail('nan', '%s: not finite' % where)
        scale = np.abs(U).max()
        ctx.checked(5)
        hi = max(N)/min(L)
        if not np.abs(div).max() <= lim*scale*hi:
            ctx.fail('divergence', '%s: the velocity has divergence %.3g at velocity %.3g' % (where, np.abs(div).max(), scale))
        for i in range(3):
            e = np.abs(walls(x, U[i], wall)).max()
            if not e <= lim*scale:
                ctx.fail('wall', '%s: velocity component %d is %.3g at a wall' % (where, i, e))
        mean = np.abs(U[wall].mean(axis=tuple(a for a in range(3) if a != wall))).max()
        if not mean <= lim*scale:
            ctx.fail('through', '%s: mean flow %.3g in the direction of the walls' % (where, mean))
        if 'phi' in diag[st]:
            b = walls(x, diag[st]['phi'], wall)
            want = diag['phi_walls']
            for j in (0, 1):
                e = np.abs(b[j]-want[j]).max()
                if not e <= lim*10:
                    ctx.fail('temperature', '%s: the temperature at the %s wall differs by %.3g from %r' % (where, ('lower', 'upper')[j], e, want[j]))
        for k in g:
            # the state is that of real fields, and what is masked stays out of it
            axes = (1, 2) if wall == 0 else (0, 1)
            h, h0 = [np.moveaxis(a[k], wall-3, 0) for a in (g, start)]     # (wall, ..., y, z)
            big = max(np.abs(h).max(), 1e-300)
            p = h[..., 0]
            ok = np.ones(p.shape[-1], bool)
            if N[axes[0]] % 2 == 0:
                ok[N[axes[0]]//2] = False
            e = np.abs((p-np.roll(p[..., ::-1], 1, -1).conj())[..., ok]).max()
            ctx.checked()
            if not e <= 1e-9*big:
                ctx.fail('reality', '%s: %s is not the transform of a real field: asymmetry %.3g at %.3g' % (where, k, e, big))
            if c['mask']:
                for a, n in zip((-2, -1), (N[axes[0]], N[axes[1]])):
                    if n % 2 == 0:
                        q, q0 = [np.abs(np.take(x, n//2, axis=a)).max() for x in (h, h0)]
                        if q0 <= 1e-14*big:
                            ctx.checked()
                            ctx.probe('masked_stays_empty')
                            if not q <= 1e-9*big:
                                ctx.fail('nyquist', '%s: masked Nyquist modes of %s are filled: %.3g at %.3g' % (where, k, q, big))
        if 'g' in g:
            # the other stored quantity is the wall-normal vorticity of the same velocity
            one, two = [np.moveaxis(np.fft.fftfreq(n, 1./n)*2*np.pi/l*np.ones((1, 1, n)), -1, a)
                        for a, n, l in [((wall+1) % 3, N[(wall+1) % 3], L[(wall+1) % 3]), ((wall+2) % 3, N[(wall+2) % 3], L[(wall+2) % 3])]]
            h, G = g['U_hat'], g['g']
            one, two = one[tuple(slice(0, m) for m in G.shape)], two[tuple(slice(0, m) for m in G.shape)]
            e = np.abs(1j*(one*h[(wall+2) % 3]-two*h[(wall+1) % 3])-G)
            for a, n in ((1, N[1]), (2, N[2])) if wall == 0 else ((0, N[0]), (1, N[1])):
                if n % 2 == 0:
                    e[(slice(None),)*a+(slice(n//2, n//2+1),)] = 0
            sl = [slice(None)]*3
            sl[wall] = slice(0, N[wall]-2)
            ctx.checked()
            if not e[tuple(sl)].max() <= lim*hi*np.abs(h).max():
                ctx.fail('vorticity', '%s: the stored wall-normal vorticity differs from that of the velocity by %.3g' % (where, e[tuple(sl)].max()))
        if not c['src']:
            w = quadrature(len(x), x)
            e = np.tensordot(w, np.moveaxis((U**2).sum(0), wall, 0), axes=(0, 0)).mean()
            if 'RB' not in s:
                en(ctx, float(e), where, 1e-9)


def quadrature(n, x):
    """Weights that integrate polynomials of degree n-1 given at the points x exactly."""
    V = np.polynomial.chebyshev.chebvander(x, n-1)
    k = np.arange(n)
    with np.errstate(divide='ignore'):
        b = np.where(k % 2 == 0, 2.0/(1-k.astype(float)**2), 0)
    return np.linalg.solve(V.T, b)


def invariants(ctx, case):
    cfg = dict(case['cfg'])
    c = sim.full(cfg)
    en = Energy(c)
    steps = c['steps']
    ch = c['solver'] in sim.CHANNEL
    legs = [(case['n'], c['deco'], steps)]
    if case.get('then'):
        n2, deco2 = case['then'][0]
        cut = case['cut']
        legs = [(case['n'], c['deco'], cut), (n2, deco2, steps)]
    start, d = None, None
    for i, (n, deco, upto) in enumerate(legs):
        rc = dict(cfg, deco=deco)
        if ch:
            rc['diag_at'] = list(range(1, steps+1))
        if upto < steps:
            rc.update(end_at=upto, ckpt=upto)
        d2 = ctx.newdir()
        if i:
            shutil.copy(os.path.join(d, c['name']+'_c.h5'), os.path.join(d2, 'restart.h5'))
            rc['restart'] = 'restart.h5'
            ctx.probe('restarts')
        what = ('continued on ' if i else '') + describe(rc, n)
        res = run(ctx, rc, n, d=d2, what=what)
        if start is None:
            start = sim.gather_start(res['ret'])
        if ch:
            diag = {st: {k: sim.assemble([q['diag'][st][k] for q in res['ret']]) for k in res['ret'][0]['diag'][st]}
                    for st in res['ret'][0].get('diag', {})}
            nw = c['N'][2 if c['solver'] == 'KMMr' else 0]
            diag['x'] = -np.cos(np.pi*(np.arange(nw)+0.5)/nw)[::-1] if c['quad'] == 'GC' else np.cos(np.pi*np.arange(nw)/(nw-1))
            diag['phi_walls'] = (1.0, 0.0)
            channel(ctx, c, diag, start, res['snaps'], what, en)
        else:
            periodic(ctx, c, start, res['snaps'], what, en)
        d = d2


FNS = dict(invariants=invariants)


def one(rng, s, k):
    cfg = gen.config(rng, s)
    if s in sim.CHANNEL:
        cfg['steps'] = rng.choice([4, 6]) if 'Coupled' not in s else 2
        cfg['src'] = rng.choice([0, 0, 0.5])
        cfg['dt'] = rng.choice([0.002, 0.001])
        cv = sim.convections(s)
        cfg['conv'] = cv[k % len(cv)]
        cfg['quad'] = ['GC', 'GL'][k % 2] if s in ('KMM', 'KMMRK3') else 'GC'
    else:
        cfg['steps'] = rng.choice([6, 10])
        cfg['integ'] = rng.choice(['RK4', 'RK4', 'BS5_fixed', 'AB2'])
        cfg['src'] = 0 if s in ('MHD', 'Bq2D') or rng.random() < 0.7 else 0.4
        cfg['dt'] = rng.choice([0.005, 0.01])
        cfg['nu'] = rng.choice([0.01, 0.05])
        cfg['slope'] = rng.choice([2.0, 3.0, 1.0])
        cfg['mask'] = rng.random() < 0.7
        cfg['cut'] = 0.5
        if k % 9 == 8:
            cfg.update(precision='single', mask=False)
    case = dict(fn='invariants', cfg=cfg, n=rng.choice([1, gen.ranks(rng, cfg), gen.ranks(rng, cfg)]), policy=gen.policy(rng))
    if rng.random() < 0.4:
        deco = rng.choice(['slab', 'pencil']) if s not in sim.DOUBLY else 'slab'
        case['then'] = [[gen.ranks(rng, dict(cfg, deco=deco)), deco]]
        case['cut'] = rng.randrange(1, cfg['steps'])
    return case


def cases(tier, seed):
    rng = random.Random('C08-%s' % seed)
    return [one(rng, sim.ALL[k % 12], k//12) for k in range(96) if k < 60 or sim.ALL[k % 12] not in ('Coupled', 'CoupledRK3')]


def more(rng, i):
    return one(rng, rng.choice(sim.ALL), rng.randrange(1000))
