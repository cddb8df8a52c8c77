"""C14: derived fields and integrals are right on every process layout."""
import random

import chanmodel
import refmodel
from dst import gen, sim
from .common import *

RULE = ('derived: a random periodic configuration runs on several ranks and after some steps all derived fields are requested, and '
        'compared with transforms (numpy.fft) of the gathered state; pressure with that of the sequential model.  fields: derived '
        'fields of arbitrary (not solenoidal) states, for channels of polynomial times trigonometric fields whose derivatives are '
        'known exactly.  integral: volume integrals of such fields on all layouts.')


def check_periodic(ctx, c, g, d, what, lim, p=None):
    """Derived fields d of the state g of a periodic solver."""
    m = refmodel.Model(c)
    s = c['solver']
    h = g[refmodel.name(c)]
    want = {}
    if s in ('NS', 'NS2D'):
        want = dict(U=m.bwd(h), curl=m.bwd(m.curl(h)), div=m.bwd(m.div(h)))
    elif s == 'VV':
        want = dict(curl=m.bwd(h), U=m.bwd(m.curl(h)/m.K2i))
    elif s == 'MHD':
        want = dict(UB=m.bwd(h), div=m.bwd(m.div(h[:3])))
    elif s == 'Bq2D':
        want = dict(Ur=m.bwd(h), curl=m.bwd(m.curl(h[:2])), div=m.bwd(m.div(h[:2])), rho=m.bwd(h[2]), vel=m.bwd(h[:2]))
    if p is not None:
        want['P'] = m.bwd(-1j*p)
    scale = np.abs(m.bwd(h)).max()*max(max(m.N[i]/m.L[i] for i in range(m.d)), 1)*3
    for k in sorted(want):
        if k not in d:
            continue
        ctx.checked()
        if want[k].shape != d[k].shape:
            ctx.fail('shape', '%s: %s has shape %s' % (what, k, d[k].shape))
        e = np.abs(want[k]-d[k]).max()
        if not e <= lim*max(np.abs(want[k]).max(), scale if k == 'div' else 0):
            ctx.fail('derived', '%s: %s differs by %.3g from that of the state (largest value %.3g)' % (what, k, e, np.abs(want[k]).max()))


def derived(ctx, case):
    cfg, n = case['cfg'], case['n']
    c = sim.full(cfg)
    lim = 10*tol(cfg)
    what = describe(cfg, n)
    res = run(ctx, cfg, n)
    m, u = refmodel.initial(c)
    step = m.stepper()
    before = 0.0
    for st, t, dt, g in res['snaps']:
        if c['integ'] != 'BS5_adaptive':
            u = step(u, t-before)
        before = t
        if st not in c['diag_at']:
            continue
        d = {k: sim.assemble([q['diag'][st][k] for q in res['ret']]) for k in res['ret'][0]['diag'][st]}
        p = m.p if c['solver'] in ('NS', 'NS2D') and c['integ'] != 'BS5_adaptive' else None
        check_periodic(ctx, c, g, d, 'after step %d of %s' % (st, what), lim, p)


# -- arbitrary states -------------------------------------------------------------------------
def modes(c, seed, solenoidal=False):
    """Random products of a polynomial over the walls and a trigonometric function, with all derivatives."""
    rng = np.random.default_rng([seed, 91])
    L = sim.lengths(c)
    wall = 2 if c['solver'] == 'KMMr' else 0
    o = [(wall+1) % 3, (wall+2) % 3]
    out = []
    for comp in range(3):
        for _ in range(3):
            k = [int(rng.integers(-2, 3)), int(rng.integers(-2, 3))]
            base = [1, 0, -1]
            P = np.polynomial.polynomial
            pol = P.polymul(base, rng.standard_normal(3))
            if comp == wall:
                pol = P.polymul(pol, base)
            out.append((comp, pol, [2*np.pi*k[0]/L[o[0]], 2*np.pi*k[1]/L[o[1]]], float(rng.uniform(0, 6)), float(rng.standard_normal())))
    return wall, o, out


def evaluate(c, ms, X, deriv=None):
    """Vector field (or its derivative along axis `deriv`) at the points X."""
    wall, o, lst = ms
    P = np.polynomial.polynomial
    u = np.zeros((3,)+np.broadcast(*X).shape)
    for comp, pol, k, ph, a in lst:
        arg = k[0]*X[o[0]]+k[1]*X[o[1]]+ph
        if deriv is None:
            f = P.polyval(X[wall], pol)*np.cos(arg)
        elif deriv == wall:
            f = P.polyval(X[wall], P.polyder(pol))*np.cos(arg)
        else:
            f = -k[o.index(deriv)]*P.polyval(X[wall], pol)*np.sin(arg)
        u[comp] += a*f
    return u


def prog_fields(r, job, cfg):
    c = sim.full(cfg)
    solver, context = sim.setup(c)
    s = c['solver']
    if s in sim.CHANNEL:
        ms = modes(c, c['ic'])
        X = [np.asarray(x) for x in context.X]
        context.U[:] = evaluate(c, ms, X)
        solver.set_velocity(**context)
        if s in sim.KMMS:
            sim.set_g(c, context)
        before = {k: sim.grab(v) for k, v in sim.state(c, context).items()}
        out = {'X%d' % i: sim.grab_as(np.array(np.broadcast_to(X[i], context.U.shape[1:])), context.FST) for i in range(3)}
        for k in c.get('ask') or ASK.get(s, ['U', 'div', 'curl']):
            if k == 'U':
                context.U[:] = np.nan
                out[k] = sim.grab(solver.get_velocity(**context))
            elif k == 'div':
                out[k] = sim.grab_as(solver.get_divergence(**context), context.FST)
            elif k == 'grad' and s in sim.KMMS:
                a = solver.compute_derivatives(**context)
                for i in range(9):
                    out['grad%d' % i] = sim.grab_as(np.array(a[i//3, i % 3]), context.FST)
            elif k == 'curl' and s in sim.KMMS:
                a = solver.get_curl(curl=np.full_like(np.asarray(context.u_dealias), np.nan), **context)
                for i in range(3):
                    out['curl%d' % i] = sim.grab_as(np.array(a[i]), context.FSTp)
        state = {k: sim.grab(v) for k, v in sim.state(c, context).items()}
        for v in sim.state(c, context).values():
            v *= 2
        twice = {k: sim.diagnostics(c, solver, context, only=k)[k] for k in ('U', 'div') if k in out}
        return dict(final=out, before=before, state=state, twice=twice)
    N, L = [int(x) for x in c['N']], sim.lengths(c)
    f = np.array
    k = {'MHD': 6, 'Bq2D': 3, 'NS2D': 2}.get(s, 3)
    u = sim._periodic_field(N, L, c['ic'], k, False, 1.0, slope=1.0, cut=0.5)
    a = {'MHD': 'UB', 'Bq2D': 'Ur'}.get(s, 'U')
    context[a][:] = sim._take(u, context.X, L, N)
    if s == 'VV':
        context.U.forward(context.W_hat)
    else:
        context[a].forward(context[a+'_hat'])
    if c.get('noise'):      # every mode, also those a mask or the dealiasing removes from products
        h = context[refmodel.name(c)]
        sl, sh = sim.where(h)
        g = np.random.default_rng([c['ic'], 14])
        g = g.standard_normal(sh)+1j*g.standard_normal(sh)
        h[...] = g[tuple(sl)]
    before = sim.grab(sim.state(c, context)[refmodel.name(c)])
    out = {}
    for k in c.get('ask') or ASK.get(s, ['U', 'div', 'curl']):
        if k == 'vel' and s == 'Bq2D':
            v = solver.get_velocity(**context)
            for i in range(2):
                out['vel%d' % i] = sim.grab_as(v[i], context.T)
        else:
            d = sim.diagnostics(c, solver, context, only=k)
            out.update(d)
    state = sim.grab(sim.state(c, context)[refmodel.name(c)])
    context[refmodel.name(c)][...] *= 2         # the user goes on with another state
    twice = {}
    for k in out:
        if k in ('U', 'UB', 'Ur', 'curl', 'div', 'rho'):
            twice.update(sim.diagnostics(c, solver, context, only=k))
    return dict(final=out, before={refmodel.name(c): before}, state={refmodel.name(c): state}, twice=twice)


def fields(ctx, case):
    cfg, n = case['cfg'], case['n']
    c = sim.full(cfg)
    what = 'arbitrary state, ' + describe(cfg, n)
    res = ctx.job(cfg, n, prog=prog_fields)
    ctx.finished(res, what)
    d = sim.gather_dict(res['ret'], 'final')
    lim = 10*tol(cfg)
    a, b = sim.gather_dict(res['ret'], 'before'), sim.gather_dict(res['ret'], 'state')
    for k in a:
        ctx.checked()
        if not np.array_equal(a[k], b[k], equal_nan=True):
            ctx.fail('disturbed', '%s: asking for %s changes %s' % (what, ', '.join(sorted(d)), k))
    t = sim.gather_dict(res['ret'], 'twice')
    for k in t:
        ctx.checked()
        e, v = np.abs(t[k]-2*d[k]).max(), np.abs(d[k]).max()
        if k != 'div' and not e <= lim*v:
            ctx.fail('stale', '%s: after the state was doubled, %s is not the double (%.3g off at %.3g)' % (what, k, e, v))
        if k == 'div' and not c.get('noise') and not e <= lim*max(v, max(np.abs(x).max() for x in d.values())*max(c['N'])):
            ctx.fail('stale', '%s: after the state was doubled, the divergence is not the double (%.3g off at %.3g)' % (what, e, v))
    if c.get('noise'):
        ctx.probe('noise')
        return
    if c['solver'] not in sim.CHANNEL:
        st = sim.gather_dict(res['ret'], 'state')
        m = refmodel.Model(c)
        h = st[refmodel.name(c)]
        k = len(h)
        u = sim._periodic_field(m.N, m.L, c['ic'], k, False, 1.0, slope=1.0, cut=0.5)
        compare(ctx, {'state': m.fwd(u)}, {'state': h}, tol(cfg), what, key='transform')
        if 'vel0' in d:
            d['vel'] = np.array([d.pop('vel0'), d.pop('vel1')])
        if c['solver'] == 'VV':
            # vorticity must have no divergence for a velocity to exist
            return
        check_periodic(ctx, c, st, d, what, lim)
        return
    X = [d['X%d' % i] for i in range(3)]
    ms = modes(c, c['ic'])
    want = {}
    if 'U' in d:
        want['U'] = evaluate(c, ms, X)
    if 'div' in d:
        want['div'] = sum(evaluate(c, ms, X, i)[i] for i in range(3))
    if 'curl0' in d and d['curl0'].shape == X[0].shape:
        D = [evaluate(c, ms, X, i) for i in range(3)]
        want.update(curl0=D[1][2]-D[2][1], curl1=D[2][0]-D[0][2], curl2=D[0][1]-D[1][0])
        ctx.probe('channel_curl')
    if 'grad0' in d:
        for j in range(3):
            D = evaluate(c, ms, X, j)
            for i in range(3):
                want['grad%d' % (3*i+j)] = D[i]
        ctx.probe('velocity_gradient')
    scale = np.abs(evaluate(c, ms, X)).max()*max(c['N'])
    for k in want:
        ctx.checked()
        e = np.abs(want[k]-d[k]).max()
        if not e <= (1e-9 if 'Coupled' not in c['solver'] else 1e-8)*scale:
            ctx.fail('derived', '%s: %s differs by %.3g from the exact field (largest value %.3g)' % (what, k, e, np.abs(want[k]).max()))


# -- pressure of the channel ------------------------------------------------------------------
def pressure(ctx, case):
    cfg, n = case['cfg'], case['n']
    c = sim.full(cfg)
    what = describe(cfg, n)
    res = run(ctx, cfg, n)
    m = chanmodel.Model(c)
    one = m.n, m.ny, m.nz
    V = np.polynomial.chebyshev.chebvander(m.x, m.n-1)
    full = lambda h, k: np.tensordot(m.S[k].T, h[:m.S[k].shape[0]], axes=(1, 0))
    sound = np.ones(m.K2.shape, bool)           # a Nyquist mode of a product has no phase
    if m.ny % 2 == 0:
        sound[m.ny//2] = False
    if m.nz % 2 == 0:
        sound[:, m.nz//2] = False
    prev = sim.gather_start(res['ret'])
    for st, t, dt, g in res['snaps']:
        if st in c['diag_at']:
            u0, u1 = [chanmodel.turn(c, x['U_hat'], True) for x in (prev, g)]
            um, du = 0.5*(u0+u1), (u1-u0)/dt
            H = m.convection(u1, chanmodel.turn(c, g['g'], False))
            w = full(um[0], 'B')
            r = full(H[0], 'D')+c['nu']*(np.tensordot(m.D @ m.D, w, axes=(1, 0))-m.K2*w)-full(du[0], 'B')
            if 'RB' in c['solver']:
                r += full(g['phi_hat'], 'D')
                r[0, 0, 0] += 0.5
                r[1, 0, 0] -= 0.5
            P = chanmodel.turn(c, sim.assemble([q['diag'][st]['P'] for q in res['ret']]), False)
            ctx.checked()
            if P.shape != one:
                ctx.fail('shape', '%s: the pressure has shape %s' % (what, P.shape))
            if c['conv'] == 'Vortex':
                U = [np.fft.irfft2(np.tensordot(V, full(um[i], k), axes=(1, 0))*m.ny*m.nz, s=one[1:], axes=(1, 2))
                     for i, k in enumerate('BDD')]
                P = P+0.5*sum(x*x for x in U)
            p = np.fft.rfft2(P, axes=(1, 2))/(m.ny*m.nz)
            p = np.linalg.solve(V, p.reshape(m.n, -1)).reshape(p.shape)
            e = np.abs(np.tensordot(m.D, p, axes=(1, 0))-r)[:-1, sound]
            scale = max(np.abs(r).max(), np.abs(du).max(), np.abs(H).max())
            if not e.max() <= 1e-8*scale:
                ctx.fail('pressure', 'after step %d of %s: the wall normal pressure gradient misses the balance of momentum by %.3g '
                         '(largest term %.3g)' % (st, what, e.max(), scale))
            ctx.probe('channel_pressure')
        prev = g


# -- integrals --------------------------------------------------------------------------------
def prog_integral(r, job, cfg):
    c = sim.full(cfg)
    solver, context = sim.setup(c)
    from spectralDNS.utilities import dx
    ms = modes(c, c['ic'])
    X = [np.asarray(x) for x in context.X]
    u = evaluate(c, ms, X)
    out = []
    kw = {} if ms[0] == 0 else {'axis': 2}
    for i in range(3):
        out.append(float(dx(u[i], context.FST, **kw)))
    out.append(float(dx(u[0]*u[0]+u[1]*u[1]+u[2]*u[2], context.FST, **kw)))
    out.append(float(dx(1.0+X[ms[0]]+0*u[0], context.FST, **kw)))
    return out


def exact(c, ms):
    """Integrals over the volume of the components, of the square of the field, and of 1 + x."""
    L = sim.lengths(c)
    wall = ms[0]
    n = 64
    x, w = np.polynomial.legendre.leggauss(n)
    o = ms[1]
    y = np.arange(n)*L[o[0]]/n
    z = np.arange(n)*L[o[1]]/n
    g = [None]*3
    g[wall], g[o[0]], g[o[1]] = x, y, z
    X = np.meshgrid(*g, indexing='ij')
    u = evaluate(c, ms, X)
    W = np.moveaxis(np.broadcast_to(w, (n, n, n)), -1, wall)*(L[o[0]]/n)*(L[o[1]]/n)
    return [float((u[i]*W).sum()) for i in range(3)] + [float(((u**2).sum(0)*W).sum()), 2*L[o[0]]*L[o[1]]]


def integral(ctx, case):
    cfg, n = case['cfg'], case['n']
    c = sim.full(cfg)
    what = describe(cfg, n)
    res = ctx.job(cfg, n, prog=prog_integral)
    ctx.finished(res, 'integrals, ' + what)
    want = exact(c, modes(c, c['ic']))
    scale = max(abs(x) for x in want)
    for i, w in enumerate(want):
        if i == 3 and c['N'][2 if c['solver'] == 'KMMr' else 0] < 16:
            continue        # a polynomial of degree 12 is not resolved
        ctx.checked()
        if not abs(res['ret'][0][i]-w) <= 1e-10*scale:
            ctx.fail('integral', 'the integral of %s is %r instead of %r on rank 0, %s'
                     % (['u0', 'u1', 'u2', '|u|^2', '1+x'][i], res['ret'][0][i], w, what))


FNS = dict(derived=derived, fields=fields, integral=integral, pressure=pressure)
ASK = {'NS': ['U', 'curl', 'div'], 'NS2D': ['U', 'curl', 'div'], 'VV': ['curl'], 'MHD': ['UB', 'div'], 'Bq2D': ['Ur', 'vel', 'curl', 'div', 'rho']}


def one(rng, fn, s, k):
    if fn == 'derived':
        cfg = gen.config(rng, s)
        cfg['steps'] = rng.choice([2, 3, 4])
        cfg['diag_at'] = sorted(rng.sample(range(1, cfg['steps']+1), rng.choice([1, 2])))
        if rng.random() < 0.2:
            cfg.update(precision='single', mask=False, dt=0.01)
        if cfg['integ'] == 'BS5_adaptive':
            cfg['TOL'] = 1e-4
    elif fn == 'pressure':
        cfg = gen.config(rng, s, conv=rng.choice(['Vortex', 'Vortex']+sim.convections(s)), mask=True)
        cfg['steps'] = rng.choice([1, 2, 3]) if cfg['conv'] == 'Vortex' else 1
        cfg['diag_at'] = sorted(rng.sample(range(1, cfg['steps']+1), 1))
    else:
        cfg = gen.config(rng, s)
        for x in ('steps', 'src', 'integ'):
            cfg.pop(x, None)
        if s in sim.CHANNEL:
            per = [rng.choice([8, 10, 12]), rng.choice([8, 10, 12])]
            nw = rng.choice([16, 17, 18, 20]) if 'Coupled' not in s else rng.choice([12, 10])
            cfg['N'] = per+[nw] if s == 'KMMr' else [nw]+per
            cfg['quad'] = rng.choice(['GC', 'GL'])
            cfg['ask'] = rng.sample(['U', 'div', 'curl', 'grad'], 4)
            if fn == 'fields' and 'curl' in cfg['ask']:
                cfg['dealias'] = 'None' if rng.random() < 0.7 else cfg['dealias']
                if cfg['dealias'] == '2/3-rule':
                    cfg['dealias'] = 'None'
        else:
            cfg['ask'] = rng.sample(ASK[s], len(ASK[s]))
            if fn == 'fields' and k % 5 == 4:
                cfg['noise'] = True
    n = rng.choice([1, gen.ranks(rng, cfg), gen.ranks(rng, cfg)])
    return dict(fn=fn, cfg=cfg, n=n, policy=gen.policy(rng))


def cases(tier, seed):
    rng = random.Random('C14-%s' % seed)
    out = []
    P = sim.TRIPLY+sim.DOUBLY
    for k in range(40):
        out.append(one(rng, 'derived', P[k % 5], k))
    for k in range(48):
        out.append(one(rng, 'fields', sim.ALL[k % 12], k))
    for k in range(42):
        out.append(one(rng, 'integral', sim.CHANNEL[k % 7], k))
    rng = random.Random('C14-pressure-%s' % seed)
    return out + [one(rng, 'pressure', sim.PRESSURE[k % 3], k) for k in range(18)]


def more(rng, i):
    fn = rng.choice(['derived', 'fields', 'integral', 'pressure'])
    s = rng.choice({'derived': sim.TRIPLY+sim.DOUBLY, 'fields': sim.ALL, 'integral': sim.CHANNEL, 'pressure': sim.PRESSURE}[fn])
    return one(rng, fn, s, i)
