"""What a user of spectralDNS writes: set up, initialise, solve, restart.  Runs on every simulated rank.

Every entry point takes a plain dict (JSON) describing the run, so that a case can be stored in a
replay file, shrunk, and run again.
"""
import os
import time

import numpy as np

class Broken(Exception):
    """What the ranks hold does not fit together."""


TRIPLY = ('NS', 'VV', 'MHD')
DOUBLY = ('NS2D', 'Bq2D')
CHANNEL = ('KMM', 'KMMr', 'KMMRK3', 'KMM_RB', 'KMMRK3_RB', 'Coupled', 'CoupledRK3')
KMMS = ('KMM', 'KMMr', 'KMMRK3', 'KMM_RB', 'KMMRK3_RB')
PRESSURE = ('KMM', 'KMMr', 'KMM_RB')         # channel solvers that compute the pressure
ALL = TRIPLY + DOUBLY + CHANNEL


def mesh_of(solver):
    return 'triplyperiodic' if solver in TRIPLY else 'doublyperiodic' if solver in DOUBLY else 'channel'


def convections(solver):
    if solver == 'NS':
        return ['Vortex', 'Standard', 'Divergence', 'Skewed']
    if solver in ('VV', 'NS2D', 'Bq2D'):
        return ['Vortex']
    if solver == 'MHD':
        return ['Divergence']
    return ['Vortex', 'Standard', 'Divergence', 'Skew']


DEFAULT = dict(solver='NS', N=[8, 8, 8], L=[1, 1, 1], conv=None, integ='RK4', dealias='2/3-rule', deco='slab',
               mask=True, precision='double', opt='', nu=0.01, dt=0.02, steps=3, write=10**8, ckpt=10**8,
               mode='w', ic=1, amp=1.0, profile=0, name='results', verbose=True, quad='GC', src=0)


def full(cfg):
    c = dict(DEFAULT)
    s = cfg.get('solver', 'NS')
    if s in DOUBLY:
        c.update(N=[16, 16], L=[1, 1])
    elif s in CHANNEL:
        c.update(N=[16, 8, 8], L=[2, 1, 1], integ='implicit', nu=0.05, dt=0.005)
        if s == 'KMMr':
            c.update(N=[8, 8, 16], L=[1, 1, 2])
    c.update(cfg)
    if c['conv'] is None:
        c['conv'] = convections(c['solver'])[0]
    return c


def lengths(c):
    """L is given in units of 2 pi for periodic directions, absolute for the wall-normal one."""
    wall = {'KMMr': 2}.get(c['solver'], 0) if c['solver'] in CHANNEL else None
    return [float(l) if i == wall else float(2*np.pi*l) for i, l in enumerate(c['L'])]


# ---------------------------------------------------------------------------------------------
# initial conditions: functions of the global mesh index / coordinate, never of the decomposition

def _periodic_field(N, L, seed, ncomp, solenoidal, amp, slope=2.0, cut=None):
    """Random real field on the global mesh, given as physical values (ncomp, *N)."""
    rng = np.random.default_rng([seed, 77])
    d = len(N)
    K = np.meshgrid(*[np.fft.fftfreq(n, 1./n) for n in N], indexing='ij')
    Ks = [k*2*np.pi/l for k, l in zip(K, L)]
    out = []
    kk = np.sqrt(sum((k/(n/2.))**2 for k, n in zip(K, N)))
    filt = 1./(1. + (4*kk)**slope)
    if cut is not None:
        for k, n in zip(K, N):
            filt = filt*(np.abs(k) < cut*n)
    for i in range(ncomp):
        out.append(np.fft.fftn(rng.standard_normal(N))*filt)
    out = np.array(out)
    if solenoidal:
        # drop Nyquist modes: an odd derivative is not defined for them
        for k, n in zip(K, N):
            if n % 2 == 0:
                out = out*(np.abs(k) != n//2)
        K2 = sum(k*k for k in Ks)
        dot = sum(Ks[i]*out[i] for i in range(d))/np.where(K2 == 0, 1, K2)
        for i in range(d):
            out[i] -= Ks[i]*dot
    out = np.fft.ifftn(out, axes=tuple(range(1, d+1))).real
    return out*(amp/np.sqrt(np.mean(out**2)))


def _take(glob, X, L, N):
    """The values of a global periodic array at the local mesh points X."""
    idx = []
    for i in range(len(N)):
        x = np.asarray(X[i], dtype=float)
        j = np.rint(x*N[i]/L[i]).astype(int) % N[i]
        assert np.allclose(j*L[i]/N[i], x, atol=1e-4*L[i]/N[i]), 'mesh coordinates are not the mesh'
        idx.append(np.broadcast_to(j, np.broadcast(*X).shape))
    return glob[(slice(None),)+tuple(idx)]


def _channel_field(X, Ls, wall, seed, amp, nmodes=6, kmax=2):
    """Solenoidal no-slip field u = curl A at local mesh points; axes ordered as the solver orders them."""
    rng = np.random.default_rng([seed, 78])
    o = [(wall+1) % 3, (wall+2) % 3]
    x, y, z = X[wall], X[o[0]], X[o[1]]
    shp = np.broadcast(*X).shape
    u = np.zeros((3,)+shp)
    P = np.polynomial.polynomial
    for m in range(nmodes):
        ky = rng.integers(-kmax, kmax+1)*2*np.pi/Ls[o[0]]
        kz = rng.integers(-kmax, kmax+1)*2*np.pi/Ls[o[1]]
        ph = rng.uniform(0, 2*np.pi)
        w2 = P.polymul([1, 0, -1], [1, 0, -1])
        ax = P.polymul([1, 0, -1], rng.standard_normal(3))
        ay = P.polymul(w2, rng.standard_normal(3))
        az = P.polymul(w2, rng.standard_normal(3))
        C, S = np.cos(ky*y+kz*z+ph), -np.sin(ky*y+kz*z+ph)
        u[wall] += P.polyval(x, az)*ky*S - P.polyval(x, ay)*kz*S
        u[o[0]] += P.polyval(x, ax)*kz*S - P.polyval(x, P.polyder(az))*C
        u[o[1]] += P.polyval(x, P.polyder(ay))*C - P.polyval(x, ax)*ky*S
    s = amp/(2.0*np.sqrt(nmodes))
    u *= s
    u[o[0]] += 0.7*amp*(1-x**2)
    u[o[1]] += 0.3*amp*(1-x**2)*(1+0.3*x)
    return u


def _scalar_channel(X, Ls, seed):
    rng = np.random.default_rng([seed, 79])
    x, y, z = X
    f = 0.5*(1-x) + np.zeros(np.broadcast(*X).shape)
    # the temperature basis is 1 at x = -1... its boundary values come from the solver's own basis
    for m in range(4):
        ky = rng.integers(-2, 3)*2*np.pi/Ls[1]
        kz = rng.integers(-2, 3)*2*np.pi/Ls[2]
        f = f + 0.1*(1-x**2)*(rng.standard_normal()+rng.standard_normal()*x)*np.cos(ky*y+kz*z+rng.uniform(0, 6))
    return f


# ---------------------------------------------------------------------------------------------
def setup(c, extra=None, **kw):
    """Configure, choose the solver, create the context: the calls every demo makes."""
    from spectralDNS import config, get_solver
    s = c['solver']
    mesh = mesh_of(s)
    L = lengths(c)
    new = dict(nu=c['nu'], dt=c['dt'], T=c.get('T', c['dt']*c['steps']), L=L, dealias=c['dealias'],
               decomposition=c['deco'], mask_nyquist=bool(c['mask']), precision=c['precision'],
               write_result=c['write'], checkpoint=c['ckpt'], filemode=c['mode'], h5filename=c['name'],
               make_profile=c['profile'], verbose=bool(c['verbose']), convection=c['conv'])
    N = list(c['N'])
    if all(n & (n-1) == 0 for n in N) and not c.get('all'):
        new['M'] = [n.bit_length()-1 for n in N]
    else:
        new['N'] = N
        new['M'] = [max(1, int(np.log2(n))) for n in N]
    if c['opt'] or c.get('all'):
        new['optimization'] = c['opt']
    args = [s]
    if mesh != 'channel':
        new['integrator'] = c['integ']
        if 'TOL' in c:
            new['TOL'] = c['TOL']
    else:
        new['Dquad'] = new['Bquad'] = new['Nquad'] = c['quad']
    for key in ('kappa', 'Re_tau'):
        if key in c:
            new[key] = c[key]
    if 't' in c:
        new['t'] = c['t']
    if 'tstep' in c:
        new['tstep'] = c['tstep']
    if s == 'MHD':
        args += ['--eta', repr(float(c.get('eta', 0.02)))]
    if s == 'Bq2D':
        args += ['--Ri', repr(float(c.get('Ri', 0.3))), '--Pr', repr(float(c.get('Pr', 0.7)))]
    if 'RB' in s:
        new['kappa'] = c.get('kappa', 0.04)
    if extra:
        new.update(extra)
    config.update(new, mesh)
    solver = get_solver(mesh=mesh, parse_args=args, **kw)
    solver_file(c)
    context = solver.get_context()
    context.hdf5file.filename = c['name']
    for name, spec in c.get('slices', ()):
        lst = context.hdf5file.results['data'][name]
        lst.append((lst[0], [slice(None) if x is None else x for x in spec]))
    return solver, context


def solver_file(c):
    pass


def initialize(c, solver, context):
    s = c['solver']
    N, L = [int(n) for n in c['N']], lengths(c)
    X = context.X
    seed, amp = c['ic'], c['amp']
    kw = dict(slope=c.get('slope', 2.0), cut=c.get('cut'))
    if s in TRIPLY:
        u = _periodic_field(N, L, seed, 3, True, amp, **kw)
        if s == 'MHD':
            b = _periodic_field(N, L, seed+1000, 3, True, 0.7*amp, **kw)
            context.UB[:3] = _take(u, X, L, N)
            context.UB[3:] = _take(b, X, L, N)
            context.UB.forward(context.UB_hat)
        else:
            context.U[:] = _take(u, X, L, N)
            solver.set_velocity(**context)
            if s == 'VV':
                solver.cross2(context.W_hat, context.K, context.U_hat)
    elif s == 'NS2D':
        context.U[:] = _take(_periodic_field(N, L, seed, 2, True, amp, **kw), X, L, N)
        solver.set_velocity(**context)
    elif s == 'Bq2D':
        context.Ur[:2] = _take(_periodic_field(N, L, seed, 2, True, amp, **kw), X, L, N)
        context.Ur[2] = _take(_periodic_field(N, L, seed+1000, 1, False, amp, **kw), X, L, N)[0]
        context.Ur.forward(context.Ur_hat)
    else:
        wall = 2 if s == 'KMMr' else 0
        U = context.U
        U[:] = _channel_field(X, L, wall, seed, amp)
        U_hat = solver.set_velocity(**context)
        if context.mask is not None:
            for i in range(3):
                U_hat[i].mask_nyquist(context.mask)
        if s in KMMS:
            set_g(c, context)
        if 'RB' in s:
            context.phi[:] = _scalar_channel(X, L, seed)
            context.phi.forward(context.phi_hat)
            if context.mask is not None:
                context.phi_hat.mask_nyquist(context.mask)
            if 'RK3' not in s:
                context.phi_hat0[:] = context.phi_hat
                context.phi_hat1[:] = context.phi_hat
        if 'RK3' not in s:
            if s == 'Coupled':
                context.UP_hat0[:] = context.UP_hat
            else:
                context.U_hat0[:] = context.U_hat
            context.H_hat1[:] = solver.get_convection(**context)
    set_source(c, context)


def set_g(c, context):
    K, U_hat = context.K, context.U_hat
    if c['solver'] == 'KMMr':
        context.g[:] = 1j*K[0]*U_hat[1] - 1j*K[1]*U_hat[0]
    else:
        context.g[:] = 1j*K[1]*U_hat[2] - 1j*K[2]*U_hat[1]


def set_source(c, context):
    if not c['src']:
        return
    s = c['solver']
    if s in CHANNEL:
        i = 0 if s == 'KMMr' else 1
        context.Source[:] = 0
        context.Source[i] = -float(c['src'])
        context.Sk[:] = 0
        context.Sk[i] = context.FST.scalar_product(context.Source[i], context.Sk[i])
        if s == 'KMMr':
            context.Sk[i][..., -2:] = 0
    elif s in ('NS', 'VV', 'NS2D'):
        # a steady solenoidal body force, given in spectral space as the demo for isotropic flow does
        N, L = [int(n) for n in c['N']], lengths(c)
        f = _periodic_field(N, L, c['ic']+5, 3 if s != 'NS2D' else 2, True, float(c['src']), cut=0.2)
        from shenfun import Array
        a = Array(context.VT)
        a[:] = _take(f, context.X, L, N)
        context.Source[:] = context.VT.forward(a, context.Source)


# ---------------------------------------------------------------------------------------------
def state(c, context):
    """The variables that the solver advances, by name: the whole state of the simulation."""
    s = c['solver']
    if s == 'VV':
        return {'W_hat': context.W_hat}
    if s == 'MHD':
        return {'UB_hat': context.UB_hat}
    if s == 'Bq2D':
        return {'Ur_hat': context.Ur_hat}
    if s in KMMS:
        d = {'U_hat': context.U_hat, 'g': context.g}
        if 'RB' in s:
            d['phi_hat'] = context.phi_hat
        return d
    if s in ('Coupled', 'CoupledRK3'):
        return {'U_hat': context.U_hat, 'P_hat': context.P_hat}
    return {'U_hat': context.U_hat}


def where(f):
    """(local slices, global shape) of a shenfun Function/Array."""
    V = f.function_space()
    spectral = f.forward_output if hasattr(f, 'forward_output') else True
    sl = V.local_slice(spectral)
    sh = V.global_shape(spectral)
    n = f.ndim
    sl, sh = tuple(sl)[-n:], tuple(sh)[-n:]
    extra = n - len(sl)
    sl = (slice(0, f.shape[0]),)*extra + sl if extra else sl
    sh = tuple(f.shape[:extra]) + sh if extra else sh
    sl = tuple(slice(a.start or 0, (a.start or 0)+m) for a, m in zip(sl, f.shape))
    return sl, sh


def grab(f):
    sl, sh = where(f)
    return (tuple((a.start, a.stop) for a in sl), sh, np.array(f))


def assemble(parts):
    """Global array from the (slices, shape, local array) of every rank."""
    sh = parts[0][1]
    G = np.full(sh, np.nan, dtype=parts[0][2].dtype)
    cover = np.zeros(sh, dtype=np.int8)
    for sl, sh2, a in parts:
        if tuple(sh2) != tuple(sh):
            raise Broken('ranks disagree about the global shape of a field: %s and %s' % (sh, sh2))
        s = tuple(slice(*x) for x in sl)
        G[s] = a
        cover[s] += 1
    if not (cover == 1).all():
        raise Broken('the local parts of a field do not tile the global array')
    return G


def snapshot(c, context):
    return {k: grab(v) for k, v in state(c, context).items()}


def velocity_part(c, parts_or_glob):
    return parts_or_glob


# ---------------------------------------------------------------------------------------------
def restart(c, solver, context, path):
    """Continue from a checkpoint file, as demo/MKM.py does: fields by step, then t and tstep."""
    import h5py
    s = c['solver']
    name = {'VV': 'curl', 'MHD': 'UB', 'Bq2D': 'Ur', 'Coupled': 'UP', 'CoupledRK3': 'UP'}.get(s, 'U')
    f = h5py.File(path, 'r', driver='mpio', comm=solver.comm)
    t, tstep = float(f.attrs['t']), int(f.attrs['tstep'])

    def load(u, nm, key):
        sl = where(u)[0]
        for d in [k for k in f[nm] if k.endswith('D')]:
            grp = f[nm][d]
            u[:] = grp[str(key)][sl]
    u = {'VV': 'W_hat', 'MHD': 'UB_hat', 'Bq2D': 'Ur_hat', 'Coupled': 'UP_hat', 'CoupledRK3': 'UP_hat'}.get(s, 'U_hat')
    u = context[u]
    if s in ('KMM', 'KMMr', 'KMM_RB', 'Coupled'):
        load(u, name, 1)
        if s != 'Coupled':
            set_g(c, context)
        context.H_hat1[:] = solver.get_convection(**context)
    load(u, name, 0)
    if s in KMMS:
        set_g(c, context)
    if s in ('KMM', 'KMMr', 'KMM_RB'):
        context.U_hat0[:] = context.U_hat
    if s == 'Coupled':
        context.UP_hat0[:] = context.UP_hat
    if 'RB' in s:
        if 'RK3' not in s:
            load(context.phi_hat1, 'phi', 1)
            load(context.phi_hat0, 'phi', 0)
        load(context.phi_hat, 'phi', 0)
    f.close()
    set_source(c, context)
    solver.params.t = t
    solver.params.tstep = tstep
    return t, tstep


# ---------------------------------------------------------------------------------------------
def diagnostics(c, solver, context, only=None):
    """Everything a user can derive from the state (or one such field), as global pieces."""
    s = c['solver']
    p = dict(context)
    ask = {}
    if s == 'MHD':
        ask['UB'] = lambda: grab(context.UB_hat.backward(context.UB))
        ask['div'] = lambda: grab(solver.get_divergence(**p))
    elif s == 'Bq2D':
        ask['Ur'] = lambda: grab(solver.get_Ur(**p))
        ask['curl'] = lambda: grab(solver.get_curl(**p))
        ask['div'] = lambda: grab(solver.get_divergence(**p))
        ask['rho'] = lambda: grab_as(solver.get_rho(**p), context.T)
    else:
        ask['U'] = lambda: grab(solver.get_velocity(**p))
        if s in ('NS', 'VV', 'NS2D'):
            ask['curl'] = lambda: grab(solver.get_curl(**p))
        if s in ('NS', 'NS2D'):
            ask['P'] = lambda: grab(solver.get_pressure(**p))
        ask['div'] = lambda: grab_as(solver.get_divergence(**p), context.T if s in TRIPLY+DOUBLY else context.FST)
        if s in PRESSURE:
            ask['P'] = lambda: grab_as(solver.get_pressure(context, solver), context.FCT)
        if 'RB' in s:
            ask['phi'] = lambda: grab(context.phi_hat.backward(context.phi))
    return {k: f() for k, f in ask.items() if only in (None, k)}


def extras(c, solver, context):
    """What else a user may compute for a channel flow, as this process's own arrays."""
    if c['solver'] in TRIPLY+DOUBLY:
        return {}
    from spectralDNS.utilities import dx
    U = np.array(solver.get_velocity(**context))
    kw = {'axis': 2} if c['solver'] == 'KMMr' else {}
    out = {'dx': np.array([float(dx(u*u, context.FST, **kw)) for u in U])}
    if hasattr(solver, 'compute_derivatives'):
        out['derivatives'] = np.array(solver.compute_derivatives(**context))
    if hasattr(solver, 'get_curl'):
        out['curl'] = np.array(solver.get_curl(curl=np.empty_like(np.asarray(context.u_dealias)), **context))
    return out


def grab_as(a, T):
    sl = T.local_slice(False)
    sh = T.global_shape(False)
    return (tuple((x.start or 0, (x.start or 0)+n) for x, n in zip(sl, a.shape)), tuple(sh), np.array(a))


def program(r, job, cfg):
    """Several simulations one after another in one program.  Parts with the same `ctx` share a context, which every part
    with `init` initialises afresh, and the others advance further."""
    from spectralDNS import config
    made, at, out = {}, {}, []
    for part in cfg['program']:
        c, key = part['cfg'], part['ctx']
        res, made[key] = simulate(r, job, dict(c, all=True), made.get(key), None if part['init'] else at[key])
        at[key] = res['end'][:2]
        out.append(res)
    return out


def simulate(r, job, cfg, made=None, at=None):
    """One rank's part of a complete simulation run, from import to the end of solve().

    made: (solver, context) to go on with; at: step and time where to go on, without new initial fields"""
    from spectralDNS import config, solve
    c = full(cfg)
    res = dict(snaps=[], calls=[], stages=[])

    def stage(ctx):
        """The user's callback of the embedded integrator: after F(u) is known, and when an attempt is rejected."""
        if ctx.get('is_step_rejected_callback'):
            ctx.is_step_rejected_callback = False
            res['stages'].append((int(config.params.tstep), 'rejected', float(ctx.dt_rejected)))
        else:
            u = list(state(c, ctx).values())[0]
            sl, sh = where(u)
            res['stages'].append((int(config.params.tstep), 'begun', (tuple((a.start, a.stop) for a in sl), sh, np.array(ctx.fu0))))
    if made is None:
        solver, context = setup(c, **(dict(additional_callback=stage) if c.get('stages') else {}))
    else:
        solver, context = made
        for k in ('dt', 'nu', 'T'):
            if k in c:
                setattr(config.params, k, c[k])
        config.params.T = c.get('T', c['dt']*c['steps'])
        config.params.convection = c['conv']
        if c['solver'] not in CHANNEL:
            config.params.integrator = c['integ']
    params = config.params
    if at is not None:
        params.tstep, params.t = at
    elif c.get('restart'):
        restart(c, solver, context, c['restart'])
        if c.get('as_new'):
            params.t, params.tstep = 0.0, 0
    else:
        initialize(c, solver, context)
        if 't' not in c:
            params.t = 0.0
        if 'tstep' not in c:
            params.tstep = 0
    if c.get('T_more') is not None:
        params.T = params.t + c['T_more']
    res['start'] = (int(params.tstep), float(params.t), snapshot(c, context))
    every = c.get('every', 1)
    diag_at = c.get('diag_at') or ()

    def update(ctx):
        d = (int(params.tstep), float(params.t), float(params.dt))
        res['calls'].append(('update',)+d)
        job.obs.append((r, 'update') + d)
        job.marks.append((job.nev, r, 'update %d' % d[0]))
        job.clocks.append((r, 'update', d[0]))
        if c.get('peek'):                       # a user may look at the fields before
            diagnostics(c, solver, ctx)
        for st, f in c.get('nudge', ()):        # a user may change the solution between steps
            if st == params.tstep:
                for v in state(c, ctx).values():
                    v *= f
        sn = snapshot(c, ctx) if params.tstep % every == 0 else None
        if params.tstep in diag_at:
            res.setdefault('diag', {})[int(params.tstep)] = diagnostics(c, solver, ctx)
        res['snaps'].append(d + (sn,))
        if c.get('touch'):
            touch(c, solver, ctx)
        for st, dt in c.get('kick', ()):        # a user may set the next step size
            if st == params.tstep:
                params.dt = dt

    def final(ctx):
        res['calls'].append(('regression_test', int(params.tstep), float(params.t), float(params.dt)))

    solver.update = update
    solver.regression_test = final
    if c.get('end_at') is not None:
        was = solver.end_of_tstep

        def early(ctx):
            return was(ctx) or params.tstep >= c['end_at']
        solver.end_of_tstep = early
    segs = c.get('segments')
    if not segs:
        solve(solver, context)
    else:
        res['segs'] = []
        for T in segs:
            params.T = T
            if c.get('pause'):
                time.sleep(c['pause'])
            job.clocks.append((r, 'solve', job.peek(r)))
            solve(solver, context)
            res['segs'].append((int(params.tstep), float(params.t), float(params.dt), snapshot(c, context)))
    res['end'] = (int(params.tstep), float(params.t), float(params.dt))
    if c.get('diag'):
        res['final'] = diagnostics(c, solver, context)
    if c.get('extras'):
        res['extras'] = extras(c, solver, context)
    return (res, (solver, context)) if c.get('all') else res


def touch(c, solver, ctx):
    """A user callback that looks at derived fields every step must not disturb the run."""
    if c['touch'] == 'scramble':
        # between steps no work array holds anything that is still needed
        for a in list(getattr(getattr(ctx, 'work', None), '_data', {}).values()):
            a[...] = float('nan') if a.dtype.kind in 'fc' else 77
        return
    diagnostics(c, solver, ctx)


def gather(ret, key='snaps'):
    """[(tstep, t, dt, {name: global array} | None)] from every rank's result, checked for agreement."""
    n = len(ret)
    out = []
    for i, sn in enumerate(ret[0][key]):
        g = None
        if sn[3] is not None:
            g = {k: assemble([ret[r][key][i][3][k] for r in range(n)]) for k in sn[3]}
        out.append(sn[:3] + (g,))
    return out


def gather_start(ret):
    return {k: assemble([q['start'][2][k] for q in ret]) for k in ret[0]['start'][2]}


def gather_dict(ret, key):
    return {k: assemble([q[key][k] for q in ret]) for k in ret[0][key]}


def diff(a, b):
    """Largest difference of two arrays relative to the largest value; NaN counts as infinite."""
    d = np.abs(a-b)
    if not np.isfinite(d).all():
        return float('inf')
    s = max(float(np.abs(a).max()), float(np.abs(b).max()), 1e-300)
    return float(d.max())/s if d.size else 0.0
