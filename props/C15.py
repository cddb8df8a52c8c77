"""C15: the stand-alone short solver computes the same flow on any number of processes."""
import ast
import random

from .common import *

RULE = ('flow: spectralDNS3D_short.py itself is executed on every simulated rank with a small mesh (its constants replaced when '
        'it is read), from its own initial field or a rough random one put in place before its time loop, on all process counts '
        'that divide the mesh; the velocity it ends with is compared with a sequential numpy model and with one rank.  rhs: its '
        'right-hand side function is called for arbitrary rough states.  whole: the unmodified program, whose own final '
        'assertion has to hold.')
ASSUMES = ['random initial fields and calls of the right-hand side use the global names U, U_hat, dU and ComputeRHS of the program '
           'when it has them; otherwise only its own initial field is used']


def source(kw):
    from dst import env
    path = os.path.join(env.TREE, 'spectralDNS3D_short.py')
    with open(path) as f:
        tree = ast.parse(f.read(), path)
    hit = set()

    class Tr(ast.NodeTransformer):
        def visit_Assign(self, a):
            if len(a.targets) == 1 and isinstance(a.targets[0], ast.Name) and a.targets[0].id in kw:
                if all(isinstance(x, (ast.Constant, ast.BinOp, ast.UnaryOp, ast.operator, ast.unaryop, ast.expr_context))
                       for x in ast.walk(a.value)):
                    hit.add(a.targets[0].id)
                    a.value = ast.copy_location(ast.parse(repr(kw[a.targets[0].id]), mode='eval').body, a.value)
            return a

        def visit_Assert(self, a):
            # what the program asserts about its final energy is for its own constants
            return ast.copy_location(ast.Pass(), a) if kw else a
    tree = ast.fix_missing_locations(Tr().visit(tree))
    return tree, path, hit


def field(N, seed, cut):
    """A rough solenoidal field without the highest modes, on the whole mesh."""
    return sim._periodic_field([N]*3, [2*np.pi]*3, seed, 3, True, 1.0, slope=1.0, cut=cut)


def prog(r, job, cfg):
    kw = {k: cfg[k] for k in ('N', 'T', 'dt', 'nu') if k in cfg}
    tree, path, hit = source(kw)
    ns = {'__name__': '__main__', '__file__': path}
    body = tree.body
    out = dict(ok=True, hit=sorted(hit))
    if set(kw) != hit:
        out['ok'] = False
        return out
    k = next((i for i, s in enumerate(body) if isinstance(s, ast.While)), None)

    def part(stmts):
        exec(compile(ast.Module(body=stmts, type_ignores=[]), path, 'exec'), ns)
    N = cfg.get('N', 64)
    from mpi4py import MPI
    n = MPI.COMM_WORLD.Get_size()
    lo, hi = r*(N//n), (r+1)*(N//n)
    if cfg.get('ic') is not None:
        if k is None:
            out['ok'] = False
            return out
        part(body[:k])
        u = field(N, cfg['ic'], 0.3)
        uh = np.fft.rfftn(u, axes=(1, 2, 3))
        if not ('U' in ns and 'U_hat' in ns and ns['U'].shape == (3, N//n, N, N) and ns['U_hat'].shape == (3, N, N//n, N//2+1)):
            out['ok'] = False
            return out
        ns['U'][:] = u[:, lo:hi]
        ns['U_hat'][:] = uh[:, :, lo:hi]
        part(body[k:])
    else:
        part(body)
    for name in ('U', 't', 'tstep', 'k'):
        if name in ns:
            v = ns[name]
            out[name] = np.array(v) if name == 'U' else v
    if cfg.get('rhs') is not None:
        f = ns.get('ComputeRHS')
        if f is not None and 'U_hat' in ns and 'dU' in ns:
            u = field(N, cfg['rhs'], 0.49)
            uh = np.fft.rfftn(u, axes=(1, 2, 3))
            ns['U'][:] = np.nan if cfg.get('stale') else u[:, lo:hi]
            ns['U_hat'][:] = uh[:, :, lo:hi]
            out['rhs'] = np.array(f(ns['dU'], 1 if cfg.get('stale') else 0))
    return out


class Model:
    def __init__(self, N, nu):
        self.N, self.nu = N, nu
        k = np.fft.fftfreq(N, 1./N)
        kz = np.abs(k[:N//2+1])
        self.K = np.array(np.meshgrid(k, k, kz, indexing='ij'))
        self.K2 = (self.K**2).sum(0)
        self.mask = np.all(np.abs(self.K) < 2./3.*(N//2+1), axis=0)

    def rhs(self, uh):
        K = self.K
        ifft = lambda a: np.fft.irfftn(a, s=(self.N,)*3, axes=(1, 2, 3))
        w = ifft(1j*np.cross(K, uh, axis=0))
        u = ifft(uh)
        h = np.fft.rfftn(np.cross(u, w, axis=0), axes=(1, 2, 3))*self.mask
        h -= K*((K*h).sum(0)/np.where(self.K2 == 0, 1, self.K2))
        return h - self.nu*self.K2*uh

    def run(self, u, dt, T):
        uh = np.fft.rfftn(u, axes=(1, 2, 3))
        t, steps = 0.0, 0
        while t < T-1e-8:
            t += dt
            steps += 1
            k1 = self.rhs(uh)
            k2 = self.rhs(uh+dt/2*k1)
            k3 = self.rhs(uh+dt/2*k2)
            k4 = self.rhs(uh+dt*k3)
            uh = uh + dt/6*(k1+2*k2+2*k3+k4)
        return np.fft.irfftn(uh, s=(self.N,)*3, axes=(1, 2, 3)), t, steps


def tg(N):
    X = np.mgrid[:N, :N, :N].astype(float)*2*np.pi/N
    return np.array([np.sin(X[0])*np.cos(X[1])*np.cos(X[2]), -np.cos(X[0])*np.sin(X[1])*np.cos(X[2]), 0*X[0]])


def flow(ctx, case):
    cfg, n = case['cfg'], case['n']
    what = 'short solver on %s' % describe(cfg, n)
    res = ctx.job(cfg, n, prog=prog)
    ctx.finished(res, what)
    ret = res['ret']
    if not all(q['ok'] for q in ret):
        ctx.probe('program_written_otherwise')
        return
    if not all('U' in q for q in ret):
        ctx.probe('program_written_otherwise')
        return
    N = cfg['N']
    m = Model(N, cfg['nu'])
    u0 = tg(N) if cfg.get('ic') is None else field(N, cfg['ic'], 0.3)
    want, t, steps = m.run(u0, cfg['dt'], cfg['T'])
    got = np.concatenate([q['U'] for q in ret], axis=1)
    compare(ctx, {'U': want}, {'U': got}, 1e-11, what + ' and the sequential model')
    for q in ret:
        if 'tstep' in q and q['tstep'] != steps:
            ctx.fail('steps', '%s: %d steps instead of %d' % (what, q['tstep'], steps))
    if ret[0].get('k') is not None and isinstance(ret[0]['k'], float):
        ctx.checked()
        e = 0.5*(want**2).sum()/N**3
        if not abs(ret[0]['k']-e) <= 1e-9*e:
            ctx.fail('energy', '%s: energy %r instead of %r on the first process' % (what, ret[0]['k'], e))
    if 'rhs' in ret[0]:
        uh = np.fft.rfftn(field(N, cfg['rhs'], 0.49), axes=(1, 2, 3))
        got = np.concatenate([q['rhs'] for q in ret], axis=2)
        compare(ctx, {'dU': m.rhs(uh)}, {'dU': got}, 1e-11, what + ', right-hand side of a rough field', key='rhs')
        ctx.probe('rhs_called')


def whole(ctx, case):
    n = case['n']
    res = ctx.job({}, n, prog=prog, timeout=200)
    ctx.finished(res, 'unmodified short solver on %d ranks' % n)
    ctx.checked()
    u = [q['U'] for q in res['ret'] if 'U' in q]
    if len(u) == n:
        want, t, steps = Model(64, 0.000625).run(tg(64), 0.01, 0.1)
        compare(ctx, {'U': want}, {'U': np.concatenate(u, axis=1)}, 1e-10, 'unmodified short solver on %d ranks and the model' % n)


FNS = dict(flow=flow, whole=whole)


def one(rng, k):
    N = rng.choice([8, 8, 12, 16, 10, 6, 20, 24])
    ns = [n for n in (1, 2, 3, 4, 5, 6, 8) if N % n == 0]
    cfg = dict(N=N, dt=rng.choice([0.01, 0.02, 0.05]), nu=rng.choice([0.000625, 0.02, 0.05]))
    cfg['T'] = cfg['dt']*rng.choice([1, 2, 3, 2.5])
    if rng.random() < 0.75:
        cfg['ic'] = rng.randrange(1000)
    if rng.random() < 0.5:
        cfg['rhs'] = rng.randrange(1000)
        cfg['stale'] = rng.random() < 0.6
    return dict(fn='flow', cfg=cfg, n=rng.choice(ns[1:]+ns), policy=gen.policy(rng))


def cases(tier, seed):
    rng = random.Random('C15-%s' % seed)
    out = [dict(fn='whole', n=4, cfg={}, policy='random'), dict(fn='whole', n=2, cfg={}, policy='pct')]
    return out + [one(rng, k) for k in range(110)]


def more(rng, i):
    return one(rng, i)
