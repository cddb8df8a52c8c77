"""C20: a simulation does not depend on those run before it, or beside it, in the same program."""
import random

from dst import gen, sim
from .common import *

RULE = ('A case runs a program of several simulations one after another on several simulated ranks: other solvers, meshes, integrators and '
        'step sizes before, the same context initialised anew, or two contexts advanced in turns.  After every step of each '
        'simulation the gathered state, and at the end its files, are compared with those of a program that runs this simulation only.')


def alone(ctx, parts, n):
    """Histories of the parts of one context when nothing else is run."""
    if len(parts) == 1:
        c = dict(parts[0]['cfg'])
        res = run(ctx, c, n)
        return [res['snaps']], res['dir']
    c = dict(parts[0]['cfg'])
    res = run(ctx, dict(c, segments=[p['cfg']['T'] for p in parts]), n)
    out, i = [], 0
    for p in parts:
        k = [s for s in res['snaps'][i:] if s[1] <= p['cfg']['T']+1e-9]
        out.append(k)
        i += len(k)
    return out, res['dir']


def together(ctx, case):
    n, parts = case['n'], case['parts']
    what = 'in a program of %d simulations on %d ranks' % (len(parts), n)
    res = ctx.job(dict(program=parts), n, prog=sim.program)
    ctx.finished(res, what + ': ' + json.dumps([dict(p['cfg'], ctx=p['ctx']) for p in parts], sort_keys=True))
    runs = {}
    for i, p in enumerate(parts):       # the parts that continue each other make one simulation
        if p['init']:
            runs[p['ctx']] = i
        p = dict(p, no=i, head=runs[p['ctx']])
        case.setdefault('_', []).append(p)
    ps = case.pop('_')
    for h in sorted({p['head'] for p in ps}):
        mine = [p for p in ps if p['head'] == h]
        want, d = alone(ctx, mine, n)
        for p, w in zip(mine, want):
            got = sim.gather([q[p['no']] for q in res['ret']])
            ctx.stats['steps'] += len(got)
            me = 'simulation %d (%s) %s' % (p['no']+1, describe(p['cfg']), what)
            finite(ctx, w, me)
            same_states(ctx, w, got, tol(p['cfg']), me)
        name = mine[0]['cfg'].get('name')
        for suf in ('_w.h5', '_c.h5') if name else ():
            a, b = os.path.join(d, name+suf), os.path.join(res['dir'], name+suf)
            if os.path.exists(a) != os.path.exists(b):
                ctx.fail('files', '%s: %s is %s' % (me, name+suf, 'missing' if os.path.exists(a) else 'not expected'))
            if os.path.exists(a):
                fa, fb = fakeh5.read_file(a), fakeh5.read_file(b)
                if sorted(fa) != sorted(fb):
                    ctx.fail('files', '%s: %s differs in %s' % (me, name+suf, sorted(set(fa) ^ set(fb))[:6]))
                for k in fa:
                    x, y = np.asarray(fa[k]), np.asarray(fb[k])
                    if x.dtype.kind in 'fciu':
                        compare(ctx, {k: x}, {k: y}, 10*tol(mine[0]['cfg']), me + ': ' + name+suf, key='files')


FNS = dict(together=together)


def fresh(rng, k, name, small=True):
    s = sim.ALL[k % 12]
    cfg = gen.config(rng, s)
    cfg.pop('name', None)
    if s not in sim.CHANNEL:
        cfg['integ'] = rng.choice(gen.INTEGRATORS)
        if cfg['integ'] == 'BS5_adaptive':
            cfg.update(TOL=rng.choice([1e-4, 1e-6]), slope=3.0, dt=0.01)
    cfg['name'] = name
    cfg['steps'] = 2
    if rng.random() < 0.4:
        cfg['write'] = 1
    if rng.random() < 0.4:
        cfg['ckpt'] = rng.choice([1, 2])
    return cfg


def sequence(rng, k):
    """Different simulations."""
    cs = [fresh(rng, k, 'a'), fresh(rng, rng.choice([k, rng.randrange(12)]), 'b'), fresh(rng, k+rng.choice([0, 0, 1, 2, 5]), 'c')]
    if 'Coupled' in cs[1]['solver']:
        cs[1] = fresh(rng, 5, 'b')
    two = [c['solver'] in sim.DOUBLY for c in cs]
    if k % 3 == 0 and (all(two) or not any(two)):       # kernels are chosen for one dimension and precision per program
        opt = rng.choice(['cython', 'pythran'])
        for c in cs:
            c['opt'] = opt
    else:
        for c in cs:
            if c['solver'] not in sim.CHANNEL and c['integ'] != 'BS5_adaptive' and rng.random() < 0.2:
                c.update(precision='single', mask=False)
    n = min(gen.ranks(rng, c) for c in cs)
    return [dict(cfg=c, ctx=i, init=True) for i, c in enumerate(cs)], n


def study(rng, k):
    """The same simulation with some parameters varied, as in a refinement study; every one has its own context."""
    c = fresh(rng, k, None)
    for x in ('name', 'write', 'ckpt'):
        c.pop(x, None)
    if rng.random() < 0.3 and 'Vortex' in sim.convections(c['solver']):
        c['conv'] = 'Vortex'
    cs = [c]
    for i in range(2 if 'Coupled' not in c['solver'] else 1):
        d = dict(cs[-1])
        full = sim.full(d)
        vary = ['dt', 'nu', 'dealias', 'L', 'conv', 'ic', 'src', 'N', 'steps']
        vary += ['quad', 'deco', 'mask'] if c['solver'] in sim.CHANNEL else ['integ', 'deco', 'mask', 'TOL']
        vary += {'MHD': ['eta'], 'Bq2D': ['Ri', 'Pr'], 'KMM_RB': ['kappa'], 'KMMRK3_RB': ['kappa']}.get(c['solver'], [])
        for x in [['dt', 'nu', 'L', 'dealias', 'conv'][(k//12+k+2*i) % 5]] + rng.sample(['L', 'L', 'L']+vary, rng.choice([0, 1, 1])):
            if x in ('dt', 'nu', 'eta', 'Ri', 'Pr', 'kappa'):
                d[x] = float(full.get(x, {'kappa': 0.04, 'eta': 0.02, 'Ri': 0.3, 'Pr': 0.7}.get(x)))*rng.choice([0.5, 0.8])
            elif x == 'dealias':
                d[x] = rng.choice([q for q in gen.DEALIAS if q != full[x]])
            elif x == 'conv':
                d[x] = rng.choice(sim.convections(c['solver']))
            elif x == 'L':
                d[x] = gen.lengths(rng, c['solver'])
            elif x == 'N':
                N = list(gen.mesh(rng, c['solver']))
                j = rng.randrange(len(N))
                d[x] = [n if i == j else m for i, (m, n) in enumerate(zip(full[x], N))]
            elif x == 'deco' and c['solver'] not in sim.DOUBLY:
                d[x] = 'pencil' if full[x] == 'slab' else 'slab'
            elif x == 'mask' and full['precision'] == 'double':
                d[x] = not full[x]
            elif x == 'quad':
                d[x] = 'GL' if full[x] == 'GC' else 'GC'
            elif x == 'integ':
                d[x] = rng.choice(['RK4', 'AB2', 'BS5_fixed', 'ForwardEuler'])
            elif x == 'TOL' and full['integ'] == 'BS5_adaptive':
                d[x] = full['TOL']*rng.choice([0.1, 10])
            elif x == 'src' and c['solver'] not in ('MHD', 'Bq2D'):
                d[x] = rng.choice([0, 0.7])
            elif x == 'ic':
                d[x] = rng.randrange(1000)
            elif x == 'steps':
                d[x] = rng.choice([1, 3])
        cs.append(d)
    return [dict(cfg=c, ctx=i, init=True) for i, c in enumerate(cs)], min(gen.ranks(rng, c) for c in cs)


def anew(rng, k):
    """One context for several simulations with their own initial fields."""
    c = fresh(rng, k, None)
    for x in ('name', 'write', 'ckpt'):
        c.pop(x, None)
    out = []
    for i in range(rng.choice([2, 3])):
        d = dict(c, ic=rng.randrange(1000), steps=rng.choice([1, 2, 3]))
        if i and c['solver'] not in sim.CHANNEL:
            d['dt'] = rng.choice([c['dt'], c['dt']/2, 0.7*c['dt']])
            d['integ'] = rng.choice([c['integ'], c['integ'], rng.choice(gen.INTEGRATORS)])
            d['nu'] = rng.choice([c['nu'], 2*c['nu']])
            if d['integ'] == 'BS5_adaptive':
                d['dt'] = 0.01
                d['TOL'] = c.get('TOL', 1e-6)
        out.append(dict(cfg=d, ctx=0, init=True))
    return out, gen.ranks(rng, c)


def beside(rng, k):
    """Two contexts advanced in turns."""
    c = fresh(rng, k, None)
    c.pop('name')
    if c.get('integ') == 'BS5_adaptive':
        c['integ'] = 'BS5_fixed'
    if c.get('ckpt') == 2:
        c['ckpt'] = 1
    cs = [dict(c, ic=rng.randrange(1000), name=x) for x in 'ab']
    if c['solver'] not in sim.CHANNEL and rng.random() < 0.5:
        cs[1]['L'] = gen.lengths(rng, c['solver'])
    at, out = [0, 0], []
    for i in rng.choice([[0, 1, 0, 1], [0, 1, 1, 0], [0, 1, 0], [0, 0, 1, 0]]):
        m = rng.choice([1, 2])
        d = dict(cs[i], T=(at[i]+m)*c['dt'], steps=m)
        out.append(dict(cfg=d, ctx=i, init=not at[i]))
        at[i] += m
    return out, gen.ranks(rng, c)


def one(rng, k):
    f = [sequence, study, study, anew, beside][k % 5]
    parts, n = f(rng, k//5*(1+(k % 5 == 2))+k % 5)
    return dict(fn='together', parts=parts, n=rng.choice([1, n, n]), policy=gen.policy(rng))


def cases(tier, seed):
    rng = random.Random('C20-%s' % seed)
    return [one(rng, k) for k in range(120)]


def more(rng, i):
    return one(rng, rng.randrange(1000))
