"""C21: the demonstration programs report and store the same on any process layout, and resume from their own files."""
import random
import re

from dst import demo, gen
from .common import *

RULE = ('A case runs one demonstration program of the repository as a whole (the unchanged source, with a command line that selects solver, '
        'mesh, decomposition and what is reported and stored) on several simulated ranks, and compares what rank 0 prints and every '
        'file left behind with those of the same command on one process; or resumes a program from its own checkpoint.')

TIMING = ('Time =', 'Fastest =', 'Slowest =', 'Memory usage', 'End  ', 'Start ', 'Create ', 'Number of', 'Reset profile')
NUMBER = re.compile(r'[-+]?(?:\d+\.\d*|\.\d+|\d+)(?:[eE][-+]?\d+)?|nan|inf')


def said(res):
    """What rank 0 reported, line by line."""
    t = ''.join(s for r, s in res['out'] if r == 0)
    return [x.rstrip() for x in t.split('\n') if x.strip() and not x.startswith(TIMING) and 'optimized' not in x]


def same_report(ctx, a, b, limit, what):
    if len(a) != len(b):
        ctx.fail('report', '%s: %d lines were reported instead of %d; the last is %r' % (what, len(b), len(a), (b or a)[-1]))
    for i, (x, y) in enumerate(zip(a, b)):
        if NUMBER.sub('#', x).split() != NUMBER.sub('#', y).split():
            ctx.fail('report', '%s: line %d of the report is %r instead of %r' % (what, i+1, y, x))
        u, v = [[float(q) for q in NUMBER.findall(z)] for z in (x, y)]
        if not np.isfinite(u).all():
            ctx.fail('nan', '%s: line %d of the report with one process is %r' % (what, i+1, x))
        for p, q in zip(u, v):
            ctx.checked()
            if not abs(p-q) <= limit*max(abs(p), abs(q))+1e-10:
                ctx.fail('report', '%s: line %d of the report says %r instead of %r' % (what, i+1, y, x))


def same_files(ctx, da, db, limit, what, only=None):
    fa, fb = [{f for f in os.listdir(d) if not only or f.endswith(only)} for d in (da, db)]
    if fa != fb:
        ctx.fail('files', '%s: files %s instead of %s' % (what, sorted(fb), sorted(fa)))
    for f in sorted(fa):
        a, b = os.path.join(da, f), os.path.join(db, f)
        if not f.endswith('.h5'):
            with open(a) as x, open(b) as y:
                ctx.checked()
                if x.read() != y.read():
                    ctx.fail('files', '%s: %s differs' % (what, f))
            continue
        x, y = fakeh5.read_file(a), fakeh5.read_file(b)
        if sorted(x) != sorted(y):
            ctx.fail('files', '%s: %s has other contents: %s' % (what, f, sorted(set(x) ^ set(y))[:6]))
        for k in x:
            if only and '@' in k:
                continue
            u, v = np.asarray(x[k]), np.asarray(y[k])
            if u.shape != v.shape:
                ctx.fail('files', '%s: %s%s has shape %s instead of %s' % (what, f, k, v.shape, u.shape))
            if u.dtype.kind in 'fciu' and u.size:
                ctx.checked()
                # an entry of rounding errors only is compared on the scale of its neighbours
                if not np.abs(u-v).max() <= limit*max(np.abs(u).max(), np.abs(v).max())+1e-10:
                    i = np.unravel_index(np.argmax(np.abs(u-v)), u.shape)
                    ctx.fail('files', '%s: %s%s differs, e.g. %r instead of %r at %s' % (what, f, k, v[i], u[i], tuple(int(q) for q in i)))


def call(ctx, name, argv, n, what, main=None, d=None):
    res = ctx.job(dict(demo=name, argv=argv, main=main), n, d=d, prog=demo.run, timeout=120)
    ctx.finished(res, what)
    ctx.stats['steps'] += (res['ret'][0].get('end') or [1])[0]
    return res


def whole(ctx, case):
    n, name, argv = case['n'], case['demo'], case['argv']
    line = 'demo/%s %s' % (name, ' '.join(str(a) for a in argv))
    few = 2 if name == 'Vortices2D.py' else 1       # with one process it compares its last step with a stored field
    one = call(ctx, name, argv, few, '%s with %d process(es)' % (line, few))
    many = call(ctx, name, argv, n, '%s with %d processes' % (line, n))
    what = '%s with %d processes' % (line, n)
    for r in range(n):
        if many['ret'][r] != one['ret'][0]:
            ctx.fail('end', '%s: rank %d ended at %s instead of %s' % (what, r, many['ret'][r], one['ret'][0]))
    same_report(ctx, said(one), said(many), 1e-6, what)
    same_files(ctx, one['dir'], many['dir'], 1e-8, what)


HEAD = """
import h5py
config.update(%(defaults)s, %(mesh)r)
for k, v in %(extra)s.items():
    getattr(config, %(mesh)r).add_argument('--'+k, type=type(v), default=v)
%(options)s
solver = sol = get_solver(update=update, mesh=%(mesh)r)
%(set)s
context = solver.get_context()
KEPT = %(kept)s
"""

SOLVE = """
config.params.T = config.params.t+(LENGTH+0.5 if %(mesh)r == 'channel' else LENGTH)*config.params.dt
first = config.params.tstep
context.hdf5file.filename = 'out'
solve(solver, context)
"""

RESUMABLE = {
    'Isotropic': dict(
        mesh='triplyperiodic', options='config.triplyperiodic.add_argument("--N", default=[60, 60, 60], nargs=3)',
        set='config.params.nu = (1./config.params.kd**(4./3.))',
        defaults="{'nu': 0.005428, 'dt': 0.002, 'T': 5, 'L': [2*pi]*3, 'checkpoint': 100, 'write_result': 1e8, 'dealias': '3/2-rule'}",
        extra=dict(compute_energy=1000, compute_spectrum=1000, plot_step=1000, Kf2=3, kd=50., Re_lam=84.), more=''),
    'MKM': dict(
        mesh='channel', options='', set='',
        defaults="{'nu': 1./180., 'Re_tau': 180., 'dt': 0.0005, 'T': 100., 'L': [2, 2*np.pi, np.pi], 'dealias': '3/2-rule', 'checkpoint': 2000}",
        extra=dict(compute_energy=100, plot_result=200, sample_stats=200, print_energy0=1000),
        more='set_Source(**context); solver.stats = Stats(context.U, solver.comm, **KEPT)'),
    'RayleighBenard': dict(
        mesh='channel', options='', set="config.params.nu = np.sqrt(config.params.Pr/config.params.Ra); config.params.kappa = 1./np.sqrt(config.params.Pr*config.params.Ra)",
        defaults="{'dt': 0.01, 'T': 1000., 'L': [2, 2*np.pi, 2*np.pi], 'write_result': 100}",
        extra=dict(compute_energy=10, plot_result=100, sample_stats=10, Ra=10000., Pr=0.7), more='solver.stats = Stats(context.U, solver.comm, **KEPT)'),
}


def resume(ctx, case):
    """initialize + m+k steps  ==  initialize + m steps, then in a new process init_from_file + k steps."""
    name, m, k = case['demo'], case['m'], case['k']
    d = RESUMABLE[name]
    tail = '\n'+d['more']+SOLVE % d
    start = HEAD % dict(d, kept=dict(filename='stats'))+'initialize(solver, context)'+tail
    sampled = name != 'Isotropic'       # statistics, collected at every step, are continued as well
    every = ['--checkpoint', 1] + (['--sample_stats', 1] if sampled else [])
    what = 'demo/%s.py %s' % (name, ' '.join(str(a) for a in case['argv']))

    def run(n, steps, begin, said, into):
        return call(ctx, name+'.py', case['argv'][:-1]+every+[case['argv'][-1]], n, '%s: %s' % (what, said), main=begin.replace('LENGTH', str(steps)), d=into)
    full = run(case['n'], m+k, start, '%d steps on %d processes' % (m+k, case['n']), ctx.newdir())
    part = run(case['n'], m, start, '%d steps on %d processes' % (m, case['n']), ctx.newdir())
    into = ctx.newdir()
    shutil.copy(os.path.join(part['dir'], 'out_c.h5'), os.path.join(into, 'saved_c.h5'))
    if sampled:
        shutil.copy(os.path.join(part['dir'], 'stats.h5'), os.path.join(into, 'stats.h5'))
        ctx.probe('statistics_continued')
    rest = run(case['n2'], k, HEAD % dict(d, kept=dict(fromstats='stats'))+'init_from_file("saved_c.h5", solver, context)'+tail,
               'resumed on %d processes after %d steps' % (case['n2'], m), into)
    for r in rest['ret']:
        if r['end'][0] not in (k, m+k):
            ctx.fail('end', '%s: resumed after %d steps, took %d more, and counts step %s' % (what, m, k, r['end'][0]))
        if abs(r['end'][1]-r['end'][0]*r['dt']) > 1e-10:
            ctx.fail('end', '%s: resumed after %d steps, and calls the time after step %d %s' % (what, m, r['end'][0], r['end'][1]))
    same_files(ctx, full['dir'], rest['dir'], 1e-7, '%s: %d+%d steps (resumed) against %d at once' % (what, m, k, m+k), only=('out_c.h5', 'stats.h5'))


def diverge(ctx, case):
    """A program that watches its energy and stops itself does so everywhere."""
    name, n = case['demo'], case['n']
    d = RESUMABLE[name]
    begin = HEAD % dict(d, kept=dict(filename='stats'))+'initialize(solver, context)\nfor v in (context.phi_hat, context.get("phi_hat0"), context.get("phi_hat1")):\n'
    begin += '    if v is not None: v *= %r\n%s' % (case['scale'], d['more'])+(SOLVE % d).replace('LENGTH', str(case['every']+2))
    what = 'demo/%s.py %s from temperatures times %g' % (name, ' '.join(str(a) for a in case['argv']), case['scale'])
    res = []
    for m in (1, n):
        r = ctx.job(dict(demo=name+'.py', argv=case['argv'], main=begin), m, prog=demo.run, timeout=120)
        w = '%s on %d process(es)' % (what, m)
        if r['outcome'] != 'finished':
            ctx.finished(r, w)
        ctx.checked()
        if any(e != 1 for e in r['exits']):
            ctx.fail('diverging', '%s: the program diverges and has to stop on every process, but they end with %s' % (w, r['exits']))
        res.append(r)
    ctx.probe('diverging_program')
    if case['scale'] < 1e100:
        same_files(ctx, res[0]['dir'], res[1]['dir'], 1e-8, what)


FNS = dict(whole=whole, resume=resume, diverge=diverge)

PROGRAMS = ['TG', 'Isotropic', 'MKM', 'RayleighBenard', 'OrrSommerfeld', 'KelvinHelmholtz', 'KelvinHelmoltzBoussinesq', 'LaminarChannel',
            'Vortices', 'Vortices2D', 'TG2D', 'OrrSommerfeldr', 'TGMHD', 'NS_shenfun']


def flag(name, *v):
    return ['--'+name] + [str(x) for x in v]


def number(x):
    return repr(float('%.12g' % x))


def args(rng, name):
    """-> (command line, solver, mesh, decomposition)"""
    deco = rng.choice(['slab', 'pencil'])
    steps = rng.choice([2, 3, 4])
    a = []
    if name in ('TG', 'Isotropic', 'Vortices'):
        s = 'VV' if name == 'Vortices' else rng.choice(['NS', 'NS', 'VV'])
        if name == 'Vortices':
            deco, N = 'slab', [16, 16, 16]
            steps = rng.choice([2, 4, 5])       # (its source ends with step 3)
            a += flag('M', 4, 4, 4) + flag('init', rng.choice(['random', 'vortex']))
        else:
            N = rng.choice([[12, 12, 12], [12, 14, 16], [16, 12, 10], [10, 8, 12], [16, 16, 16], [9, 12, 14]])
            if name == 'Isotropic':
                N = rng.choice([[12, 12, 12], [14, 14, 14], [16, 16, 16], [12, 12, 16]])
            a += flag('N', *N) + flag('decomposition', deco)
        dt = {'TG': 0.01, 'Isotropic': 0.002, 'Vortices': 0.01}[name]
        a += flag('T', number(dt*steps)) + flag('dealias', rng.choice(['2/3-rule', '3/2-rule', 'None']))
        if name != 'Vortices':
            a += flag('compute_energy', rng.choice([1, 2]))
            a += flag('convection', rng.choice(['Vortex', 'Standard', 'Divergence', 'Skewed']) if s == 'NS' else 'Vortex')
            a += flag('plot_step', rng.choice([1, 2, -1]) if N[2] > 10 else -1)
        else:
            a += flag('plot_step', rng.choice([1, 2]))
        if name == 'Isotropic':
            a += flag('compute_spectrum', rng.choice([1, 2]))
        if name == 'TG':
            a += flag('ntol', 1)
        a += flag('integrator', rng.choice(['RK4', 'AB2', 'BS5_fixed', 'ForwardEuler', 'RK4']))
    elif name == 'TGMHD':
        s, N = 'MHD', [16, 32, 64]
        a += flag('decomposition', deco) + flag('write_result', rng.choice([4, 5])) + flag('checkpoint', rng.choice([4, 10]))
        return a + [s], s, N, deco
    elif name in ('TG2D', 'KelvinHelmholtz', 'KelvinHelmoltzBoussinesq', 'Vortices2D'):
        deco = 'slab'
        s = 'Bq2D' if 'Bouss' in name else 'NS2D'
        M = rng.choice([[4, 4], [4, 5], [5, 4]])
        N = [2**m for m in M]
        if name == 'Vortices2D':
            M, N = [6, 6], [64, 64]
        a += flag('M', *M)
        dt = {'TG2D': 0.05, 'KelvinHelmholtz': 0.007, 'KelvinHelmoltzBoussinesq': 0.001, 'Vortices2D': 0.005}[name]
        a += flag('T', number(dt*steps)) + flag('plot_result', rng.choice([1, 2, -1] if name[0] == 'K' else [1, 2]))
        if name == 'TG2D':
            a += flag('ntol', 1)
        if name[0] == 'K':
            a += flag('compute_energy', rng.choice([1, 2]))
        if name == 'KelvinHelmoltzBoussinesq':
            a += flag('integrator', rng.choice(['BS5_adaptive', 'RK4', 'AB2']))
        else:
            a += flag('integrator', rng.choice(['RK4', 'AB2', 'BS5_fixed']))
    elif name == 'NS_shenfun':
        return [], 'NS', [64, 64, 64], 'slab'
    else:
        s = {'RayleighBenard': ['KMM_RB', 'KMMRK3_RB'], 'OrrSommerfeldr': ['KMMr'], 'LaminarChannel': ['KMM', 'KMMRK3'],
             'OrrSommerfeld': ['KMM', 'KMMRK3', 'KMM', 'Coupled', 'CoupledRK3'],
             'MKM': ['KMM', 'KMMRK3', 'KMM']}[name]
        s = rng.choice(s)
        M = rng.choice([[4, 3, 3], [4, 4, 3], [5, 3, 4], [4, 3, 4]])
        if name in ('OrrSommerfeld', 'LaminarChannel'):
            M = rng.choice([[4, 3, 2], [5, 4, 2], [5, 3, 3]])
        if name == 'MKM':
            M = rng.choice([[5, 3, 3], [5, 4, 3], [5, 3, 4]])
        if name == 'OrrSommerfeldr':
            M = rng.choice([[3, 2, 4], [4, 3, 5], [3, 3, 5]])
        if s == 'Coupled' or s == 'CoupledRK3':
            M = [4, 3, 2]
        N = [2**m for m in M]
        a += flag('M', *M) + flag('decomposition', deco)
        dt = {'RayleighBenard': 0.01, 'OrrSommerfeldr': 0.001, 'LaminarChannel': 0.5, 'OrrSommerfeld': 0.001, 'MKM': 0.0005}[name]
        a += flag('T', number(dt*(steps+0.5))) + flag('compute_energy', rng.choice([1, 2]))
        if name in ('MKM', 'RayleighBenard'):
            a += flag('sample_stats', rng.choice([1, 2])) + flag('plot_result', rng.choice([1, 2, -1]))
        else:
            a += flag('plot_step', rng.choice([1, 2, -1]))
        if name == 'MKM':
            a += flag('print_energy0', 10000)
        if name in ('OrrSommerfeld', 'OrrSommerfeldr') and rng.random() < 0.3:
            a += flag('refinement_test', 'True')
        if s != 'KMMr':
            a += flag('convection', rng.choice(['Vortex', 'Standard', 'Divergence', 'Skew']))
        a += flag('dealias', rng.choice(['3/2-rule', '2/3-rule', 'None']))
        q = rng.choice(['GC', 'GL'])
        a += flag('Dquad', q) + flag('Bquad', q) + flag('Nquad', q)
    if name not in ('TG2D',):
        a += flag('write_result', rng.choice([1, 2, 3]))
    a += flag('checkpoint', rng.choice([1, 2, 3]))
    if rng.random() < 0.2 and name != 'TGMHD':
        a += flag('optimization', rng.choice(['cython', 'numba', 'pythran'][:3 if s not in ('KMMr',) else 1]))
    return a + [s], s, N, deco


def most(n, s, N):
    if s in sim.CHANNEL:
        return min(n, N[2 if s != 'KMMr' else 1]//2+1)
    # shenfun's energy_fourier counts a mode twice if a process has one mode only along the last axis
    return min(n, (N[-1]//2+1)//2)


def again(rng):
    name = rng.choice(sorted(RESUMABLE))
    while True:
        a, s, N, deco = args(rng, name)
        if 'AB2' not in a and 'BS5_fixed' not in a:     # they keep history that no checkpoint has
            break
    drop = ('T', 'write_result', 'checkpoint', 'compute_energy', 'compute_spectrum', 'plot_step', 'plot_result', 'sample_stats', 'print_energy0',
            'refinement_test')
    b = []
    for x in a:
        if str(x).startswith('--'):
            on = x[2:] not in drop
        elif x is a[-1]:
            on = True
        if on:
            b.append(x)
    b = b[:-1]+['--plot_step' if name == 'Isotropic' else '--plot_result', '-1', b[-1]]
    n = [max(2, most(gen.ranks(rng, dict(solver=s, N=N, deco=deco)), s, N)) for _ in range(2)]
    return dict(fn='resume', demo=name, argv=b, n=n[0], n2=n[1], m=rng.choice([1, 2, 3]), k=rng.choice([1, 2, 3]), policy=gen.policy(rng))


def too_far(rng):
    name = 'RayleighBenard'
    a, s, N, deco = args(rng, name)
    b = []
    for x in a:
        if str(x).startswith('--'):
            on = x[2:] not in ('T', 'write_result', 'checkpoint', 'compute_energy', 'plot_result', 'sample_stats', 'optimization')
        elif x is a[-1]:
            on = False
        if on:
            b.append(x)
    every = rng.choice([1, 1, 2, 3])
    b += flag('plot_result', -1) + flag('compute_energy', every) + flag('checkpoint', 1) + [s]
    n = max(2, most(gen.ranks(rng, dict(solver=s, N=N, deco=deco)), s, N))
    return dict(fn='diverge', demo=name, argv=b, n=n, every=every, scale=rng.choice([1e5, 1e6, 1e200]), policy=gen.policy(rng))


def one(rng, name):
    a, s, N, deco = args(rng, name)
    n = gen.ranks(rng, dict(solver=s, N=N, deco=deco))
    n = most(n, s, N)
    n = max(n, 3 if name == 'Vortices2D' else 2)
    return dict(fn='whole', demo=name+'.py', argv=a, n=n, policy=gen.policy(rng))


def cases(tier, seed):
    rng = random.Random('C21-%s' % seed)
    out = []
    for k in range(140):
        out.append(one(rng, PROGRAMS[k % (13 if k >= 28 else 14)]))
        if k % 4 == 3:
            out.append(again(rng))
        if k % 20 == 10:
            out.append(too_far(random.Random('C21-far-%s-%d' % (seed, k))))
    return out


def more(rng, i):
    return again(rng) if i % 4 == 3 else one(rng, PROGRAMS[i % 14])
