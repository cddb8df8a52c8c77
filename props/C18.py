"""C18: the C++ program computes the same flow as the Python solver, on any number of processes."""
import random
import re

from .common import *
from .C15 import Model, tg
from dst import cppsim

RULE = ('cpp/spectralDNS.cpp is compiled against stand-ins for MPI and FFTW-MPI whose every call goes to the simulated communicator, '
        'and executed on 1 to 7 simulated ranks (also more ranks than planes) with meshes 2 to 32, from its own initial field or from a '
        'rough random one put in its place in memory before the first transforms.  Checked against a sequential numpy model and against '
        'one rank: the global fields that go through the transforms, the velocity after every step, the printed energies; that '
        'the first process alone prints, once; and the times it reports against the clock readings of all processes.')
ASSUMES = ['the distributed transform of the stand-in is numpy.fft on the gathered array; FFTW-MPI data layout, uneven blocks and '
           'undefined padding are reproduced, its algorithm is not',
           'the input of a c2r transform is left unchanged, as FFTW-MPI is observed to do for these plans']
REAL = ['cpp/spectralDNS.cpp, compiled with g++ -O3 for the check']
STUB = ['MPI library (calls forwarded to the in-process communicator)', 'FFTW-MPI (numpy.fft on the gathered array)', 'clocks',
        'standard output, per process']
NU, DT, T = 0.000625, 0.01, 0.1


def field(N, seed):
    u = sim._periodic_field([N]*3, [2*np.pi]*3, seed, 3, True, 1.0, slope=1.0, cut=0.3 if N > 4 else 0.49)
    uh = np.fft.rfftn(u, axes=(1, 2, 3))
    m = Model(N, 0)
    uh *= m.mask*(np.abs(m.K) < N/2.).all(axis=0)
    uh[:, 0, 0, 0] = 0
    return np.fft.irfftn(uh, s=(N,)*3, axes=(1, 2, 3))


def prepare(repo, root):
    cppsim.build(repo, root)


def text(res):
    out = ['']*res['n']
    for r, s in res['out']:
        out[r] += s
    return out


def history(N, u):
    m = Model(N, NU)
    out = [u]
    t = 0.
    while t < T-1e-8:
        t += DT
        u = m.run(u, DT, DT)[0]
        out.append(u)
    return out


def flow(ctx, case):
    cfg, n = dict(case['cfg']), case['n']
    N = 2**(cfg['M'] if cfg.get('M') is not None else 7)
    what = 'C++ program, mesh %d, %d ranks' % (N, n)
    own = cfg.get('ic') is None
    full = dict(cfg, field=field)

    def job(k):
        res = ctx.job(full, k, prog=cppsim.prog, clock=case.get('clock') if k == n else None,
                      perturb=case.get('perturb', 0))
        ctx.finished(res, what if k == n else 'C++ program, mesh %d, one rank' % N)
        ctx.checked()
        bad = [r for r, q in enumerate(res['ret']) if q['rc'] or not q['finalized']]
        if bad:
            ctx.fail('exit', '%s: rank %d ends with status %s%s' % (what, bad[0], res['ret'][bad[0]]['rc'],
                                                                    '' if res['ret'][bad[0]]['finalized'] else ' without MPI_Finalize'))
        return res
    res = job(n)
    one = res if n == 1 else job(1)
    # the same transforms on any number of processes
    la, lb = one['ret'][0]['log'], res['ret'][0]['log']
    if [x[0] for x in la] != [x[0] for x in lb]:
        ctx.fail('transforms', '%s: %d transforms instead of %d on one process' % (what, len(lb), len(la)))
    for k, (a, b) in enumerate(zip(la, lb)):
        d = sim.diff(a[1], b[1])
        ctx.checked()
        if not d <= 1e-10 and np.abs(a[1]-b[1]).max() > 1e-12*max(1, N**3 if a[0] == 'c2r' else 1):
            ctx.fail('decomposition', '%s: field %d that is transformed (%s) differs from that on one process by %.3g' % (what, k, a[0], d))
    # the flow
    taken = all(q['taken'] == 3 for q in res['ret']) and all(q['taken'] == 3 for q in one['ret'])
    if not own and not taken:
        ctx.probe('program_written_otherwise')
        return
    hist = history(N, tg(N) if own else field(N, cfg['ic']))
    have = [x[1] for x in lb if x[0] == 'c2r'] + [x[1] for x in lb if x[0] == 'r2c']
    pts = np.random.RandomState(1).choice(N**3, min(N**3, 40), replace=False)
    few = np.array([h.reshape(-1)[pts] for h in have])
    for s, u in enumerate(hist):
        big = np.abs(u).max()
        for c in range(3):
            ctx.checked()
            best = np.inf
            for f in (1., float(N)**3):     # transformed with or without its normalisation
                i = np.abs(few-f*u[c].reshape(-1)[pts]).max(axis=1).argmin()
                best = min(best, np.abs(have[i]-f*u[c]).max()/f)
            if not best <= 1e-10*big:
                ctx.fail('velocity', '%s: after step %d no field that the program has transformed is the %s velocity of the '
                         'sequential model (closest differs by %.3g of %.3g)' % (what, s, 'xyz'[c], best, big))
    # what it prints
    out = text(res)
    for r in range(1, n):
        if out[r].strip():
            ctx.fail('prints', '%s: rank %d prints %r' % (what, r, out[r][:100]))
    num = r'([-+0-9.einfa]+)'
    ks = [float(x) for x in re.findall(r'k\s*=\s*'+num, out[0])]
    e = [0.5*(u**2).sum()/N**3 for u in hist]
    want = e[2::2] + ([e[-1]])
    ctx.checked(len(want))
    if len(ks) != len(want):
        ctx.fail('prints', '%s: %d energies are printed instead of %d' % (what, len(ks), len(want)))
    for i, (a, b) in enumerate(zip(ks, want)):
        if not abs(a-b) <= 1e-10*max(b, 1e-300):
            ctx.fail('energy', '%s: energy %d is printed as %r instead of %r' % (what, i, a, b))
    if re.findall(r'N\s*=\s*(\d+)', out[0]) != [str(N)]:
        ctx.fail('prints', '%s: does not say its mesh size once: %r' % (what, out[0][:60]))
    # times
    wt = [q['wt'] for q in res['ret']]
    if all(len(w) == len(hist)+1 for w in wt):
        d = [np.diff(w[:-1])[1:] for w in wt]
        fast, slow = [min(1e8, min(x)) for x in d], [max(0, max(x)) for x in d]
        exp = {'Time': [wt[0][-1]-wt[0][0]], 'Fastest': [min(fast), min(slow)], 'Slowest': [max(fast), max(slow)]}
        for k, v in exp.items():
            got = [[float(y) for y in x.split(',')] for x in re.findall(k+r'\s*=\s*([^\n]*)', out[0])]
            ctx.checked()
            if len(got) != 1 or len(got[0]) != len(v) or not all(abs(a-b) <= 1e-6+1e-9*abs(b) for a, b in zip(got[0], v)):
                ctx.fail('times', '%s: reports %s = %s, but the clocks of all processes give %s' % (what, k, got, v))
    else:
        ctx.probe('clock_read_otherwise')
    ctx.stats['steps'] += len(hist)-1


FNS = dict(flow=flow)


def one(rng, k):
    cfg = dict(M=rng.choice([1, 2, 3, 3, 3, 4, 4]), extra=rng.randrange(4))
    if rng.random() < 0.7:
        cfg['ic'] = rng.randrange(1000)
    n = rng.choice([1, 2, 2, 3, 3, 4, 5, 6, 7])
    c = dict(fn='flow', cfg=cfg, n=n, policy=gen.policy(rng))
    if rng.random() < 0.5:
        c['clock'] = dict(skew=[rng.choice([0.0, -3600.0, 86400.0, rng.uniform(-5, 5)]) for _ in range(n)],
                          drift=[rng.choice([0.0, 0.5, -0.5, rng.uniform(-0.9, 3)]) for _ in range(n)],
                          tick=rng.choice([1e-4, 1e-2]),
                          jumps=[[rng.randrange(n), rng.randrange(1, 12), rng.choice([3600.0, -3600.0, 0.5, -0.02])]
                                 for _ in range(rng.randrange(3))])
    if rng.random() < 0.5:
        c['perturb'] = rng.choice([1, 0x7f, 0xff])
    return c


def cases(tier, seed):
    rng = random.Random('C18-%s' % seed)
    out = [dict(fn='flow', cfg=dict(M=5), n=3, policy='random')]
    return out + [one(rng, k) for k in range(120)]


def more(rng, i):
    return one(rng, i)
