"""Generates run configurations: swarm style, every run differs in size, layout, options and schedule."""
from . import sim

POLICIES = ['random', 'sticky', 'pct', 'starve0', 'starve1', 'rush0', 'rush1', 'lowest', 'highest', 'random', 'pct']
INTEGRATORS = ['RK4', 'ForwardEuler', 'AB2', 'BS5_fixed', 'BS5_adaptive']
DEALIAS = ['2/3-rule', '3/2-rule', 'None']


def maxranks(cfg):
    """Ranks that this mesh can be shared among, in every space that is used."""
    c = sim.full(cfg)
    N = list(c['N'])
    s = c['solver']
    if s in sim.DOUBLY:
        return min(N[0], N[1]//2+1)
    if s in sim.CHANNEL:
        return 4
    return min(N[0], N[1], N[2]//2+1)


def mesh(rng, solver, small=False):
    if solver in sim.TRIPLY:
        N = [rng.choice([8, 8, 10, 12, 6, 16, 9, 7] if not small else [6, 8, 8, 10, 7]) for _ in range(3)]
        if rng.random() < 0.12:         # one long direction
            N[rng.randrange(3)] = rng.choice([24, 32, 40])
    elif solver in sim.DOUBLY:
        N = [rng.choice([16, 12, 8, 20, 32, 10, 15, 9, 48]) for _ in range(2)]
    else:
        per = [rng.choice([8, 8, 6, 10, 12, 7, 9]) for _ in range(2)]
        if rng.random() < 0.12:
            per[rng.randrange(2)] = rng.choice([24, 32])
        wall = rng.choice([16, 16, 18, 20, 16, 24, 18, 32])  # below 14, shenfun 4.2 writes out of bounds; odd, its Biharmonic divides by zero
        if solver in ('Coupled', 'CoupledRK3'):
            wall = rng.choice([10, 12])
            per = [rng.choice([6, 8, 7]) for _ in range(2)]
        N = per + [wall] if solver == 'KMMr' else [wall] + per
    return N


def lengths(rng, solver):
    L = [rng.choice([1, 1, 2, 0.5, 1.5, 4]) for _ in range(2 if solver in sim.DOUBLY else 3)]
    if solver == 'KMMr':
        L[2] = 2
    elif solver in sim.CHANNEL:
        L[0] = 2
    return L


def integ(rng, solver, which=None):
    if solver in sim.CHANNEL:
        return 'implicit'
    return rng.choice(which or INTEGRATORS)


def config(rng, solver=None, **fix):
    s = solver or rng.choice(sim.ALL)
    c = dict(solver=s, N=mesh(rng, s), L=lengths(rng, s), conv=rng.choice(sim.convections(s)),
             integ=integ(rng, s), dealias=rng.choice(DEALIAS), mask=rng.random() < 0.7, ic=rng.randrange(1000))
    if s in sim.DOUBLY:
        c['deco'] = 'slab'
    else:
        c['deco'] = rng.choice(['slab', 'pencil'])
    if s not in sim.CHANNEL:
        c['nu'] = rng.choice([0.01, 0.003, 0.05])
        c['dt'] = rng.choice([0.02, 0.01, 0.0131313131])
        c['amp'] = rng.choice([1.0, 0.5])
        if rng.random() < 0.3:
            c['src'] = 0.4
            if s in ('MHD', 'Bq2D'):
                c['src'] = 0
    else:
        c['dt'] = rng.choice([0.005, 0.0031415927, 0.01])
        c['nu'] = rng.choice([0.05, 0.02])
        if rng.random() < 0.5:
            c['src'] = 0.5
        c['quad'] = rng.choice(['GC', 'GC', 'GL'])
    if s == 'MHD':
        c['eta'] = rng.choice([0.02, 0.005, 0.04, 0.0])
    if s == 'Bq2D':
        c['Ri'], c['Pr'] = rng.choice([0.3, 1.2, -0.4, 0.3]), rng.choice([0.7, 2.0, 1.0])
    c['steps'] = rng.choice([2, 3, 3, 4])
    if s in ('Coupled', 'CoupledRK3') or (s in sim.CHANNEL and c['conv'] != 'Vortex'):
        c['steps'] = 2
    # users name their files
    name = {1: 'my_run', 2: 'Re1.5e3', 3: 'run_c', 4: 'results_w'}.get(c['ic'] % 12)
    if name:
        c['name'] = name
    c.update(fix)
    if c.get('precision') == 'single':
        c['mask'] = False        # shenfun 4.2 has no Nyquist mask for complex64
    return c


LONG = ('NS', 'NS2D', 'VV', 'KMM', 'Bq2D', 'KMMRK3', 'MHD', 'KMM_RB', 'NS2D', 'KMMr', 'KMMRK3_RB')


def lengthen(rng, cfg):
    """A run of many steps (on a small mesh)."""
    s = cfg['solver']
    cfg['N'] = {2: [8, 10] if s != 'Bq2D' else [10, 8], 3: [6, 6, 8]}[len(cfg['N'])] if s not in sim.CHANNEL else \
        [6, 6, 16] if s == 'KMMr' else [16, 6, 6]
    cfg['steps'] = rng.choice([11, 12, 15, 20, 23])
    if cfg['integ'] == 'BS5_adaptive':          # the number of steps would not be known
        cfg['integ'] = 'BS5_fixed'
    if s not in sim.CHANNEL:
        cfg['nu'] = rng.choice([0.05, 0.1])
    for k in ('write', 'ckpt'):
        if cfg.get(k, 10**8) < 10**8:
            cfg[k] = rng.choice([1, 4, 5, 10]) if k == 'write' else rng.choice([3, 5, 7, 10])
    return cfg


def ranks(rng, cfg, most=6):
    m = min(most, maxranks(cfg))
    if cfg.get('deco') == 'pencil':
        return rng.choice([k for k in (2, 4, 4, 6, 3, 4) if k <= m])
    return rng.choice([k for k in (2, 3, 4, 2, 3, 5, 6, 7) if k <= m])


def clock(rng, n, steps):
    """Clocks of n ranks: skewed, drifting (also standing still or running backwards), coarse, and set during the run."""
    ck = dict(skew=[rng.choice([0.0, -3600.0, 86400.0, rng.uniform(-5, 5)]) for _ in range(n)],
              drift=[rng.choice([0.0, 0.5, -0.5, -1.0, rng.uniform(-0.9, 3)]) for _ in range(n)],
              tick=rng.choice([1e-4, 1e-2, 0.0]), jumps=[])
    for _ in range(rng.choice([0, 1, 2, 3])):
        ck['jumps'].append([rng.randrange(n), rng.randrange(1, steps+3), rng.choice([3600.0, -3600.0, 0.5, -0.02, 1e6, -1e6])])
    return ck


def policy(rng):
    return rng.choice(POLICIES)
