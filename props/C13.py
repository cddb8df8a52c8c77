"""C13: clocks never influence the flow, and the timing report combines all processes."""
import random
import re

from dst import gen, sim
from .common import *
from . import C12

RULE = ('A case runs the same configuration and schedule with perfect clocks and with skewed, drifting and jumping clocks on every '
        'rank (also backwards) and stalled ranks; states and files must be identical, and the printed report must be the minimum '
        'and maximum over all ranks of the durations of steps that the recorded clock readings of each rank give.')


def lines(res, word):
    """[(rank, text)] of the printed lines that start with word."""
    buf, out = {}, []
    for r, s in res['out']:
        buf[r] = buf.get(r, '') + s
    for r, s in buf.items():
        for ln in s.split('\n'):
            if ln.startswith(word):
                out.append((r, ln))
    return out


def numbers(s):
    return [float(x) for x in re.findall(r'[-+]?(?:\d+\.?\d*(?:[eE][-+]?\d+)?|inf|nan)', s.split('=', 1)[1].replace('np.float64', ''))]


def durations(clocks, r, call=None):
    """For each step of rank r: bounds of the duration that its own clock gives.

    A reading after the user was called for step k and before the next such call may be the end of step k.
    call: only the steps of the solve() of this number."""
    before, groups = [], []
    now, begin = -1, None
    for q, kind, v in clocks:
        if q != r:
            continue
        if kind == 'solve':
            now += 1
            begin = v if now == (call or 0) else begin
            continue
        if call is not None and now != call:
            continue
        if kind == 'update':
            groups.append([])
        elif groups:
            groups[-1].append(v)
        else:
            before.append(v)
    if not groups:
        return []
    groups[-1] = groups[-1][:1] if len(groups[-1]) <= 2 else groups[-1][:-1]   # the last reading may serve the total time
    if not before and begin is not None:
        before = [begin]        # the clock was not read between the call of solve() and the first step
    if not before or not all(groups):
        return None
    out, prev = [], before
    for g in groups:
        out.append((min(g)-max(prev), max(g)-min(prev)))
        prev = g
    return out


def report(ctx, res, n, c, what):
    calls = len(c.get('segments') or [0])
    for word in ('Time =', 'Fastest =', 'Slowest ='):
        ls = lines(res, word)
        ctx.checked()
        if not c['verbose']:
            if ls:
                ctx.fail('noisy', '%s: %r is printed though verbose is off' % (what, ls[0]))
            continue
        if [r for r, _ in ls] != [0]*calls:
            ctx.fail('printed', '%s: "%s" is printed by ranks %s instead of %s by rank 0'
                     % (what, word, [r for r, _ in ls], 'once' if calls == 1 else '%d times' % calls))
    if not c['verbose']:
        return
    for q in range(calls):
        one_report(ctx, res, n, q if c.get('segments') else None, what + (', call %d of solve' % (q+1) if calls > 1 else ''))


def one_report(ctx, res, n, call, what):
    per = [durations(res['clocks'], r, call) for r in range(n)]
    if any(not p for p in per):
        ctx.probe('no_bounds')
        return
    fast = [(min(a for a, b in p), min(b for a, b in p)) for p in per]
    slow = [(max(a for a, b in p), max(b for a, b in p)) for p in per]
    # whether negative durations (a clock set back) count as slowest steps is left open
    slow = [(a, max(b, 0)) for a, b in slow]
    f, s = [numbers(lines(res, w)[call or 0][1]) for w in ('Fastest', 'Slowest')]
    want = dict(Fastest=[(min(a for a, b in fast), min(b for a, b in fast)), (min(a for a, b in slow), min(b for a, b in slow))],
                Slowest=[(max(a for a, b in fast), max(b for a, b in fast)), (max(a for a, b in slow), max(b for a, b in slow))])
    for word, got in (('Fastest', f), ('Slowest', s)):
        if len(got) != 2:
            ctx.fail('report', '%s: %s gives %s' % (what, word, got))
        for i, (lo, hi) in enumerate(want[word]):
            ctx.checked()
            if not lo-1e-6 <= got[i] <= hi+1e-6:
                ctx.fail('report', '%s: %s reports %s, but the %s step over all ranks took %.6f s%s (own clocks: %s)'
                         % (what, word, got, ['fastest', 'slowest'][i], lo, '' if hi == lo else ' to %.6f s' % hi,
                            [[round(a, 6) for a, b in p] for p in per]))
    lo, hi = total(res['clocks'], call)
    got = numbers(lines(res, 'Time')[call or 0][1])
    ctx.checked()
    if len(got) != 1 or not lo-1e-6 <= got[0] <= hi+1e-6:
        ctx.fail('total', '%s: Time reports %s, but by its own clock rank 0 took between %.6f s and %.6f s' % (what, got, lo, hi))
    ctx.probe('reports')


def total(clocks, call):
    """Bounds of the time that all steps took, by the clock of rank 0: from a reading before the first to one after the last."""
    now, before, after, begun, begin = -1, [], [], False, None
    for q, kind, v in clocks:
        if q != 0:
            continue
        if kind == 'solve':
            now += 1
            begin = v if now == (call or 0) else begin
        elif call is not None and now != call:
            continue
        elif kind == 'update':
            begun, after = True, []
        elif begun:
            after.append(v)
        else:
            before.append(v)
    before = before or [begin]
    return min(after)-max(before), max(after)-min(before)


def clocks(ctx, case):
    cfg, n = case['cfg'], case['n']
    c = sim.full(cfg)
    what = describe(cfg, n)
    a = run(ctx, cfg, n)
    report(ctx, a, n, c, 'perfect clocks, ' + what)
    b = run(ctx, cfg, n, clock=case['clock'], faults=case.get('faults') or ())
    w = 'clocks %s, %s' % (case['clock'], what)
    if c['profile']:
        profile(ctx, a, n, what)
        profile(ctx, b, n, w)
    report(ctx, b, n, c, w)
    for q in range(n):
        if [s[:3] for s in a['ret'][q]['snaps']] != [s[:3] for s in b['ret'][q]['snaps']] or a['ret'][q]['end'] != b['ret'][q]['end']:
            ctx.fail('times', '%s: the course of the run differs on rank %d' % (w, q))
    same_states(ctx, a['snaps'], b['snaps'], 1e-14 if not case.get('faults') else 1e-12, w)
    fa, fb = C12.files(a, c), C12.files(b, c)
    if sorted(fa) != sorted(fb):
        ctx.fail('files', '%s: the files differ in %s' % (w, sorted(set(fa) ^ set(fb))[:5]))
    for k in fa:
        compare(ctx, {k: fa[k]}, {k: fb[k]}, 1e-14 if not case.get('faults') else 1e-12, w + ': file', key='file')
    k = case['clock']
    f = ctx.stats['faults']
    for name in ('skew', 'drift'):
        if any(k.get(name, [])):
            f['clock_'+name] = f.get('clock_'+name, 0)+1


def printed(res, r=0):
    return ''.join(s for q, s in res['out'] if q == r)


def profile(ctx, res, n, what):
    """The table of the profile: smallest and largest times over all processes of every function."""
    from dst import env
    for r in range(1, n):
        if 'rofil' in printed(res, r):
            ctx.fail('profile', '%s: rank %d prints the profile' % (what, r))
    num = r'\s+([-+.\deE]+|inf|nan)'
    rows = re.findall(r"'(\w+)"+4*num+"'", printed(res))
    if [q[0] for q in sorted(rows)] != sorted(env.PROFILED):
        ctx.fail('profile', '%s: the profile has rows %s instead of %s' % (what, [q[0] for q in rows], env.PROFILED))
    for q in rows:
        i = env.PROFILED.index(q[0])+1
        want = (0.25*i, 0.25*i+n-1, 0.5*i, 0.5*i+n-1)
        ctx.checked()
        if any(abs(float(a)-b) > 1e-3*b for a, b in zip(q[1:], want)):
            ctx.fail('profile', '%s: profile of %s is %s, but over all ranks it is %s' % (what, q[0], q[1:], want))
    ctx.probe('profiles')


def prog_memory(r, job, cfg):
    from spectralDNS.utilities import MemoryUsage
    m = MemoryUsage('first')
    for k in range(cfg['looks']-1):
        m('look%d' % k)


def memory(ctx, case):
    """The report of memory is the sum over all processes, and its change since the last report."""
    from dst import env
    n, k = case['n'], case['cfg']['looks']
    res = ctx.job(case['cfg'], n, prog=prog_memory)
    what = 'memory report of %d ranks' % n
    ctx.finished(res, what)
    rows = re.findall(r'^(first|look\d+)\s+(-?\d+) MB\s+(-?\d+) MB\s+(-?\d+) MB\s+(-?\d+) MB', printed(res), re.M)
    if len(rows) != k or any('MB' in printed(res, r) for r in range(1, n)):
        ctx.fail('memory', '%s: %d rows instead of %d on rank 0, or rows on another rank' % (what, len(rows), k))
    prev = dict(RSS=0, VSZ=0)
    for i, row in enumerate(rows):
        want = []
        for kind in ('RSS', 'VSZ'):
            t = sum(env.memory(r, kind, i) for r in range(n))
            want += [t-prev[kind], t]
            prev[kind] = t
        ctx.checked()
        if list(map(int, row[1:])) != want:
            ctx.fail('memory', '%s: row %d is %s instead of %s' % (what, i, row[1:], want))


FNS = dict(clocks=clocks, memory=memory)


def several_ends(rng, cfg):
    dt = sim.full(cfg)['dt']
    cfg['steps'] = rng.choice([3, 4])
    a = rng.choice([1, 2])
    return [a*dt, cfg['steps']*dt] if rng.random() < 0.6 else [dt, 2*dt, cfg['steps']*dt]


def one(rng, s, k, long=False, several=False):
    cfg = gen.config(rng, s, conv=sim.convections(s)[0])
    if s not in sim.CHANNEL and cfg['integ'] == 'BS5_adaptive':
        cfg.update(TOL=1e-4)
    cfg['steps'] = rng.choice([1, 2, 3, 4]) if 'Coupled' not in s else 2
    if rng.random() < 0.4:
        cfg['write'] = 1
    if rng.random() < 0.4:
        cfg['ckpt'] = 1
    if long:
        gen.lengthen(rng, cfg)
    if several:
        cfg['segments'] = several_ends(rng, cfg)
        cfg['pause'] = rng.choice([0, 5.0, 1000.0])
    cfg['verbose'] = rng.random() < 0.9
    if rng.random() < 0.2 and not several:
        cfg['profile'] = 1
    n = rng.choice([1, gen.ranks(rng, cfg), gen.ranks(rng, cfg), gen.ranks(rng, cfg)])
    ck = gen.clock(rng, n, cfg['steps'])
    case = dict(fn='clocks', cfg=cfg, n=n, policy=gen.policy(rng), clock=ck)
    if rng.random() < 0.3 and cfg.get('write') == 1:
        case['faults'] = [dict(kind='slow_disk', op='write', k=rng.choice([1, 2]))]
    return case


def cases(tier, seed):
    rng = random.Random('C13-%s' % seed)
    S = ['NS', 'NS2D', 'VV', 'NS2D', 'Bq2D', 'MHD', 'NS', 'KMM', 'KMMRK3', 'KMM_RB', 'KMMr', 'KMMRK3_RB']
    out = [one(rng, S[k % 12], k) for k in range(110)] + [one(rng, s, 0) for s in ('Coupled', 'CoupledRK3')]
    rng = random.Random('C13-long-%s' % seed)
    out += [one(rng, s, 0, True) for s in gen.LONG[:6]]
    rng = random.Random('C13-several-%s' % seed)
    out += [dict(fn='memory', cfg=dict(looks=rng.choice([1, 3, 4])), n=k, policy=gen.policy(rng)) for k in (1, 2, 3, 5, 6)]
    return out + [one(rng, s, 0, False, True) for s in sim.TRIPLY+sim.DOUBLY+('NS', 'KMM', 'NS2D', 'KMMRK3', 'VV', 'KMM_RB')]


def more(rng, i):
    return one(rng, rng.choice(sim.ALL), i, False, rng.random() < 0.2)
