"""Pieces that several properties share."""
import json
import os
import random
import shutil

import numpy as np

from dst import fakeh5, gen, sim
from dst.harness import Violation, subseed   # noqa: F401

TOL = {'double': 1e-10, 'single': 3e-4}


def tol(cfg):
    t = TOL[cfg.get('precision', 'double')]
    if cfg.get('solver') in ('Coupled', 'CoupledRK3'):
        t = max(t, 1e-8)
    return t


def describe(cfg, n=None):
    k = dict(cfg)
    return ('%d ranks, ' % n if n else '') + json.dumps(k, sort_keys=True)


def run(ctx, cfg, n=1, what=None, **kw):
    """A job that must end normally; adds the gathered history."""
    res = ctx.job(cfg, n, **kw)
    ctx.finished(res, what or 'run on %s' % describe(cfg, n))
    res['snaps'] = sim.gather(res['ret'])
    ctx.stats['steps'] += len(res['snaps'])
    return res


def same_times(ctx, a, b, what):
    ta, tb = [s[:2] for s in a], [s[:2] for s in b]
    if [x[0] for x in ta] != [x[0] for x in tb]:
        ctx.fail('steps', '%s: steps %s and %s' % (what, [x[0] for x in tb], [x[0] for x in ta]))
    for x, y in zip(ta, tb):
        if not abs(x[1]-y[1]) <= 1e-9*max(1.0, abs(x[1])):
            ctx.fail('times', '%s: step %d at time %r instead of %r' % (what, x[0], y[1], x[1]))


def same_states(ctx, a, b, limit, what, names=None):
    """Two gathered histories are equal, step by step; a is the reference."""
    same_times(ctx, a, b, what)
    for x, y in zip(a, b):
        if x[3] is None or y[3] is None:
            continue
        compare(ctx, x[3], y[3], limit, '%s: after step %d' % (what, x[0]), names)


def compare(ctx, g, h, limit, what, names=None, key='state'):
    for k in (names or g):
        if g[k].shape != h[k].shape:
            ctx.fail(key+'-shape', '%s: %s has shape %s instead of %s' % (what, k, h[k].shape, g[k].shape))
        # values are compared on the scale of the whole field, vectors component-wise on the common scale
        d = sim.diff(g[k], h[k])
        ctx.checked()
        if not d <= limit:
            i = np.unravel_index(np.argmax(np.where(np.isfinite(h[k]), np.abs(g[k]-h[k]), np.inf)), g[k].shape)
            ctx.fail(key, '%s: %s differs by %.3g (relative), e.g. %r instead of %r at index %s'
                     % (what, k, d, h[k][i], g[k][i], tuple(int(x) for x in i)))


def finite(ctx, snaps, what):
    for s in snaps:
        for k, v in (s[3] or {}).items():
            if not np.isfinite(v).all():
                ctx.fail('nan', '%s: %s is not finite after step %d' % (what, k, s[0]))


# -- checkpoint files -------------------------------------------------------------------------
SAVED = {'VV': ('curl', ['W_hat']), 'MHD': ('UB', ['UB_hat']), 'Bq2D': ('Ur', ['Ur_hat']),
         'Coupled': ('UP', ['U_hat', 'P_hat']), 'CoupledRK3': ('UP', ['U_hat', 'P_hat'])}
TWO = ('KMM', 'KMMr', 'KMM_RB', 'Coupled')      # these save the previous step as well


def _merge(state, names):
    a = [state[n] if state[n].ndim == state[names[0]].ndim else state[n][None] for n in names]
    return np.concatenate(a, axis=0) if len(a) > 1 else a[0]


def checkpoint_of(c, now, before):
    """{path in the file: values} for a checkpoint of state `now`, whose predecessor is `before`."""
    s = c['solver']
    name, vs = SAVED.get(s, ('U', ['U_hat']))
    d = '%dD' % len(c['N'])
    out = {'/%s/%s/0' % (name, d): _merge(now, vs)}
    if s in TWO:
        out['/%s/%s/1' % (name, d)] = _merge(before, vs)
    if 'RB' in s:
        out['/phi/%s/0' % d] = now['phi_hat']
        if s in TWO:
            out['/phi/%s/1' % d] = before['phi_hat']
    return out


def checkpoints(res, c):
    """{step: (time, {path: values})}: what a checkpoint of each step of a finished run has to hold."""
    prev = sim.gather_start(res['ret'])
    out = {}
    for st, t, dt, g in res['snaps']:
        out[st] = (t, checkpoint_of(c, g, prev))
        prev = g
    return out


def read_checkpoint(path):
    """-> (step, time, {path: array}) or raises OSError/KeyError"""
    f = fakeh5.read_file(path)
    st, t = int(f['@tstep']), float(f['@t'])
    return st, t, {k: v for k, v in f.items() if '@' not in k and '/mesh/' not in k and '/domain/' not in k}


def check_checkpoint(ctx, path, want, allowed, limit, what):
    """The file at path is a complete checkpoint of one of the allowed steps; returns that step (None if it may be absent)."""
    name = os.path.basename(path)
    if not os.path.exists(path):
        if None in allowed:
            return None
        ctx.fail('missing', '%s: there is no checkpoint file, though the checkpoint of step %s was finished' % (what, sorted(allowed)[0]))
    try:
        st, t, data = read_checkpoint(path)
    except (OSError, KeyError) as e:
        if None in allowed:
            return None
        ctx.fail('unreadable', '%s: %s cannot be read, though the checkpoint of step %s was finished: %r'
                 % (what, name, sorted(allowed)[0], e))
    ctx.checked()
    if st not in allowed:
        if None in allowed and st not in want:
            return None
        ctx.fail('wrong-step', '%s: %s is of step %d, time %r instead of step %s'
                 % (what, name, st, t, ' or '.join(str(a) for a in sorted(allowed, key=str))))
    tt, fields = want[st]
    if not abs(t-tt) <= 1e-9*max(1, abs(tt)):
        ctx.fail('wrong-time', '%s: %s holds step %d with time %r instead of %r' % (what, name, st, t, tt))
    for k in sorted(fields):
        if k not in data:
            ctx.fail('field-missing', '%s: %s holds step %d, but %s is missing (there is %s)' % (what, name, st, k, sorted(data)))
        if tuple(data[k].shape) != tuple(fields[k].shape):
            ctx.fail('field-shape', '%s: %s of step %d has shape %s instead of %s' % (what, k, st, data[k].shape, fields[k].shape))
        d = sim.diff(fields[k], data[k])
        ctx.checked()
        if not d <= limit:
            other = [q for q in sorted(want) if k in want[q][1] and sim.diff(want[q][1][k], data[k]) <= limit]
            ctx.fail('wrong-fields', '%s: %s says step %d, but its %s differs from that of step %d by %.3g%s'
                     % (what, name, st, k, st, d, ' (it is that of step %d)' % other[0] if other else ''))
    return st


def progress(res, n):
    """(steps that all ranks were done with, steps that some rank had begun to store) when the job ended."""
    last = [0]*n
    for o in res['obs']:
        if o[1] == 'update':
            last[o[0]] = o[2]
    done = [last[r] if r < len(res['ret']) and res['ret'][r] is not None else last[r]-1 for r in range(n)]
    return min(done), max(last)


def pick(rng, xs, k):
    xs = list(xs)
    rng.shuffle(xs)
    return xs[:k]
