"""Runs a demonstration program of the repository, whole, on every rank of a simulated job.

Its source is executed as __main__ with the command line of the case.  Seams: matplotlib is not installed here, so
the programs draw on a recorder that draws nothing; random numbers come from the mesh point (or wave number) they are
asked for, not from a stream that would depend on the number of processes.
"""
import builtins
import os
import sys
import types

import numpy as np

from . import env, kernel

class Pen:
    """Accepts every drawing command."""

    def __getattr__(self, k):
        if k.startswith('__'):
            raise AttributeError(k)
        return Pen()

    def __call__(self, *a, **k):
        return Pen()

    def __iter__(self):
        return iter((Pen(), Pen()))     # fig, ax = plt.subplots(...)


def pens():
    m = types.ModuleType('matplotlib')
    m.cbook = types.ModuleType('matplotlib.cbook')
    m.cbook.mplDeprecation = DeprecationWarning
    m.pyplot = Plot('matplotlib.pyplot')
    m.__path__ = []
    return {'matplotlib': m, 'matplotlib.cbook': m.cbook, 'matplotlib.pyplot': m.pyplot}


class Plot(types.ModuleType):
    def __getattr__(self, k):
        if k.startswith('__'):
            raise AttributeError(k)
        if k == 'fignum_exists':
            return lambda n: False
        return Pen()


def _noise(points, comp):
    """Numbers in (0, 1) that belong to the points."""
    s = 12.9898*(comp+1)
    for i, x in enumerate(points):
        s = s + np.round(np.asarray(x, dtype=float), 6)*(78.233+31.7*i)
    a = np.sin(s)*43758.5453
    return a-np.floor(a)


def _where(shape):
    """The points for which the calling program wants random numbers: its X, or its wave numbers."""
    f = sys._getframe(2)
    v = f.f_locals
    c = v.get('c', v.get('context'))
    for pts in (v.get('X'), getattr(c, 'K', None), getattr(c, 'X', None)):
        if pts is not None and tuple(np.broadcast(*pts).shape) == tuple(shape)[-len(pts):]:
            pts = [np.broadcast_to(p, np.broadcast(*pts).shape) for p in pts]
            n = int(np.prod(shape[:-len(pts)])) if len(shape) > len(pts) else 1
            return np.array([_noise(pts, i) for i in range(n)]).reshape(shape)
    raise RuntimeError('the program asks for random numbers of shape %s, which is no mesh' % (shape,))


def seams(job, cfg):
    j = kernel.CUR
    if getattr(j, 'drawn', False):
        return
    j.drawn = True
    sys.modules.update(pens())
    if 'MKM' in cfg['demo']:
        # it asks for 1e-7 of noise that each process draws for itself, and uses the first local plane of it
        np.random.randn = lambda *shape: np.zeros(shape)
    else:
        np.random.randn = lambda *shape: 3.4*(_where(shape)-0.5)
    np.random.sample = lambda shape: _where(shape)
    np.random.seed = lambda *a: None


def run(r, job, cfg):
    """cfg: demo (file name in demo/), argv; or call: a function of the program to be called instead of its main part."""
    seams(job, cfg)
    path = os.path.join(env.TREE, 'demo', cfg['demo'])
    if os.path.dirname(path) not in sys.path:
        sys.path.append(os.path.dirname(path))
    sys.argv = [path] + [str(a) for a in cfg['argv']]
    job.busy += 1
    try:
        with builtins.open(path) as f:
            code = compile(f.read(), path, 'exec')
    finally:
        job.busy -= 1
    g = {'__name__': '__main__' if not cfg.get('main') else 'demo', '__file__': path, '__builtins__': builtins}
    exec(code, g)
    if cfg.get('main'):
        exec(compile(cfg['main'], 'main of the check', 'exec'), g)
    c = g.get('config')
    if not hasattr(c, 'params'):
        return {}
    return dict(end=(int(c.params.tstep), float(c.params.t)), dt=float(c.params.dt))
