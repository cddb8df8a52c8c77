"""A small sequential reference model of the periodic solvers, in plain numpy.

Written from the equations, not from the solvers: global arrays, numpy.fft, one process.  The state is the
spectral state in the layout of a real-to-complex transform, normalised by the number of mesh points.
"""
import numpy as np

from dst import sim


class Model:
    def __init__(self, c):
        self.c = c = sim.full(c)
        self.N = [int(n) for n in c['N']]
        self.L = sim.lengths(c)
        d = self.d = len(self.N)
        k = [np.fft.fftfreq(n, 1./n) for n in self.N]
        k[-1] = np.fft.rfftfreq(self.N[-1], 1./self.N[-1])
        self.k = np.meshgrid(*k, indexing='ij')
        self.K = [a*2*np.pi/l for a, l in zip(self.k, self.L)]
        self.K2 = sum(a*a for a in self.K)
        self.K2i = np.where(self.K2 == 0, 1, self.K2)
        self.mask = np.ones(self.K2.shape)
        for a, n in zip(self.k, self.N):
            if n % 2 == 0:
                self.mask[np.abs(a) == n//2] = 0
        if not c['mask']:
            self.mask[:] = 1
        self.S = 0
        self.evals = 0

    # -- transforms ----------------------------------------------------------------------------
    def fwd(self, u):
        """Physical (plain mesh) to spectral."""
        ax = tuple(range(-self.d, 0))
        return np.fft.rfftn(u, axes=ax)/np.prod(self.N)

    def bwd(self, h):
        ax = tuple(range(-self.d, 0))
        return np.fft.irfftn(h, s=self.N, axes=ax)*np.prod(self.N)

    def to_phys(self, h):
        """Spectral to the mesh on which products are formed."""
        rule = self.c['dealias']
        if rule == '3/2-rule':
            a = h
            for i in range(self.d-1):
                a = self._pad(a, i-self.d, self.N[i], int(1.5*self.N[i]))
            n, m = self.N[-1], int(1.5*self.N[-1])
            b = np.zeros(a.shape[:-1]+(m//2+1,), complex)
            b[..., :a.shape[-1]] = a
            if n % 2 == 0:
                b[..., n//2] = 0.5*a[..., n//2].real
            return np.fft.irfft(b, m, axis=-1)*m
        if rule == '2/3-rule':
            keep = np.ones(h.shape[-self.d:])
            for i, n in enumerate(self.N):
                kk = self.k[i]
                keep[np.abs(kk) >= n//3] = 0
            h = h*keep
        return self.bwd(h)

    def to_spec(self, u):
        if self.c['dealias'] == '3/2-rule':
            m, n = u.shape[-1], self.N[-1]
            a = np.fft.rfft(u, axis=-1)[..., :n//2+1]/m
            if n % 2 == 0:
                a[..., n//2] = 2*a[..., n//2].real
            for i in reversed(range(self.d-1)):
                a = self._cut(a, i-self.d, self.N[i])
            return a
        return self.fwd(u)

    def _pad(self, a, ax, n, m):
        a = np.moveaxis(a, ax, 0)
        b = np.zeros((m,)+a.shape[1:], complex)
        h = n//2
        b[:h+1] = a[:h+1]
        b[-h:] = a[-h:]
        if n % 2 == 0:
            b[h] *= 0.5
            b[-h] *= 0.5
        return np.moveaxis(np.fft.ifft(b, axis=0)*m, 0, ax)

    def _cut(self, a, ax, n):
        a = np.moveaxis(a, ax, 0)
        m = a.shape[0]
        f = np.fft.fft(a, axis=0)/m
        h = n//2
        b = np.zeros((n,)+a.shape[1:], complex)
        b[:h+1] = f[:h+1]
        b[-h:] += f[-h:]
        return np.moveaxis(b, 0, ax)

    # -- operators -----------------------------------------------------------------------------
    def cross(self, a, b):
        return np.array([a[1]*b[2]-a[2]*b[1], a[2]*b[0]-a[0]*b[2], a[0]*b[1]-a[1]*b[0]])

    def curl(self, h):
        if self.d == 2:
            return 1j*(self.K[0]*h[1]-self.K[1]*h[0])
        return 1j*self.cross(self.K, h)

    def div(self, h):
        return 1j*sum(self.K[i]*h[i] for i in range(self.d))

    def project(self, f):
        """Remove the gradient part; returns (field, i times the potential's coefficient)."""
        p = sum(self.K[i]*f[i] for i in range(self.d))/self.K2i
        return np.array([f[i]-self.K[i]*p for i in range(self.d)]), p

    # -- right-hand sides ----------------------------------------------------------------------
    def rhs(self, h):
        self.evals += 1
        c = self.c
        s = c['solver']
        nu = c['nu']
        if s in ('NS', 'NS2D'):
            n = self.convection(h, c['conv'])*self.mask
            n, self.p = self.project(n)
            return n - nu*self.K2*h + self.S
        if s == 'VV':
            u = self.to_phys(self.curl(h)/self.K2i)      # u = -inverse Laplacian of curl w
            n = self.curl(self.to_spec(self.cross(u, self.to_phys(h))))*self.mask
            return n - nu*self.K2*h + self.S
        if s == 'MHD':
            u, b = self.to_phys(h[:3]), self.to_phys(h[3:])
            fu = np.zeros_like(h[:3])
            fb = np.zeros_like(h[:3])
            for i in range(3):
                for j in range(3):
                    fu[i] -= 1j*self.K[j]*self.to_spec(u[i]*u[j]-b[i]*b[j])
                    fb[i] += 1j*self.K[j]*self.to_spec(b[j]*u[i]-u[j]*b[i])
            fu, self.p = self.project(fu*self.mask)
            return np.concatenate([fu-nu*self.K2*h[:3], fb*self.mask-c.get('eta', 0.02)*self.K2*h[3:]])
        if s == 'Bq2D':
            Ri, Pr = c.get('Ri', 0.3), c.get('Pr', 0.7)
            n = self.convection(h[:2], 'Vortex')*self.mask
            n[1] -= Ri*h[2]
            n, self.p = self.project(n)
            u, r = self.to_phys(h[:2]), self.to_phys(h[2])
            fr = -1j*sum(self.K[j]*self.to_spec(u[j]*r) for j in range(2))*self.mask
            return np.concatenate([n-nu*self.K2*h[:2], (fr-nu/Pr*self.K2*h[2])[None]])
        raise ValueError(s)

    def convection(self, h, form):
        u = self.to_phys(h)
        if form == 'Vortex':
            w = self.to_phys(self.curl(h))
            if self.d == 2:
                return np.array([self.to_spec(u[1]*w), self.to_spec(-u[0]*w)])
            return np.array([self.to_spec(a) for a in self.cross(u, w)])
        out = np.zeros_like(h)
        if form in ('Standard', 'Skewed'):
            for i in range(self.d):
                out[i] -= self.to_spec(sum(u[j]*self.to_phys(1j*self.K[j]*h[i]) for j in range(self.d)))
        if form in ('Divergence', 'Skewed'):
            for i in range(self.d):
                out[i] -= sum(1j*self.K[j]*self.to_spec(u[i]*u[j]) for j in range(self.d))
        return out*(0.5 if form == 'Skewed' else 1)

    # -- steps ---------------------------------------------------------------------------------
    def stepper(self, which=None):
        """A function (state, dt) -> state that carries what the method carries between steps."""
        which = which or self.c['integ']
        f = self.rhs
        if which == 'RK4':
            def step(u, dt):
                k1 = f(u)
                k2 = f(u+dt/2*k1)
                k3 = f(u+dt/2*k2)
                k4 = f(u+dt*k3)
                return u+dt/6*(k1+2*k2+2*k3+k4)
        elif which == 'ForwardEuler':
            def step(u, dt):
                return u+dt*f(u)
        elif which == 'AB2':
            old = []

            def step(u, dt):
                r = f(u)
                v = u+dt*r if not old else u+dt*(1.5*r-0.5*old[0])
                old[:] = [r]
                return v
        else:
            def step(u, dt):
                return bs5(f, u, dt)[0]
        return step


BS_A = [[], [1/6], [2/27, 4/27], [183/1372, -162/343, 1053/1372], [68/297, -4/11, 42/143, 1960/3861],
        [597/22528, 81/352, 63099/585728, 58653/366080, 4617/20480],
        [174197/959244, -30942/79937, 8152137/19744439, 666106/1039181, -29421/29068, 482048/414219],
        [587/8064, 0, 4440339/15491840, 24353/124800, 387/44800, 2152/5985, 7267/94080]]
BS_HAT = [2479/34992, 0, 123/416, 612941/3411720, 43/1440, 2272/6561, 79937/1113912, 3293/556956]


def bs5(f, u, dt):
    """One step of the Bogacki-Shampine 5(4) pair: (new state, difference to the embedded method)."""
    ks = []
    for row in BS_A:
        ks.append(f(u+dt*sum((a*k for a, k in zip(row, ks)), 0*u)))
    new = u+dt*sum(a*k for a, k in zip(BS_A[-1], ks))
    low = u+dt*sum(a*k for a, k in zip(BS_HAT, ks))
    return new, new-low


def controller(est, dt, rejected, fac=0.8, facmin=0.01, facmax=2.0, order=4):
    """Next step size after an attempt with estimate est (Hairer, Norsett & Wanner, II.4)."""
    hi = 1.0 if rejected else facmax
    with np.errstate(divide='ignore'):
        return dt*min(hi, max(facmin, fac*float(np.power(np.float64(1.0)/est, 1.0/(order+1)))))


def estimate(u, new, err, tol):
    """Largest, over components, root mean square over all stored modes of the scaled error."""
    sc = tol+np.maximum(np.abs(u), np.abs(new))*tol
    n = np.prod(u.shape[1:])
    return float(max(np.sqrt(np.sum(np.abs(err[i]/sc[i])**2)/n) for i in range(u.shape[0])))


def initial(c):
    """What sim.initialize has to lead to, as global physical fields: (model, spectral state)."""
    c = sim.full(c)
    m = Model(c)
    N, L = m.N, m.L
    kw = dict(slope=c.get('slope', 2.0), cut=c.get('cut'))
    s = c['solver']
    u = m.fwd(sim._periodic_field(N, L, c['ic'], m.d, True, c['amp'], **kw))
    if s == 'MHD':
        u = np.concatenate([u, m.fwd(sim._periodic_field(N, L, c['ic']+1000, 3, True, 0.7*c['amp'], **kw))])
    if s == 'Bq2D':
        u = np.concatenate([u, m.fwd(sim._periodic_field(N, L, c['ic']+1000, 1, False, c['amp'], **kw))])
    if s == 'VV':
        u = m.curl(u)
    if c['src'] and s in ('NS', 'VV', 'NS2D'):
        f = sim._periodic_field(N, L, c['ic']+5, m.d, True, float(c['src']), cut=0.2)
        m.S = m.fwd(f)
    return m, u


def name(c):
    return {'VV': 'W_hat', 'MHD': 'UB_hat', 'Bq2D': 'Ur_hat'}.get(c['solver'], 'U_hat')
