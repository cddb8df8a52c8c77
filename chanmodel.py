"""Sequential model of the channel solvers: per Fourier mode small dense Galerkin systems, no MPI, no fast solvers.

Arrays are ordered (wall, y, z) with velocity components (wall-normal, streamwise, spanwise); KMMr, which has its wall axis
last, is turned into that order by the caller (see `turn`).  Everything is built from Chebyshev nodes, weights and
the stencils of the bases; nothing of spectralDNS or shenfun is used.
"""
import numpy as np
from numpy.polynomial import chebyshev as C

from dst import sim

RKA = (8./15., 5./12., 3./4.)
RKB = (0.0, -17./60., -5./12.)


def nodes(n, quad):
    if quad == 'GC':
        return np.cos(np.pi*(2*np.arange(n)+1)/(2*n)), np.full(n, np.pi/n)
    w = np.full(n, np.pi/(n-1))
    w[0] /= 2
    w[-1] /= 2
    return np.cos(np.pi*np.arange(n)/(n-1)), w


def stencil(n, kind):
    """Rows are the basis functions in Chebyshev polynomials."""
    if kind == 'T':
        return np.eye(n)
    if kind == 'D':
        S = np.zeros((n-2, n))
        for k in range(n-2):
            S[k, k], S[k, k+2] = 1, -1
        return S
    S = np.zeros((n-4, n))
    for k in range(n-4):
        S[k, k], S[k, k+2], S[k, k+4] = 1, -2.*(k+2)/(k+3), (k+1.)/(k+3)
    return S


def turn(c, a, vector):
    """From the order of the solver to (wall, y, z)."""
    if c['solver'] != 'KMMr':
        return a
    a = np.moveaxis(a, -1, -3)
    return a[[2, 0, 1]] if vector else a


def back(c, a, vector):
    if c['solver'] != 'KMMr':
        return a
    a = np.moveaxis(a, -3, -1)
    return a[[1, 2, 0]] if vector else a


class Model:
    def __init__(self, c):
        self.c = c
        r = c['solver'] == 'KMMr'
        N = [int(n) for n in c['N']]
        L = sim.lengths(c)
        self.n, self.ny, self.nz = [N[2], N[0], N[1]] if r else N
        Ly, Lz = (L[0], L[1]) if r else (L[1], L[2])
        n = self.n
        self.quad = c['quad']
        self.x, self.w = nodes(n, self.quad)
        ky = np.fft.fftfreq(self.ny, 1./self.ny)
        kz = np.arange(self.nz//2+1.)
        self.iy, self.iz = ky, kz
        self.ky = (ky*2*np.pi/Ly)[:, None]+0*kz
        self.kz = (kz*2*np.pi/Lz)[None, :]+0*ky[:, None]
        self.K2 = self.ky**2+self.kz**2
        m = np.ones(self.K2.shape)
        if c['mask']:
            if self.ny % 2 == 0:
                m[self.ny//2] = 0
            if self.nz % 2 == 0:
                m[:, self.nz//2] = 0
        self.mask = m
        self.D = np.zeros((n, n))              # T coefficients of the derivative
        self.D[:-1] = C.chebder(np.eye(n))
        V = C.chebvander(self.x, n-1)
        self.G = V.T @ (self.w[:, None]*V)     # inner products of T by the rule of the mesh
        self.S = {k: stencil(n, k) for k in 'TDB'}
        self.mass = {k: self.ip(k, k) for k in 'TDB'}
        d = c['dealias']
        pad = 1.5 if d == '3/2-rule' else 1
        self.m, self.my, self.mz = int(pad*n), int(pad*self.ny), int(pad*self.nz)
        self.xp, self.wp = nodes(self.m, self.quad)
        self.Vp = C.chebvander(self.xp, n-1)
        self.cut = d == '2/3-rule'
        keep = np.ones(self.K2.shape)
        if self.cut:
            keep *= (np.abs(ky) < self.ny//3)[:, None]*(kz < self.nz//3)[None, :]
        self.keep = keep
        self.evals = 0

    def ip(self, a, b, d=0):
        """(test function of a, d-th derivative of basis function of b)"""
        return self.S[a] @ self.G @ np.linalg.matrix_power(self.D, d) @ self.S[b].T

    # -- transforms of the products -----------------------------------------------------------
    def phys(self, h, kind, lift=None):
        """Values on the (padded) mesh of products, of a function given by its coefficients in a basis."""
        n = self.S[kind].shape[0]
        h = h[:n]
        if self.cut:
            h = h*(np.arange(n) < 2*self.n//3)[:, None, None]*self.keep
        t = np.tensordot(self.S[kind].T, h, axes=(1, 0))
        if lift is not None:
            t[:, 0, 0] += lift
        f = np.tensordot(self.Vp, t, axes=(1, 0))
        return self.ift(f)

    def ift(self, f):
        ny, nz, my, mz = self.ny, self.nz, self.my, self.mz
        if (my, mz) == (ny, nz):
            return np.fft.irfft2(f*ny*nz, s=(ny, nz), axes=(1, 2))
        g = np.zeros((f.shape[0], my, mz//2+1), complex)
        py, pz = (ny-1)//2, (nz-1)//2
        g[:, :py+1, :pz+1] = f[:, :py+1, :pz+1]
        g[:, my-py:, :pz+1] = f[:, ny-py:, :pz+1]
        return np.fft.irfft2(g*my*mz, s=(my, mz), axes=(1, 2))

    def ft(self, f):
        ny, nz, my, mz = self.ny, self.nz, self.my, self.mz
        g = np.fft.rfft2(f, axes=(1, 2))/(my*mz)
        if (my, mz) == (ny, nz):
            return g
        h = np.zeros((f.shape[0], ny, nz//2+1), complex)
        py, pz = (ny-1)//2, (nz-1)//2
        h[:, :py+1, :pz+1] = g[:, :py+1, :pz+1]
        h[:, ny-py:, :pz+1] = g[:, my-py:, :pz+1]
        return h

    def project(self, f, kind='D'):
        """Coefficients of the weighted projection of values on the mesh of products."""
        s = self.S[kind] @ (self.Vp.T*self.wp)
        h = np.linalg.solve(self.mass[kind], np.tensordot(s, self.ft(f), axes=(1, 0)).reshape(s.shape[0], -1))
        h = h.reshape((s.shape[0],)+self.K2.shape)*self.mask
        return np.concatenate([h, np.zeros((self.n-h.shape[0],)+self.K2.shape)])

    def der(self, h, kind):
        """T coefficients of the wall-normal derivative."""
        return np.tensordot(self.D @ self.S[kind].T, h[:self.S[kind].shape[0]], axes=(1, 0))

    # -- convection ---------------------------------------------------------------------------
    def convection(self, u, g, kinds='BDD'):
        """H of du/dt = H + ..., in the Dirichlet basis."""
        self.evals += 1
        form = self.c['conv']
        iy, iz = 1j*self.ky, 1j*self.kz
        U = [self.phys(u[i], kinds[i]) for i in range(3)]
        H = np.zeros((3,)+u.shape[1:], complex)
        if form == 'Vortex':
            if g is None:
                g = iy*u[2]-iz*u[1]
            t = lambda i, q: np.tensordot(self.S['D'].T, q*u[i][:self.n-2], axes=(1, 0))
            if kinds[0] == 'D':     # the coupled solvers put the tangential vorticity together in T
                w = [self.phys(g, 'D'), self.phys(t(0, iz)-self.der(u[2], 'D'), 'T'), self.phys(self.der(u[1], 'D')-t(0, iy), 'T')]
            else:
                w = [self.phys(g, 'D'),
                     self.phys(iz*u[0], kinds[0])-self.phys(self.der(u[2], 'D'), 'T'),
                     self.phys(self.der(u[1], 'D'), 'T')-self.phys(iy*u[0], kinds[0])]
            for i in range(3):
                j, k = (i+1) % 3, (i+2) % 3
                H[i] = self.project(U[j]*w[k]-U[k]*w[j])
            return H
        if form in ('Standard', 'Skew'):
            for i in range(3):
                if i == 0:      # vanishes at the walls
                    dx = self.der(u[0], kinds[0])
                    dx = self.inD(dx)
                    dx = self.phys(dx, 'D')
                else:
                    dx = self.phys(self.der(u[i], kinds[i]), 'T')
                H[i] -= self.project(U[0]*dx+U[1]*self.phys(iy*u[i], kinds[i])+U[2]*self.phys(iz*u[i], kinds[i]))
        if form in ('Divergence', 'Skew'):
            for i in range(3):
                H[i] -= self.inD(self.der(self.project(U[0]*U[i]), 'D'))
                H[i] -= iy*self.project(U[1]*U[i])+iz*self.project(U[2]*U[i])
        if form == 'Skew':
            H *= 0.5
        return H

    def inD(self, t):
        """Projection on the Dirichlet basis of a function given in T."""
        h = np.linalg.solve(self.mass['D'], (self.S['D'] @ self.G @ t.reshape(self.n, -1)))
        return np.concatenate([h, np.zeros((2, h.shape[1]))]).reshape(t.shape)

    # -- one implicit (sub-)step --------------------------------------------------------------
    def modes(self):
        for j in range(self.ny):
            for k in range(self.nz//2+1):
                yield j, k, self.ky[j, k], self.kz[j, k], self.K2[j, k]

    def forcing(self, H):
        """Right hand sides of the equations of u and g from H, in weak form."""
        BD, B1, DD = self.ip('B', 'D'), self.ip('B', 'D', 1), self.mass['D']
        n = self.n
        t = lambda M, h: np.tensordot(M, h[:n-2], axes=(1, 0))
        hv = -self.K2*t(BD, H[0])-1j*self.ky*t(B1, H[1])-1j*self.kz*t(B1, H[2])
        hg = 1j*self.ky*t(DD, H[2])-1j*self.kz*t(DD, H[1])
        return hv, hg

    def pressure(self):
        """Scalar product of the constant force with the Dirichlet basis."""
        V = C.chebvander(self.x, self.n-1)
        return -float(self.c['src'])*(self.S['D'] @ V.T @ self.w)

    def kmm(self, u, g, dt, hv, hg, h0):
        """Crank-Nicolson for diffusion over dt, hv, hg, h0: explicit parts, weak forms, of u, g, and the two mean flows."""
        nu, n = self.c['nu'], self.n
        S4, A2, B0 = self.ip('B', 'B', 4), self.ip('B', 'B', 2), self.mass['B']
        DA, DB = self.ip('D', 'D', 2), self.mass['D']
        C1 = self.ip('D', 'B', 1)
        un, gn = np.zeros_like(u), np.zeros_like(g)
        for j, k, ky, kz, K2 in self.modes():
            if K2 == 0:
                M = 2/nu/dt*DB-DA
                for i in (1, 2):
                    un[i, :n-2, j, k] = np.linalg.solve(M, 2/nu*h0[i-1]+(DA+2/nu/dt*DB) @ u[i, :n-2, j, k])
                continue
            L = -nu*dt/2*S4+(1+nu*dt*K2)*A2-(K2+nu*dt/2*K2*K2)*B0
            R = nu*dt/2*S4+(1-nu*dt*K2)*A2-(K2-nu*dt/2*K2*K2)*B0
            a = np.linalg.solve(L, R @ u[0, :n-4, j, k]+dt*hv[:, j, k])
            L = -DA+(K2+2/nu/dt)*DB
            R = DA-(K2-2/nu/dt)*DB
            b = np.linalg.solve(L, R @ g[:n-2, j, k]+2/nu*hg[:, j, k])
            un[0, :n-4, j, k], gn[:n-2, j, k] = a, b
            f = -np.linalg.solve(DB, C1 @ a)
            un[1, :n-2, j, k] = -1j*(ky*f-kz*b)/K2
            un[2, :n-2, j, k] = -1j*(kz*f+ky*b)/K2
        return un, gn

    def coupled(self, u, dt, h):
        """Velocity and pressure together; h: explicit part, weak form."""
        nu, n = self.c['nu'], self.n
        DA, DB = self.ip('D', 'D', 2), self.mass['D']
        P0, P1 = self.ip('D', 'T'), self.ip('D', 'T', 1)
        Q0, Q1 = self.ip('T', 'D'), self.ip('T', 'D', 1)
        un, pn = np.zeros_like(u), np.zeros(u.shape[1:], complex)
        m = n-2
        for j, k, ky, kz, K2 in self.modes():
            H = (2/nu/dt+K2)*DB-DA
            r = [(DA+(2/nu/dt-K2)*DB) @ u[i, :m, j, k]+2/nu*h[i][:, j, k] for i in range(3)]
            if K2 == 0:
                for i in (1, 2):
                    un[i, :m, j, k] = np.linalg.solve(H, r[i])
                continue
            Z, Zq = np.zeros((m, m)), np.zeros((n, n))
            M = np.block([[H, Z, Z, 2/nu*P1], [Z, H, Z, 2j/nu*ky*P0], [Z, Z, H, 2j/nu*kz*P0],
                          [2/nu*Q1, 2j/nu*ky*Q0, 2j/nu*kz*Q0, Zq]])
            s = np.linalg.lstsq(M, np.concatenate(r+[np.zeros(n)]), rcond=1e-13)[0]
            for i in range(3):
                un[i, :m, j, k] = s[i*m:(i+1)*m]
            pn[:, j, k] = s[3*m:]
        return un, pn

    # -- temperature --------------------------------------------------------------------------
    def rb_forcing(self, phi):
        """Buoyancy along the wall normal, in the equation of u; the mean temperature has no part in it."""
        n = self.n
        return -self.K2*np.tensordot(self.ip('B', 'D'), phi[:n-2], axes=(1, 0))

    def lift(self, phi):
        """T coefficients of the linear profile with the boundary values stored in the last two coefficients."""
        t = np.zeros(self.n, complex)
        a, b = phi[self.n-2, 0, 0], phi[self.n-1, 0, 0]
        t[0], t[1] = (a+b)/2, (b-a)/2
        return t

    def rb_div(self, u, phi):
        """(test function, div(u phi)) with products projected"""
        n = self.n
        T = self.phys(phi, 'D', self.lift(phi))
        U = [self.phys(u[0], 'B'), self.phys(u[1], 'D'), self.phys(u[2], 'D')]
        t = lambda M, h: np.tensordot(M, h[:M.shape[1]], axes=(1, 0))
        q = [self.project(T*U[0], 'B'), self.project(T*U[1]), self.project(T*U[2])]
        return t(self.ip('D', 'B', 1), q[0])+1j*self.ky*t(self.mass['D'], q[1])+1j*self.kz*t(self.mass['D'], q[2])

    def rb_grad(self, u, phi):
        """(test function, u . grad phi)"""
        n = self.n
        U = [self.phys(u[0], 'B'), self.phys(u[1], 'D'), self.phys(u[2], 'D')]
        d = self.der(phi, 'D')
        d[:, 0, 0] += self.D @ self.lift(phi)
        s = U[0]*self.phys(d, 'T')+U[1]*self.phys(1j*self.ky*phi, 'D')+U[2]*self.phys(1j*self.kz*phi, 'D')
        return np.tensordot(self.mass['D'], self.project(s)[:n-2], axes=(1, 0))

    def heat(self, phi, dt, N):
        ka, n = self.c.get('kappa', 0.04), self.n
        DA, DB = self.ip('D', 'D', 2), self.mass['D']
        out = np.zeros_like(phi)
        out[n-2:] = phi[n-2:]
        for j, k, ky, kz, K2 in self.modes():
            out[:n-2, j, k] = np.linalg.solve(-DA+(K2+2/ka/dt)*DB,
                                              -2/ka*N[:, j, k]+(DA+(2/ka/dt-K2)*DB) @ phi[:n-2, j, k])
        return out


class Run:
    """A model run: state of the start, then one step at a time."""
    def __init__(self, c, start):
        self.c, self.m = c, Model(c)
        self.s = c['solver']
        self.u = turn(c, start['U_hat'], True).copy()
        self.g = turn(c, start['g'], False).copy() if 'g' in start else None
        self.p = None
        self.phi = start.get('phi_hat')
        self.phi0 = self.phi
        if self.s in ('KMM', 'KMMr', 'KMM_RB', 'Coupled'):
            self.H1 = self.conv()

    def conv(self):
        return self.m.convection(self.u, self.g, 'DDD' if 'Coupled' in self.s else 'BDD')*self.m.mask

    def step(self, dt):
        m, s = self.m, self.s
        n = m.n
        w = lambda h: np.tensordot(m.mass['D'], h[:n-2], axes=(1, 0))
        Sk = m.pressure()
        if s in ('KMM', 'KMMr', 'KMM_RB'):
            H = self.conv()
            Hab = 1.5*H-0.5*self.H1
            self.H1 = H
            hv, hg = m.forcing(Hab)
            h0 = [w(Hab[1])[:, 0, 0]-Sk, w(Hab[2])[:, 0, 0]]
            if s == 'KMM_RB':
                pab = 1.5*self.phi-0.5*self.phi0
                hv = hv+m.rb_forcing(pab)
                N = m.rb_div(self.u, pab)*m.mask
                self.phi0 = self.phi
                self.phi = m.heat(self.phi, dt, N)
            self.u, self.g = m.kmm(self.u, self.g, dt, hv, hg, h0)
        elif s in ('KMMRK3', 'KMMRK3_RB'):
            last = None
            for a, b in zip(RKA, RKB):
                H = self.conv()
                hv, hg = m.forcing(H)
                now = [hv, hg, w(H[1])[:, 0, 0]-Sk, w(H[2])[:, 0, 0]]
                if s == 'KMMRK3_RB':
                    now.append(m.rb_grad(self.u, self.phi)*m.mask)
                mix = [(a*p+b*q)/(a+b) for p, q in zip(now, last or now)]
                last = now
                phi = self.phi
                if s == 'KMMRK3_RB':
                    mix[0] = mix[0]+m.rb_forcing(phi)
                    phi = m.heat(phi, (a+b)*dt, mix[4])
                self.u, self.g = m.kmm(self.u, self.g, (a+b)*dt, mix[0], mix[1], mix[2:4])
                self.phi = phi
        elif s == 'Coupled':
            H = self.conv()
            h = [w(1.5*p-0.5*q) for p, q in zip(H, self.H1)]
            h[1][:, 0, 0] -= Sk
            self.H1 = H
            self.u, self.p = m.coupled(self.u, dt, h)
        else:
            last = None
            for a, b in zip(RKA, RKB):
                h = [w(p) for p in self.conv()]
                h[1][:, 0, 0] -= Sk
                mix = [(a*p+b*q)/(a+b) for p, q in zip(h, last or h)]
                last = h
                self.u, self.p = m.coupled(self.u, (a+b)*dt, mix)

    def state(self):
        out = {'U_hat': back(self.c, self.u, True)}
        if self.g is not None:
            out['g'] = back(self.c, self.g, False)
        if self.phi is not None:
            out['phi_hat'] = self.phi
        return out
