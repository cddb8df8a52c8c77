From 4676c7b88b2aea17ec8202a06b785e16c1a7eb55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:00 +0000
Subject: [PATCH 01/33] fix: Cython ForwardEuler takes the arguments that
 getintegrator gives it

---
 spectralDNS/optimization/cython_integrators.in | 2 --
 1 file changed, 2 deletions(-)

diff --git a/spectralDNS/optimization/cython_integrators.in b/spectralDNS/optimization/cython_integrators.in
index 80ef204..bc602b7 100644
--- a/spectralDNS/optimization/cython_integrators.in
+++ b/spectralDNS/optimization/cython_integrators.in
@@ -52,7 +52,6 @@ def RK4(np.ndarray[complex_t, ndim=4] U_hat,
     return U_hat, dt, dt
 
 def ForwardEuler(np.ndarray[complex_t, ndim=4] U_hat,
-                 np.ndarray[complex_t, ndim=4] U_hat0,
                  np.ndarray[complex_t, ndim=4] dU,
                  real_t dt,
                  solver,
@@ -139,7 +138,6 @@ def RK4_2D(np.ndarray[complex_t, ndim=3] U_hat,
     return U_hat, dt, dt
 
 def ForwardEuler_2D(np.ndarray[complex_t, ndim=3] U_hat,
-                    np.ndarray[complex_t, ndim=3] U_hat0,
                     np.ndarray[complex_t, ndim=3] dU,
                     real_t dt,
                     solver,
-- 
2.43.0


From 5b385edde750e762361737e730ed2e8ad48f55a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:00 +0000
Subject: [PATCH 02/33] fix: Cython AB2_2D makes its start-up step at tstep 0,
 as AB2 does

---
 spectralDNS/optimization/cython_integrators.in | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spectralDNS/optimization/cython_integrators.in b/spectralDNS/optimization/cython_integrators.in
index bc602b7..94b299e 100644
--- a/spectralDNS/optimization/cython_integrators.in
+++ b/spectralDNS/optimization/cython_integrators.in
@@ -163,7 +163,7 @@ def AB2_2D(np.ndarray[complex_t, ndim=3] U_hat,
     cdef unsigned int rk, i, j, k
     dU = solver.ComputeRHS(dU, U_hat, solver, **context)
 
-    if tstep == 1:
+    if tstep == 0:
         for i in range(dU.shape[0]):
             for j in range(dU.shape[1]):
                 for k in range(dU.shape[2]):
-- 
2.43.0


From 11dfb996d026d0204662a0bdc315b97c78f06c25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:00 +0000
Subject: [PATCH 03/33] fix: Cython cross2_2D reads the wavenumbers by their
 own (sparse) shapes

---
 spectralDNS/optimization/cython_maths.in | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spectralDNS/optimization/cython_maths.in b/spectralDNS/optimization/cython_maths.in
index 918fefe..d6dea74 100644
--- a/spectralDNS/optimization/cython_maths.in
+++ b/spectralDNS/optimization/cython_maths.in
@@ -137,9 +137,9 @@ def _cross3_2D(np.ndarray[complex_t, ndim=2] c,
     #c[:] = 1j*(kx*b[1] - ky*b[0])
 
     for i in xrange(b.shape[1]):
+        a0 = kx[i,0]
         for j in xrange(b.shape[2]):
-            a0 = kx[i,j]
-            a1 = ky[i,j]
+            a1 = ky[0,j]
             b0 = b[0,i,j]
             b1 = b[1,i,j]
             c[i,j].real = -(a0*b1.imag - a1*b0.imag)
-- 
2.43.0


From 6079d4ceb69864e6170cb611a4268963732ba4cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:40 +0000
Subject: [PATCH 04/33] fix: normalise the error estimate of adaptiveRK by the
 global number of modes

The estimate was divided by the size of the part of the mesh that rank 0 holds, such
that step sizes (and solutions) depended on the number of processes.
---
 spectralDNS/maths/integrators.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spectralDNS/maths/integrators.py b/spectralDNS/maths/integrators.py
index 3f97ce5..ee4ffb7 100644
--- a/spectralDNS/maths/integrators.py
+++ b/spectralDNS/maths/integrators.py
@@ -93,7 +93,7 @@ def adaptiveRK(A, b, bhat, err_order, fY_hat, u0_new, sc, err, fsal, offset,
             if comm.Get_rank() == 0:
                 est_to_bcast = np.zeros(1)
                 est = np.max(np.sqrt(nsquared))
-                est /= np.sqrt(np.array(context.T.shape(True)).prod())
+                est /= np.sqrt(np.array(context.T.global_shape(True)).prod())
                 est_to_bcast[0] = est
             est_to_bcast = comm.bcast(est_to_bcast, root=0)
             est = est_to_bcast[0]
@@ -108,7 +108,7 @@ def adaptiveRK(A, b, bhat, err_order, fY_hat, u0_new, sc, err, fsal, offset,
             x = np.zeros(asdf.shape)
             comm.Allreduce(asdf, x, op=MPI.MAX)
             est = np.abs(np.max(x))
-            est /= np.sqrt(np.array(context.T.shape(True)).prod())
+            est /= np.sqrt(np.array(context.T.global_shape(True)).prod())
         else:
             assert False, "Wrong error norm"
 
-- 
2.43.0


From a89e8f9c552db5a7d37c8a90b50fa364ddc3b454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:01 +0000
Subject: [PATCH 05/33] fix: let AB2 and BS5 make their start-up step whenever
 a new integrator is created

The start-up step was made at tstep 0 only. An integrator created later (a run
restarted from a checkpoint, or a second call to solve) then used a right-hand side
that has never been computed.
---
 spectralDNS/maths/integrators.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/spectralDNS/maths/integrators.py b/spectralDNS/maths/integrators.py
index ee4ffb7..0cf5cca 100644
--- a/spectralDNS/maths/integrators.py
+++ b/spectralDNS/maths/integrators.py
@@ -179,6 +179,9 @@ def getintegrator(rhs, u0, solver, context):
     """
     params = solver.params
     u1 = u0.copy()
+    # AB2 and the fsal RK methods reuse results from the previous step, which is
+    # not available for the first step taken by a new integrator (e.g., after a restart)
+    tstep0 = params.tstep
 
     if params.integrator == "RK4":
         # RK4 parameters
@@ -222,7 +225,8 @@ def getintegrator(rhs, u0, solver, context):
         def func():
             return adaptiveRK(A, b, bhat, err_order, fY_hat, u1, sc, err, fsal,
                               offset, params.TOL, params.TOL, adaptive, errnorm,
-                              rhs, u0, solver, params.dt, params.tstep, context,
+                              rhs, u0, solver, params.dt, params.tstep-tstep0,
+                              context,
                               solver.additional_callback, params)
         return func
 
@@ -235,5 +239,5 @@ def getintegrator(rhs, u0, solver, context):
     elif params.integrator == "AB2":
         @wraps(AB2)
         def func():
-            return AB2(u0, u1, rhs, params.dt, params.tstep, solver, context)
+            return AB2(u0, u1, rhs, params.dt, params.tstep-tstep0, solver, context)
         return func
-- 
2.43.0


From 8e5165fa5bd7c85e8a192f517d597ade558ffe85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:24 +0000
Subject: [PATCH 06/33] fix: write checkpoints to a temporary file that
 replaces the previous checkpoint when complete

The only checkpoint was truncated when a run was started again (filemode 'w'), its
step number and time were reset (filemode 'a'), and it was overwritten in place. A
crash could as such leave no valid checkpoint, or fields of one step together with
the time of another.
---
 spectralDNS/h5io/HDF5File.py | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/spectralDNS/h5io/HDF5File.py b/spectralDNS/h5io/HDF5File.py
index cf7de8d..f3d4fc8 100644
--- a/spectralDNS/h5io/HDF5File.py
+++ b/spectralDNS/h5io/HDF5File.py
@@ -62,14 +62,6 @@ class HDF5File(object):
         self.results = results
 
     def update(self, params, **kw):
-        if self.cfile is None:
-            self.cfile = ShenfunFile(self.filename+'_c',
-                                     self.checkpoint['space'],
-                                     mode=params.filemode)
-            self.cfile.open()
-            self.cfile.f.attrs.create('tstep', 0)
-            self.cfile.f.attrs.create('t', 0.0)
-            self.cfile.close()
         if self.wfile is None:
             self.wfile = ShenfunFile(self.filename+'_w',
                                      self.results['space'],
@@ -81,12 +73,22 @@ class HDF5File(object):
 
         kill = self.check_if_kill()
         if params.tstep % params.checkpoint == 0 or kill:
+            # Complete the checkpoint in a temporary file before it replaces the
+            # previous one. As such there is always one valid checkpoint on disk.
+            self.cfile = ShenfunFile(self.filename+'_c_tmp',
+                                     self.checkpoint['space'],
+                                     mode='w')
             for key, val in self.checkpoint['data'].items():
                 self.cfile.write(int(key), val)
-                self.cfile.open()
-                self.cfile.f.attrs['tstep'] = params.tstep
-                self.cfile.f.attrs['t'] = params.t
-                self.cfile.close()
+            self.cfile.open()
+            self.cfile.f.attrs['tstep'] = params.tstep
+            self.cfile.f.attrs['t'] = params.t
+            self.cfile.close()
+            comm.Barrier()
+            if comm.Get_rank() == 0:
+                os.replace(self.filename+'_c_tmp.h5', self.filename+'_c.h5')
+            comm.Barrier()
+            self.cfile.filename = self.filename+'_c.h5'
 
             if kill:
                 sys.exit(1)
-- 
2.43.0


From 01dcb46c9d60f1d3ad3a0338d0d88adbbf4607f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:24 +0000
Subject: [PATCH 07/33] fix: closing HDF5File before its first update is no
 error

solve() called with no steps left to take failed, since no files had been created.
---
 spectralDNS/h5io/HDF5File.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spectralDNS/h5io/HDF5File.py b/spectralDNS/h5io/HDF5File.py
index f3d4fc8..d91c16c 100644
--- a/spectralDNS/h5io/HDF5File.py
+++ b/spectralDNS/h5io/HDF5File.py
@@ -101,9 +101,9 @@ class HDF5File(object):
         self.wfile.open()
 
     def close(self):
-        if self.cfile.f:
+        if self.cfile is not None and self.cfile.f:
             self.cfile.close()
-        if self.wfile.f:
+        if self.wfile is not None and self.wfile.f:
             self.wfile.close()
 
     @staticmethod
-- 
2.43.0


From 53fc68918b02d8ada7c6ce21e324b91aee4c1287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:35:03 +0000
Subject: [PATCH 08/33] fix: AB2 rescales the stored right-hand side when the
 step size changes

If T is not a multiple of dt the last step is shortened. AB2 then combined the
new right-hand side, weighted with the new dt, with the old one weighted with
the old dt, such that the solution was advanced by less than the time.
---
 spectralDNS/maths/integrators.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/spectralDNS/maths/integrators.py b/spectralDNS/maths/integrators.py
index 0cf5cca..23f2bb3 100644
--- a/spectralDNS/maths/integrators.py
+++ b/spectralDNS/maths/integrators.py
@@ -237,7 +237,14 @@ def getintegrator(rhs, u0, solver, context):
         return func
 
     elif params.integrator == "AB2":
+        dt_prev = [params.dt]
+
         @wraps(AB2)
         def func():
+            # u1 is rhs*dt of the previous step. Rescale if dt has changed, which
+            # it does for the last step if T is not a multiple of dt
+            if params.dt != dt_prev[0]:
+                u1[:] *= params.dt/dt_prev[0]
+                dt_prev[0] = params.dt
             return AB2(u0, u1, rhs, params.dt, params.tstep-tstep0, solver, context)
         return func
-- 
2.43.0


From 82d01602e860e2fb3746474fc8832b9e7c8b0f7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:27 +0000
Subject: [PATCH 09/33] fix: C++ solver: spectral data are transposed, the
 first index is y

The transforms are planned with FFTW_MPI_TRANSPOSED_OUT/IN, but the curl and
the pressure gradient multiplied with the wavenumbers of the other axis.
---
 cpp/spectralDNS.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/cpp/spectralDNS.cpp b/cpp/spectralDNS.cpp
index be72c6c..f81789c 100644
--- a/cpp/spectralDNS.cpp
+++ b/cpp/spectralDNS.cpp
@@ -179,15 +179,15 @@ int main( int argc, char *argv[] )
              W[k] /= tot;
            }
         }
-        // Compute curl
+        // Compute curl (spectral arrays are transposed: the first index is y, the second x)
         for (int i=0; i<local_n1; i++)
           for (int j=0; j<N; j++)
             for (int k=0; k<Nf; k++)
             {
                const int z = (i*N+j)*Nf+k;
-               curlZ[z] = one*(kx[i+local_1_start]*V_hat[z]-kx[j]*U_hat[z]);
-               curlY[z] = one*(kz[k]*U_hat[z]-kx[i+local_1_start]*W_hat[z]);
-               curlX[z] = one*(kx[j]*W_hat[z]-kz[k]*V_hat[z]);
+               curlZ[z] = one*(kx[j]*V_hat[z]-kx[i+local_1_start]*U_hat[z]);
+               curlY[z] = one*(kz[k]*U_hat[z]-kx[j]*W_hat[z]);
+               curlX[z] = one*(kx[i+local_1_start]*W_hat[z]-kz[k]*V_hat[z]);
             }
         fftw_mpi_execute_dft_c2r(irfftn, reinterpret_cast<fftw_complex*>(curlX.data()), CU.data());
         fftw_mpi_execute_dft_c2r(irfftn, reinterpret_cast<fftw_complex*>(curlY.data()), CV.data());
@@ -229,9 +229,9 @@ int main( int argc, char *argv[] )
             for (int k=0; k<Nf; k++)
             {
                 const int z = (i*N+j)*Nf+k;
-                P_hat[z] = (dU[z]*kx[i+local_1_start] + dV[z]*kx[j] + dW[z]*kz[k])/kk[z];
-                dU[z] -= (P_hat[z]*kx[i+local_1_start] + nu*dt*kk[z]*U_hat[z]);
-                dV[z] -= (P_hat[z]*kx[j] + nu*dt*kk[z]*V_hat[z]);
+                P_hat[z] = (dU[z]*kx[j] + dV[z]*kx[i+local_1_start] + dW[z]*kz[k])/kk[z];
+                dU[z] -= (P_hat[z]*kx[j] + nu*dt*kk[z]*U_hat[z]);
+                dV[z] -= (P_hat[z]*kx[i+local_1_start] + nu*dt*kk[z]*V_hat[z]);
                 dW[z] -= (P_hat[z]*kz[k] + nu*dt*kk[z]*W_hat[z]);
             }
 
-- 
2.43.0


From 4eebd6f7fe4072d6ad219e8719869386019e13d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:27 +0000
Subject: [PATCH 10/33] fix: C++ solver: compute the velocity of the new step

The first Runge-Kutta stage of the next step, and the energies that are
printed, used the velocity of the last stage of the previous step.
---
 cpp/spectralDNS.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/cpp/spectralDNS.cpp b/cpp/spectralDNS.cpp
index f81789c..c86b508 100644
--- a/cpp/spectralDNS.cpp
+++ b/cpp/spectralDNS.cpp
@@ -268,6 +268,16 @@ int main( int argc, char *argv[] )
             W_hat[z] = W_hat1[z];
         }
 
+    fftw_mpi_execute_dft_c2r(irfftn, reinterpret_cast<fftw_complex*>(U_hat.data()), U.data());
+    fftw_mpi_execute_dft_c2r(irfftn, reinterpret_cast<fftw_complex*>(V_hat.data()), V.data());
+    fftw_mpi_execute_dft_c2r(irfftn, reinterpret_cast<fftw_complex*>(W_hat.data()), W.data());
+    for (int k=0; k<U.size(); k++)
+    {
+        U[k] /= tot;
+        V[k] /= tot;
+        W[k] /= tot;
+    }
+
     if (tstep % 2 == 0)
     {
         s_in[0] = 0.0;
-- 
2.43.0


From f9ab9106269f0ff535324cb70ff33fa7ac505a5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:05 +0000
Subject: [PATCH 11/33] fix: divergence convection of channel flow takes
 products for what they are, in the Dirichlet space

---
 spectralDNS/solvers/KMM.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/spectralDNS/solvers/KMM.py b/spectralDNS/solvers/KMM.py
index bb958b0..4befe16 100644
--- a/spectralDNS/solvers/KMM.py
+++ b/spectralDNS/solvers/KMM.py
@@ -326,15 +326,16 @@ def divergenceConvection(rhs, u_dealias, u_hat, K, VFSp, FSTp, FSBp, FCTp, work,
     """c_i = div(u_i u_j)"""
     if not add:
         rhs.fill(0)
-    F_tmp = Function(VFSp, buffer=work[(rhs, 0, True)])
-    F_tmp2 = Function(VFSp, buffer=work[(rhs, 1, True)])
+    VFSTp = VectorSpace(FSTp) # All products are in the Dirichlet space
+    F_tmp = Function(VFSTp, buffer=work[(rhs, 0, True)])
+    F_tmp2 = Function(VFSTp, buffer=work[(rhs, 1, True)])
     U = u_dealias
 
     F_tmp[0] = FSTp.forward(U[0]*U[0], F_tmp[0])
     F_tmp[1] = FSTp.forward(U[0]*U[1], F_tmp[1])
     F_tmp[2] = FSTp.forward(U[0]*U[2], F_tmp[2])
 
-    F_tmp2 = project(Dx(F_tmp, 0, 1), VFSp, output_array=F_tmp2)
+    F_tmp2 = project(Dx(F_tmp, 0, 1), VFSTp, output_array=F_tmp2)
     rhs += F_tmp2
 
     F_tmp2[0] = FSTp.forward(U[0]*U[1], F_tmp2[0])
-- 
2.43.0


From b4606f0c9fe3e4156b69346d359485bf60077df7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:05 +0000
Subject: [PATCH 12/33] fix: Rayleigh-Benard solvers store the solution of the
 temperature equation

---
 spectralDNS/solvers/KMMRK3_RB.py | 2 +-
 spectralDNS/solvers/KMM_RB.py    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/spectralDNS/solvers/KMMRK3_RB.py b/spectralDNS/solvers/KMMRK3_RB.py
index 0721c49..5ef6458 100644
--- a/spectralDNS/solvers/KMMRK3_RB.py
+++ b/spectralDNS/solvers/KMMRK3_RB.py
@@ -79,7 +79,7 @@ def ComputeRHS(rhs, u_hat, g_hat, p_hat, rk, solver, context):
 
 def solve_linear(u_hat, g_hat, p_hat, rhs, rk, context):
     u_hat, g_hat = KMMRK3_solve_linear(u_hat, g_hat, rhs, rk, **context)
-    p_hat = context.la.HelmholtzSolverT[rk](p_hat, rhs[2])
+    p_hat = context.la.HelmholtzSolverT[rk](rhs[2], p_hat)
     return u_hat, g_hat, p_hat
 
 def DivRBConvection(rhs, u_hat, g_hat, p_hat,
diff --git a/spectralDNS/solvers/KMM_RB.py b/spectralDNS/solvers/KMM_RB.py
index d6d7c30..0d52600 100644
--- a/spectralDNS/solvers/KMM_RB.py
+++ b/spectralDNS/solvers/KMM_RB.py
@@ -94,7 +94,7 @@ def ComputeRHS(rhs, u_hat, g_hat, p_hat, solver, context):
 
 def solve_linear(u_hat, g_hat, p_hat, rhs, context):
     u_hat, g_hat = KMM_solve_linear(u_hat, g_hat, rhs, **context)
-    p_hat = context.la.HelmholtzSolverT(p_hat, rhs[2])
+    p_hat = context.la.HelmholtzSolverT(rhs[2], p_hat)
     return u_hat, g_hat, p_hat
 
 def DivRBConvection(rhs, u_hat, g_hat, p_hat,
-- 
2.43.0


From c5b6918a2c83f333eef153c19e888c109a6af6a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:05 +0000
Subject: [PATCH 13/33] fix: temperature space and operators use the chosen
 quadrature

---
 spectralDNS/solvers/KMMRK3_RB.py | 2 +-
 spectralDNS/solvers/KMM_RB.py    | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/spectralDNS/solvers/KMMRK3_RB.py b/spectralDNS/solvers/KMMRK3_RB.py
index 5ef6458..0bd4294 100644
--- a/spectralDNS/solvers/KMMRK3_RB.py
+++ b/spectralDNS/solvers/KMMRK3_RB.py
@@ -15,7 +15,7 @@ KMMRK3_solve_linear = solve_linear
 def get_context():
     c = KMMRK3_context()
 
-    c.RB = RB = FunctionSpace(config.params.N[0], 'C', bc=(1, 0))
+    c.RB = RB = FunctionSpace(config.params.N[0], 'C', bc=(1, 0), quad=config.params.Dquad)
     c.FRB = FRB = TensorProductSpace(comm, (RB, c.K0, c.K1), **c.kw0)
     c.FRBp = FRBp = FRB.get_dealiased(**c.kw)
 
diff --git a/spectralDNS/solvers/KMM_RB.py b/spectralDNS/solvers/KMM_RB.py
index 0d52600..6d995b9 100644
--- a/spectralDNS/solvers/KMM_RB.py
+++ b/spectralDNS/solvers/KMM_RB.py
@@ -15,7 +15,7 @@ KMM_solve_linear = solve_linear
 def get_context():
     c = KMM_context()
 
-    c.RB = RB = FunctionSpace(config.params.N[0], 'C', bc=(1, 0))
+    c.RB = RB = FunctionSpace(config.params.N[0], 'C', bc=(1, 0), quad=config.params.Dquad)
     c.FRB = FRB = TensorProductSpace(comm, (RB, c.K0, c.K1), **c.kw0)
     c.FRBp = FRBp = FRB.get_dealiased(**c.kw)
 
@@ -43,7 +43,7 @@ def get_context():
     c.la.HelmholtzSolverT = Helmholtz(ADD, BDD,
                                       -np.ones((1, 1, 1)),
                                       (c.K2[0]+2.0/kappa/dt)[np.newaxis, :, :])
-    c.TC = HelmholtzCoeff(config.params.N[0], 1.0, (2./kappa/dt-c.K2), 0)
+    c.TC = HelmholtzCoeff(config.params.N[0], 1.0, (2./kappa/dt-c.K2), 0, RB.quad)
 
     c.hdf5file = RBFile(config.params.solver,
                         checkpoint={'space': c.VFS,
-- 
2.43.0


From a7c4ba4a9a13be4f8e519db4c0c306d9ed6297a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:05 +0000
Subject: [PATCH 14/33] fix: temperature convection of KMMRK3_RB is not erased,
 and has the right gradient of the boundary values

---
 spectralDNS/solvers/KMMRK3_RB.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/spectralDNS/solvers/KMMRK3_RB.py b/spectralDNS/solvers/KMMRK3_RB.py
index 0bd4294..5dcf9d1 100644
--- a/spectralDNS/solvers/KMMRK3_RB.py
+++ b/spectralDNS/solvers/KMMRK3_RB.py
@@ -108,14 +108,14 @@ def StandardRBConvection(rhs, u_hat, g_hat, p_hat,
     N = work[(Ua[0], 0, True)]
     Ua = VFSp.backward(u_hat, Ua)
     dTdx_hat = CTD.matvec(p_hat, dTdx_hat)
-    dTdx_hat[0] += 0.5*BTT[0][0]*(p_hat[-2]-p_hat[-1])
+    dTdx_hat[0] += 0.5*BTT[0][0]*(p_hat[-1]-p_hat[-2])
     dTdx_hat = BTT.solve(dTdx_hat)
     dTdxi[0] = FCTp.backward(dTdx_hat, dTdxi[0])
     dTdxi[1] = FSTp.backward(1j*K[1]*p_hat, dTdxi[1])
     dTdxi[2] = FSTp.backward(1j*K[2]*p_hat, dTdxi[2])
     N[:] = Ua[0]*dTdxi[0] + Ua[1]*dTdxi[1] + Ua[2]*dTdxi[2]
-    N_hat = FSTp.forward(N, N_hat)
-    rhs = mat.BDD.matvec(N_hat, rhs)
+    N_s = FSTp.forward(N, N_s)
+    rhs = mat.BDD.matvec(N_s, rhs)
     return rhs
 
 def integrate(u_hat, g_hat, p_hat, rhs, dt, solver, context):
-- 
2.43.0


From d950c4cd4d6d71d8028c0ecb211651a8d125b33b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:05 +0000
Subject: [PATCH 15/33] fix: KMM_RB convects the boundary temperatures also
 with the 2/3-rule

---
 spectralDNS/solvers/KMM_RB.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/spectralDNS/solvers/KMM_RB.py b/spectralDNS/solvers/KMM_RB.py
index 6d995b9..9d79bfb 100644
--- a/spectralDNS/solvers/KMM_RB.py
+++ b/spectralDNS/solvers/KMM_RB.py
@@ -43,6 +43,9 @@ def get_context():
     c.la.HelmholtzSolverT = Helmholtz(ADD, BDD,
                                       -np.ones((1, 1, 1)),
                                       (c.K2[0]+2.0/kappa/dt)[np.newaxis, :, :])
+    # The 2/3-rule truncates the boundary dofs of FRBp as well, so what they represent is added on the mesh
+    c.phi_bc = 0.5*(1-FRBp.local_mesh(True)[0]) if config.params.dealias == '2/3-rule' else 0
+
     c.TC = HelmholtzCoeff(config.params.N[0], 1.0, (2./kappa/dt-c.K2), 0, RB.quad)
 
     c.hdf5file = RBFile(config.params.solver,
@@ -99,13 +102,14 @@ def solve_linear(u_hat, g_hat, p_hat, rhs, context):
 
 def DivRBConvection(rhs, u_hat, g_hat, p_hat,
                     UCN, VFSp, U_hat0, phi_ab, phi0, mat, K, N_hat,
-                    phi_hat0, phi_hat1, FRBp, FSBp, FSTp, work, **context):
+                    phi_hat0, phi_hat1, FRBp, FSBp, FSTp, phi_bc, work, **context):
     uT_hat = work[(p_hat, 0, True)]
     F_tmp = work[(u_hat, 0, True)]
 
     UCN = VFSp.backward(0.5*(u_hat + U_hat0), UCN)
     phi_ab[:] = 1.5*phi_hat0 - 0.5*phi_hat1
     phi0 = FRBp.backward(phi_ab, phi0)
+    phi0 += phi_bc
     uT_hat = FSBp.forward(phi0*UCN[0], uT_hat)
     F_tmp[0] = mat.CDB.matvec(uT_hat, F_tmp[0])
     uT_hat = FSTp.forward(phi0*UCN[1], uT_hat)
-- 
2.43.0


From 45b5c30ff77a2a260936f72c033b9ececb3a4c6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:12 +0000
Subject: [PATCH 16/33] fix: TG demo stores results also with the VV solver,
 which has no pressure

---
 demo/TG.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/demo/TG.py b/demo/TG.py
index de8e938..182a0fd 100644
--- a/demo/TG.py
+++ b/demo/TG.py
@@ -152,7 +152,8 @@ if __name__ == "__main__":
     def update_components(**c):
         """Overload default because we want to store the curl as well"""
         sol.get_velocity(**c)
-        sol.get_pressure(**c)
+        if 'NS' in config.params.solver:
+            sol.get_pressure(**c)
         sol.get_curl(**c)
 
     context.hdf5file.update_components = update_components
-- 
2.43.0


From 235cfe833e28bbb076e4f325843c8ffa78c29343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:12 +0000
Subject: [PATCH 17/33] fix: Isotropic demo opens the file of spectra for
 writing

---
 demo/Isotropic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/demo/Isotropic.py b/demo/Isotropic.py
index ec2ecb8..0a99bc3 100644
--- a/demo/Isotropic.py
+++ b/demo/Isotropic.py
@@ -213,7 +213,7 @@ def update(context):
 
     if params.tstep % params.compute_spectrum == 0:
         Ek, _, _, _, _ = spectrum(solver, context)
-        f = h5py.File(context.spectrumname, driver='mpio', comm=solver.comm)
+        f = h5py.File(context.spectrumname, mode='a', driver='mpio', comm=solver.comm)
         f['Turbulence/Ek'].create_dataset(str(params.tstep), data=Ek)
         f.close()
 
-- 
2.43.0


From 1a22d020cadbc95e29cb071e680f9bb0852f1a58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:12 +0000
Subject: [PATCH 18/33] fix: Isotropic demo initialises the velocity also with
 the VV solver

---
 demo/Isotropic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/demo/Isotropic.py b/demo/Isotropic.py
index 0a99bc3..41eaec4 100644
--- a/demo/Isotropic.py
+++ b/demo/Isotropic.py
@@ -53,7 +53,7 @@ def initialize(solver, context):
     c.mask = c.T.get_mask_nyquist()
     c.T.mask_nyquist(c.U_hat, c.mask)
 
-    solver.get_velocity(**c)
+    c.U = c.U_hat.backward(c.U)
     U_hat = solver.set_velocity(**c)
 
     K = c.K
-- 
2.43.0


From b939d96cdcf28e8f26fda35a9acb777d9c705f55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:12 +0000
Subject: [PATCH 19/33] fix: Vortices demo draws at the end only where there is
 a figure

---
 demo/Vortices.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/demo/Vortices.py b/demo/Vortices.py
index f05a758..42bb523 100644
--- a/demo/Vortices.py
+++ b/demo/Vortices.py
@@ -66,8 +66,9 @@ def regression_test(context):
     global im
     solver = config.solver
     U = solver.get_velocity(**context)
-    im.set_UVC(U[1, :, :, 0], U[2, :, :, 0])
-    plt.pause(1e-6)
+    if solver.rank == 0:
+        im.set_UVC(U[1, :, :, 0], U[2, :, :, 0])
+        plt.pause(1e-6)
 
 if __name__ == "__main__":
     config.update(
-- 
2.43.0


From a3af13326529e8536733e2880e11febd1e9b62d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:44 +0000
Subject: [PATCH 20/33] fix: Orr-Sommerfeld demos accumulate the error where
 the energy is known, on the first process

---
 demo/OrrSommerfeld.py  | 6 ++++--
 demo/OrrSommerfeldr.py | 3 ++-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/demo/OrrSommerfeld.py b/demo/OrrSommerfeld.py
index d890ac1..37d0762 100644
--- a/demo/OrrSommerfeld.py
+++ b/demo/OrrSommerfeld.py
@@ -217,7 +217,8 @@ if __name__ == "__main__":
         print("spatial refinement-test")
         def update_(con):
             e1, _, exact = compute_error(con)
-            acc[0] += abs(e1/e0-exact)
+            if solver.rank == 0:
+                acc[0] += abs(e1/e0-exact)
         solver.update = update_
         solver.regression_test = spatial_refinement_test
         config.params.verbose = False
@@ -233,7 +234,8 @@ if __name__ == "__main__":
             #solver.update = lambda x: None
             def update_(con):
                 e1, _, exact = compute_error(con)
-                acc[0] += abs(e1/e0-exact)*config.params.dt
+                if solver.rank == 0:
+                    acc[0] += abs(e1/e0-exact)*config.params.dt
             solver.update = update_
             solver.regression_test = refinement_test
         context = solver.get_context()
diff --git a/demo/OrrSommerfeldr.py b/demo/OrrSommerfeldr.py
index df2685f..5c4c75b 100644
--- a/demo/OrrSommerfeldr.py
+++ b/demo/OrrSommerfeldr.py
@@ -215,7 +215,8 @@ if __name__ == "__main__":
         print("spatial refinement-test")
         def update_(con):
             e1, _, exact = compute_error(con)
-            acc[0] += abs(e1/e0-exact)
+            if solver.rank == 0:
+                acc[0] += abs(e1/e0-exact)
         solver.update = update_
         solver.regression_test = spatial_refinement_test
         config.params.verbose = False
-- 
2.43.0


From d214fc9336720615636174af1e4311361be0b82b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:19 +0000
Subject: [PATCH 21/33] fix: LaminarChannel demo collects the velocity profile
 from all processes, for any decomposition

---
 demo/LaminarChannel.py | 26 ++++++++++----------------
 1 file changed, 10 insertions(+), 16 deletions(-)

diff --git a/demo/LaminarChannel.py b/demo/LaminarChannel.py
index 0ec6e39..d19d771 100644
--- a/demo/LaminarChannel.py
+++ b/demo/LaminarChannel.py
@@ -38,6 +38,14 @@ def reference(Re, t, num_terms=200):
         u += a*np.exp(-b*t)*c
     return u
 
+def wall_normal_line(u, context):
+    """Return u along the line y = z = 0 on the first process"""
+    s = context.FST.local_slice(False)
+    line = np.zeros(config.params.N[0])
+    if s[1].start == 0 and s[2].start == 0:
+        line[s[0]] = u[:, 0, 0]
+    return config.solver.comm.reduce(line)
+
 im1 = None
 def update(context):
     global im1
@@ -70,15 +78,8 @@ def update(context):
         plt.pause(1e-6)
 
     if params.tstep % params.compute_energy == 0:
-        u0 = U[1, :, 0, 0].copy()
-        uall = None
-        if solver.rank == 0:
-            uall = np.zeros((solver.num_processes, params.N[0]//solver.num_processes))
-        solver.comm.Gather(u0, uall, root=0)
-
+        x0, uall = wall_normal_line(X[0], context), wall_normal_line(U[1], context)
         if solver.rank == 0:
-            uall = uall.reshape((params.N[0],))
-            x0 = context.X[0][:, 0, 0]
             #x = x0
             #pc = zeros(len(x))
             #pc = ST.fct(uall, pc)  # Cheb transform of result
@@ -93,15 +94,8 @@ def regression_test(context):
     params = config.params
     solver = config.solver
     U = solver.get_velocity(**context)
-    u0 = U[1, :, 0, 0].copy()
-    uall = None
-    if solver.rank == 0:
-        uall = np.zeros((solver.num_processes, params.N[0]//solver.num_processes))
-
-    solver.comm.Gather(u0, uall, root=0)
+    x0, uall = wall_normal_line(context.X[0], context), wall_normal_line(U[1], context)
     if solver.rank == 0:
-        uall = uall.reshape((params.N[0],))
-        x0 = context.X[0][:, 0, 0]
         #x = x0
         #pc = zeros(len(x))
         #pc = ST.fct(uall, pc)  # Cheb transform of result
-- 
2.43.0


From 49653242051f5cd9e54b40e314a8919d86ddff9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:55 +0000
Subject: [PATCH 22/33] fix: statistics of the channel demos combine all
 processes, for any decomposition

---
 demo/MKM.py            | 29 ++++++++++++++++++-----------
 demo/RayleighBenard.py | 33 ++++++++++++++++++++-------------
 2 files changed, 38 insertions(+), 24 deletions(-)

diff --git a/demo/MKM.py b/demo/MKM.py
index deae01d..f107b27 100644
--- a/demo/MKM.py
+++ b/demo/MKM.py
@@ -178,6 +178,7 @@ class Stats(object):
 
     def __init__(self, U, comm, fromstats="", filename=""):
         self.shape = U.shape[1:]
+        self.s = U.function_space().local_slice(False)[-3]
         self.Umean = np.zeros(U.shape[:2])
         self.Pmean = np.zeros(U.shape[1])
         self.UU = np.zeros((6, U.shape[1]))
@@ -194,10 +195,10 @@ class Stats(object):
         self.f0.create_group("Average")
         self.f0.create_group("Reynolds Stress")
         for i in ("U", "V", "W", "P"):
-            self.f0["Average"].create_dataset(i, shape=(2**config.params.M[0],), dtype=float)
+            self.f0["Average"].create_dataset(i, shape=(config.params.N[0],), dtype=float)
 
         for i in ("UU", "VV", "WW", "UV", "UW", "VW"):
-            self.f0["Reynolds Stress"].create_dataset(i, shape=(2**config.params.M[0], ), dtype=float)
+            self.f0["Reynolds Stress"].create_dataset(i, shape=(config.params.N[0],), dtype=float)
 
     def __call__(self, U, P=None):
         self.num_samples += 1
@@ -212,10 +213,17 @@ class Stats(object):
         self.UU[5] += np.sum(U[1]*U[2], axis=(1, 2))
         self.get_stats()
 
+    def average(self, a):
+        """Return mean values over the planes parallel to the walls, from all processes"""
+        N = config.params.N
+        mean = np.zeros(a.shape[:-1]+(N[0],))
+        mean[..., self.s] = a
+        return self.comm.allreduce(mean)/(self.num_samples*N[1]*N[2])
+
     def get_stats(self, tofile=True):
-        N = self.shape[0]
-        s = slice(self.rank*N, (self.rank+1)*N, 1)
-        Nd = self.num_samples*self.shape[1]*self.shape[2]
+        s = self.s
+        Umean, UU = self.average(self.Umean), self.average(self.UU)
+        Pmean = self.average(self.Pmean)
         self.comm.barrier()
         if tofile:
             if self.f0 is None:
@@ -224,15 +232,15 @@ class Stats(object):
                 self.f0 = h5py.File(self.fname+".h5", "a", driver="mpio", comm=self.comm)
 
             for i, name in enumerate(("U", "V", "W")):
-                self.f0["Average/"+name][s] = self.Umean[i]/Nd
-            self.f0["Average/P"][s] = self.Pmean/Nd
+                self.f0["Average/"+name][s] = Umean[i, s]
+            self.f0["Average/P"][s] = Pmean[s]
             for i, name in enumerate(("UU", "VV", "WW", "UV", "UW", "VW")):
-                self.f0["Reynolds Stress/"+name][s] = self.UU[i]/Nd
+                self.f0["Reynolds Stress/"+name][s] = UU[i, s]
             self.f0.attrs.create("num_samples", self.num_samples)
             self.f0.close()
 
         if self.comm.Get_size() == 1:
-            return self.Umean/Nd, self.Pmean/Nd, self.UU/Nd
+            return Umean, Pmean, UU
         return 0
 
     def reset_stats(self):
@@ -244,10 +252,9 @@ class Stats(object):
     def fromfile(self, filename="stats"):
         self.fname = filename
         self.f0 = h5py.File(filename+".h5", "a", driver="mpio", comm=self.comm)
-        N = self.shape[0]
         self.num_samples = self.f0.attrs["num_samples"]
         Nd = self.num_samples*self.shape[1]*self.shape[2]
-        s = slice(self.rank*N, (self.rank+1)*N, 1)
+        s = self.s
         for i, name in enumerate(("U", "V", "W")):
             self.Umean[i, :] = self.f0["Average/"+name][s]*Nd
         self.Pmean[:] = self.f0["Average/P"][s]*Nd
diff --git a/demo/RayleighBenard.py b/demo/RayleighBenard.py
index d8e8587..0a94376 100644
--- a/demo/RayleighBenard.py
+++ b/demo/RayleighBenard.py
@@ -90,6 +90,7 @@ class Stats(object):
 
     def __init__(self, U, comm, fromstats="", filename=""):
         self.shape = U.shape[1:]
+        self.s = U.function_space().local_slice(False)[-3]
         self.Umean = np.zeros(U.shape[:2])
         self.Pmean = np.zeros(U.shape[1])
         self.phim = np.zeros(U.shape[1])
@@ -109,10 +110,10 @@ class Stats(object):
         self.f0.create_group("Average")
         self.f0.create_group("Reynolds Stress")
         for i in ("U", "V", "W", "phi"):
-            self.f0["Average"].create_dataset(i, shape=(2**config.params.M[0],), dtype=float)
+            self.f0["Average"].create_dataset(i, shape=(config.params.N[0],), dtype=float)
 
         for i in ("UU", "VV", "WW", "UV", "UW", "VW", "pp"):
-            self.f0["Reynolds Stress"].create_dataset(i, shape=(2**config.params.M[0], ), dtype=float)
+            self.f0["Reynolds Stress"].create_dataset(i, shape=(config.params.N[0],), dtype=float)
 
     def __call__(self, U, phi):
         self.num_samples += 1
@@ -127,11 +128,19 @@ class Stats(object):
         self.pp += np.sum(phi*phi, axis=(1, 2))
         self.get_stats()
 
+    def average(self, a):
+        """Return mean values over the planes parallel to the walls, from all processes"""
+        N = config.params.N
+        mean = np.zeros(a.shape[:-1]+(N[0],))
+        mean[..., self.s] = a
+        return self.comm.allreduce(mean)/(self.num_samples*N[1]*N[2])
+
     def get_stats(self, tofile=True):
         import h5py
-        N = self.shape[0]
-        s = slice(self.rank*N, (self.rank+1)*N, 1)
-        Nd = self.num_samples*self.shape[1]*self.shape[2]
+        s = self.s
+        Umean, UU = self.average(self.Umean), self.average(self.UU)
+        phim = self.average(self.phim)
+        pp = self.average(self.pp)
         self.comm.barrier()
         if tofile:
             if self.f0 is None:
@@ -140,16 +149,16 @@ class Stats(object):
                 self.f0 = h5py.File(self.fname+".h5", "a", driver="mpio", comm=comm)
 
             for i, name in enumerate(("U", "V", "W")):
-                self.f0["Average/"+name][s] = self.Umean[i]/Nd
-            self.f0["Average/phi"][s] = self.phim/Nd
+                self.f0["Average/"+name][s] = Umean[i, s]
+            self.f0["Average/phi"][s] = phim[s]
             for i, name in enumerate(("UU", "VV", "WW", "UV", "UW", "VW")):
-                self.f0["Reynolds Stress/"+name][s] = self.UU[i]/Nd
-            self.f0["Reynolds Stress/pp"][s] = self.pp/Nd
+                self.f0["Reynolds Stress/"+name][s] = UU[i, s]
+            self.f0["Reynolds Stress/pp"][s] = pp[s]
             self.f0.attrs.create("num_samples", self.num_samples)
             self.f0.close()
 
         if self.comm.Get_size() == 1:
-            return self.Umean/Nd, self.phim/Nd, self.UU/Nd, self.pp/Nd
+            return Umean, phim, UU, pp
         return 0
 
     def reset_stats(self):
@@ -163,11 +172,9 @@ class Stats(object):
         import h5py
         self.fname = filename
         self.f0 = h5py.File(filename+".h5", "a", driver="mpio", comm=comm)
-        N = self.shape[0]
         self.num_samples = self.f0.attrs["num_samples"]
         Nd = self.num_samples*self.shape[1]*self.shape[2]
-        #s = self.T.local_slice(False)[self.axis+1]
-        s = slice(self.rank*N, (self.rank+1)*N, 1)
+        s = self.s
         for i, name in enumerate(("U", "V", "W")):
             self.Umean[i, :] = self.f0["Average/"+name][s]*Nd
         self.phim[:] = self.f0["Average/phi"][s]*Nd
-- 
2.43.0


From 3e4ddbac69dc39d5a1963f37ba6590a7262b2b05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:39 +0000
Subject: [PATCH 23/33] fix: spectrum of the Isotropic demo is right if the
 last axis is distributed

---
 demo/Isotropic.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/demo/Isotropic.py b/demo/Isotropic.py
index 41eaec4..aa2919c 100644
--- a/demo/Isotropic.py
+++ b/demo/Isotropic.py
@@ -87,10 +87,12 @@ def L2_norm(comm, u):
 
 def spectrum(solver, context):
     c = context
-    uiui = np.zeros(c.U_hat[0].shape)
-    uiui[..., 1:-1] = 2*np.sum((c.U_hat[..., 1:-1]*np.conj(c.U_hat[..., 1:-1])).real, axis=0)
-    uiui[..., 0] = np.sum((c.U_hat[..., 0]*np.conj(c.U_hat[..., 0])).real, axis=0)
-    uiui[..., -1] = np.sum((c.U_hat[..., -1]*np.conj(c.U_hat[..., -1])).real, axis=0)
+    uiui = 2*np.sum((c.U_hat*np.conj(c.U_hat)).real, axis=0)
+    # Only the first (and, if even, the last) of all modes along the last axis
+    # has no complex conjugate. They may belong to any process
+    Nz = config.params.N[2]
+    kz = np.arange(Nz//2+1)[c.T.local_slice(True)[2]]
+    uiui[..., (kz == 0) | (2*kz == Nz)] *= 0.5
     uiui *= (4./3.*np.pi)
 
     # Create bins for Ek
-- 
2.43.0


From ec81bfaf52abf79016fd2ed7ff39b1024cb00292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:42 +0000
Subject: [PATCH 24/33] fix: Isotropic demo starts from a checkpoint of any
 solver

---
 demo/Isotropic.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/demo/Isotropic.py b/demo/Isotropic.py
index aa2919c..4aa560a 100644
--- a/demo/Isotropic.py
+++ b/demo/Isotropic.py
@@ -26,11 +26,14 @@ except ImportError:
     warnings.warn("matplotlib not installed")
     plt = None
 
+def get_k2_mask(context):
+    """Return mask with ones where |k| < Kf2 and zeros elsewhere"""
+    return np.where(context.K2 <= config.params.Kf2**2, 1, 0)
+
 def initialize(solver, context):
     c = context
-    # Create mask with ones where |k| < Kf2 and zeros elsewhere
     kf = config.params.Kf2
-    c.k2_mask = np.where(c.K2 <= kf**2, 1, 0)
+    c.k2_mask = get_k2_mask(c)
     np.random.seed(solver.rank)
     k = np.sqrt(c.K2)
     k = np.where(k == 0, 1, k)
@@ -268,17 +271,20 @@ def update(context):
 
 def init_from_file(filename, solver, context):
     f = h5py.File(filename, driver="mpio", comm=solver.comm)
-    assert "0" in f["U/3D"]
     U_hat = context.U_hat
     s = context.T.local_slice(True)
 
-    U_hat[:] = f["U/3D/0"][:, s[0], s[1], s[2]]
+    # The VV solver stores the vorticity
+    if 'VV' in config.params.solver:
+        context.W_hat[:] = f["curl/3D/0"][:, s[0], s[1], s[2]]
+        U_hat = solver.cross2(U_hat, context.K_over_K2, context.W_hat)
+    else:
+        U_hat[:] = f["U/3D/0"][:, s[0], s[1], s[2]]
+
     if solver.rank == 0:
         U_hat[:, 0, 0, 0] = 0.0
 
-    if 'VV' in config.params.solver:
-        context.W_hat = solver.cross2(context.W_hat, context.K, context.U_hat)
-
+    context.k2_mask = get_k2_mask(context)
     context.target_energy = energy_fourier(U_hat, context.T)
 
     f.close()
-- 
2.43.0


From 188eb2703a5297ffe3f10d2533740bf02b341fe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:42 +0000
Subject: [PATCH 25/33] fix: MKM demo continues from a checkpoint as if it had
 not been stopped

---
 demo/MKM.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/demo/MKM.py b/demo/MKM.py
index f107b27..24b4185 100644
--- a/demo/MKM.py
+++ b/demo/MKM.py
@@ -275,14 +275,16 @@ def init_from_file(filename, solver, context):
         U_hat[:] = f["U/3D/1"][su]
 
         # Set g, which is used in computing convection
-        #context.g[:] = 1j*context.K[1]*U_hat[2] - 1j*context.K[2]*U_hat[1]
-        context.U_hat0[:] = U_hat
+        if hasattr(context, 'g'):
+            context.g[:] = 1j*context.K[1]*U_hat[2] - 1j*context.K[2]*U_hat[1]
         context.H_hat1[:] = solver.get_convection(**context)
 
     # current timestep
     U_hat[:] = f["U/3D/0"][su]
     if hasattr(context, 'g'):
         context.g[:] = 1j*context.K[1]*U_hat[2] - 1j*context.K[2]*U_hat[1]
+    if 'RK3' not in config.params.solver:
+        context.U_hat0[:] = U_hat
     f.close()
 
 if __name__ == "__main__":
-- 
2.43.0


From 5b1004d55a993fb35013e8084a71d86d5e0062ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:42 +0000
Subject: [PATCH 26/33] fix: RayleighBenard demo continues from a checkpoint as
 if it had not been stopped

---
 demo/RayleighBenard.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/demo/RayleighBenard.py b/demo/RayleighBenard.py
index 0a94376..a8d0391 100644
--- a/demo/RayleighBenard.py
+++ b/demo/RayleighBenard.py
@@ -201,19 +201,21 @@ def init_from_file(filename, solver, context):
 
         # Set g, which is used in computing convection
         context.g[:] = 1j*context.K[1]*U_hat[2] - 1j*context.K[2]*U_hat[1]
-        context.U_hat0[:] = U_hat
         context.H_hat1[:] = solver.get_convection(**context)
-        context.phi_hat0[:] = f["phi/3D/1"][sp]
+        context.phi_hat1[:] = f["phi/3D/1"][sp]
 
     # current timestep
     U_hat[:] = f["U/3D/0"][su]
     phi_hat[:] = f["phi/3D/0"][sp]
+    if not 'RK3' in config.params.solver:
+        context.U_hat0[:] = U_hat
+        context.phi_hat0[:] = phi_hat
     context.g[:] = 1j*context.K[1]*U_hat[2] - 1j*context.K[2]*U_hat[1]
     context.hdf5file.filename = filename
     if 'tstep' in f.attrs:
         config.params.tstep = f.attrs['tstep']
     if 't' in f.attrs:
-        config.params.tstep = f.attrs['t']
+        config.params.t = f.attrs['t']
     f.close()
 
 if __name__ == "__main__":
-- 
2.43.0


From 146d9510a6f7880fc3fb8e96dac3ed1772a12159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:50 +0000
Subject: [PATCH 27/33] fix: channel pressure expands the wall normal velocity
 in its own basis and leaves the stored convection alone

---
 spectralDNS/solvers/KMM.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/spectralDNS/solvers/KMM.py b/spectralDNS/solvers/KMM.py
index 4befe16..af24a01 100644
--- a/spectralDNS/solvers/KMM.py
+++ b/spectralDNS/solvers/KMM.py
@@ -177,24 +177,28 @@ def get_convection(H_hat, U_hat, g, K, VFSp, FSTp, FSBp, FCTp, work, mat, la, u_
 
 def get_pressure(context, solver):
     FCT = context.FCT
-    FST = context.FST
+    FSB = context.FSB
 
     U_hat = context.U_hat
     U_hat0 = context.U_hat0
-    Um = Function(FST)
+    # The wall normal velocity is expanded in the biharmonic basis
+    Um = Function(FSB)
     Um[:] = 0.5*(U_hat[0] + U_hat0[0])
+    dU = Function(FSB)
+    dU[:] = U_hat[0] - U_hat0[0]
     U = U_hat.backward(context.U)
     U0 = U_hat0.backward(context.U0)
     dt = solver.params.dt
 
-    Hx = Function(FST)
-    Hx[:] = solver.get_convection(**context)[0]
+    # Leave context.H_hat alone, it is required by the next time step
+    H_hat = Function(context.VFST)
+    H_hat = solver.get_convection(**dict(context, H_hat=H_hat))
 
     v = TestFunction(FCT)
     p = TrialFunction(FCT)
     rhs_hat = inner(context.nu*div(grad(Um)), v)
-    Hx -= 1./dt*(U_hat[0]-U_hat0[0])
-    rhs_hat += inner(Hx, v)
+    rhs_hat -= 1./dt*inner(dU, v)
+    rhs_hat += inner(H_hat[0], v)
 
     CT = inner(Dx(p, 0, 1), v)
 
-- 
2.43.0


From ee711dfe14eab27f40c5364c934bf5574e3ff00e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:38 +0000
Subject: [PATCH 28/33] fix: KMMr computes the pressure along its own wall
 normal axis with functions that exist

---
 spectralDNS/solvers/KMMr.py | 54 ++++++++++++++++++++-----------------
 1 file changed, 29 insertions(+), 25 deletions(-)

diff --git a/spectralDNS/solvers/KMMr.py b/spectralDNS/solvers/KMMr.py
index a38d0ae..6144d5c 100644
--- a/spectralDNS/solvers/KMMr.py
+++ b/spectralDNS/solvers/KMMr.py
@@ -178,45 +178,49 @@ def get_convection(H_hat, U_hat, g, Kx, VFSp, FSTp, FSBp, FCTp, work, mat, la, u
 
 def get_pressure(context, solver):
     FCT = context.FCT
-    FST = context.FST
-
-    U = solver.get_velocity(**context)
-    U0 = context.VFS.backward(context.U_hat0, context.U0)
+    FSB = context.FSB
+
+    U_hat = context.U_hat
+    U_hat0 = context.U_hat0
+    # The wall normal velocity is expanded in the biharmonic basis
+    Um = Function(FSB)
+    Um[:] = 0.5*(U_hat[2] + U_hat0[2])
+    dU = Function(FSB)
+    dU[:] = U_hat[2] - U_hat0[2]
+    U = U_hat.backward(context.U)
+    U0 = U_hat0.backward(context.U0)
     dt = solver.params.dt
 
-    H_hat = solver.get_convection(**context)
-    Hx = Array(FST)
-    Hx = FST.backward(H_hat[0], Hx)
+    # Leave context.H_hat alone, it is required by the next time step
+    H_hat = Function(context.VFST)
+    H_hat = solver.get_convection(**dict(context, H_hat=H_hat))
 
     v = TestFunction(FCT)
     p = TrialFunction(FCT)
-    U = U.as_function()
-    U0 = U0.as_function()
-
-    rhs_hat = inner((0.5*context.nu)*div(grad(U[0]+U0[0])), v)
-    Hx -= 1./dt*(U[0]-U0[0])
-    rhs_hat += inner(Hx, v)
+    rhs_hat = inner(context.nu*div(grad(Um)), v)
+    rhs_hat -= 1./dt*inner(dU, v)
+    rhs_hat += inner(H_hat[2], v)
 
-    CT = inner(Dx(p, 0), v)
+    CT = inner(Dx(p, 2, 1), v)
 
     # Should implement fast solver. Just a backwards substitution
-    A = CT.diags().toarray()*CT.scale[0]
-    A[-1, 0] = 1
-    a_i = np.linalg.inv(A)
-
-    p_hat = Function(context.FCT)
+    # Apply integral constraint
+    A = CT.mats[2]
+    N = A.shape[0]
+    A[-(N-1)] = 1
 
-    for j in range(p_hat.shape[1]):
-        for k in range(p_hat.shape[2]):
-            p_hat[:, j, k] = np.dot(a_i, rhs_hat[:, j, k])
+    p_hat = Function(FCT)
+    p_hat = CT.solve(rhs_hat, p_hat)
 
     p = Array(FCT)
     p = FCT.backward(p_hat, p)
 
-    uu = np.sum((0.5*(U+U0))**2, 0)
-    uu *= 0.5
+    uu = 0.
+    if params.convection == 'Vortex':
+        uu = np.sum((0.5*(U+U0))**2, 0)
+        uu *= 0.5
 
-    return p-uu+3./16.
+    return p-uu
 
 def get_divergence(U, U_hat, FST, K, Kx, work, la, mat, **context):
     Uc_hat = work[(U_hat[0], 0, True)]
-- 
2.43.0


From ef11e26413ee2600c3f97b8e12641398d3a6493d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:16 +0000
Subject: [PATCH 29/33] fix: pressure of the Rayleigh-Benard solver balances
 the buoyancy

---
 spectralDNS/solvers/KMM.py    | 4 +++-
 spectralDNS/solvers/KMM_RB.py | 5 +++++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/spectralDNS/solvers/KMM.py b/spectralDNS/solvers/KMM.py
index af24a01..06f1abd 100644
--- a/spectralDNS/solvers/KMM.py
+++ b/spectralDNS/solvers/KMM.py
@@ -175,7 +175,7 @@ def get_convection(H_hat, U_hat, g, K, VFSp, FSTp, FSBp, FCTp, work, mat, la, u_
     H_hat = conv_(H_hat, U_hat, g, K, VFSp, FSTp, FSBp, FCTp, work, mat, la, u_dealias)
     return H_hat
 
-def get_pressure(context, solver):
+def get_pressure(context, solver, force=None):
     FCT = context.FCT
     FSB = context.FSB
 
@@ -199,6 +199,8 @@ def get_pressure(context, solver):
     rhs_hat = inner(context.nu*div(grad(Um)), v)
     rhs_hat -= 1./dt*inner(dU, v)
     rhs_hat += inner(H_hat[0], v)
+    if force is not None:
+        rhs_hat += inner(force, v)
 
     CT = inner(Dx(p, 0, 1), v)
 
diff --git a/spectralDNS/solvers/KMM_RB.py b/spectralDNS/solvers/KMM_RB.py
index 9d79bfb..f436c21 100644
--- a/spectralDNS/solvers/KMM_RB.py
+++ b/spectralDNS/solvers/KMM_RB.py
@@ -9,6 +9,7 @@ from .KMM import *
 from .spectralinit import end_of_tstep
 
 KMM_context = get_context
+KMM_get_pressure = get_pressure
 KMM_ComputeRHS = ComputeRHS
 KMM_solve_linear = solve_linear
 
@@ -71,6 +72,10 @@ def end_of_tstep(context):
     context.N_hat0[:] = context.N_hat
     return False
 
+def get_pressure(context, solver):
+    # The wall normal momentum equation contains buoyancy
+    return KMM_get_pressure(context, solver, force=context.phi_hat)
+
 def ComputeRHS(rhs, u_hat, g_hat, p_hat, solver, context):
     rhs = KMM_ComputeRHS(rhs, u_hat, g_hat, solver, **context)
     c = context
-- 
2.43.0


From 65d6bd48102a66e020d843c39be2956125074cda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:19 +0000
Subject: [PATCH 30/33] fix: Standard, Divergence and Skew convection of KMMr
 along its own wall normal axis

---
 spectralDNS/solvers/KMMr.py | 75 +++++++++++++++----------------------
 1 file changed, 30 insertions(+), 45 deletions(-)

diff --git a/spectralDNS/solvers/KMMr.py b/spectralDNS/solvers/KMMr.py
index 6144d5c..316adbf 100644
--- a/spectralDNS/solvers/KMMr.py
+++ b/spectralDNS/solvers/KMMr.py
@@ -14,6 +14,7 @@ from shenfun.chebyshev.la import Helmholtz, Biharmonic
 from .spectralinit import *
 from ..shen.Matrices import BiharmonicCoeff, HelmholtzCoeff
 from ..shen import LUsolve
+from shenfun import project
 
 def get_context():
     """Set up context for solver"""
@@ -288,34 +289,26 @@ def standardConvection(rhs, u_dealias, u_hat, K, VFSp, FSTp, FSBp, FCTp, work,
                        mat, la):
     rhs[:] = 0
     U = u_dealias
-    Uc = work[(U, 1, True)]
     Uc2 = work[(U, 2, True)]
-    F_tmp = work[(rhs, 0, True)]
 
-    # dudx = 0 from continuity equation. Use Shen Dirichlet basis
-    # Use regular Chebyshev basis for dvdx and dwdx
-    F_tmp[0] = mat.CDB.matvec(u_hat[0], F_tmp[0])
-    F_tmp[0] = la.TDMASolverD(F_tmp[0])
-    dudx = Uc[0] = FSTp.backward(F_tmp[0], Uc[0])
-
-    LUsolve.Mult_CTD_3D_n(params.N[0], u_hat[1], u_hat[2], F_tmp[1], F_tmp[2])
-    dvdx = Uc[1] = FCTp.backward(F_tmp[1], Uc[1])
-    dwdx = Uc[2] = FCTp.backward(F_tmp[2], Uc[2])
+    # dwdz = 0 on the walls from the continuity equation. Use Shen Dirichlet basis
+    # Use regular Chebyshev basis for dudz and dvdz
+    dudz = project(Dx(u_hat[0], 2, 1), FCTp).backward()
+    dvdz = project(Dx(u_hat[1], 2, 1), FCTp).backward()
+    dwdz = project(Dx(u_hat[2], 2, 1), FSTp).backward()
 
-    dudy = Uc2[0] = FSBp.backward(1j*K[1]*u_hat[0], Uc2[0])
-    dudz = Uc2[1] = FSBp.backward(1j*K[2]*u_hat[0], Uc2[1])
+    dudx = Uc2[0] = FSTp.backward(1j*K[0]*u_hat[0], Uc2[0])
+    dudy = Uc2[1] = FSTp.backward(1j*K[1]*u_hat[0], Uc2[1])
     rhs[0] = FSTp.forward(U[0]*dudx + U[1]*dudy + U[2]*dudz, rhs[0])
 
     Uc2[:] = 0
-    dvdy = Uc2[0] = FSTp.backward(1j*K[1]*u_hat[1], Uc2[0])
-
-    dvdz = Uc2[1] = FSTp.backward(1j*K[2]*u_hat[1], Uc2[1])
+    dvdx = Uc2[0] = FSTp.backward(1j*K[0]*u_hat[1], Uc2[0])
+    dvdy = Uc2[1] = FSTp.backward(1j*K[1]*u_hat[1], Uc2[1])
     rhs[1] = FSTp.forward(U[0]*dvdx + U[1]*dvdy + U[2]*dvdz, rhs[1])
 
     Uc2[:] = 0
-    dwdy = Uc2[0] = FSTp.backward(1j*K[1]*u_hat[2], Uc2[0])
-    dwdz = Uc2[1] = FSTp.backward(1j*K[2]*u_hat[2], Uc2[1])
-
+    dwdx = Uc2[0] = FSBp.backward(1j*K[0]*u_hat[2], Uc2[0])
+    dwdy = Uc2[1] = FSBp.backward(1j*K[1]*u_hat[2], Uc2[1])
     rhs[2] = FSTp.forward(U[0]*dwdx + U[1]*dwdy + U[2]*dwdz, rhs[2])
 
     return rhs
@@ -325,36 +318,28 @@ def divergenceConvection(rhs, u_dealias, u_hat, K, VFSp, FSTp, FSBp, FCTp, work,
     """c_i = div(u_i u_j)"""
     if not add:
         rhs.fill(0)
-    F_tmp = work[(rhs, 0, True)]
-    F_tmp2 = work[(rhs, 1, True)]
+    VFSTp = VectorSpace(FSTp) # All products are in the Dirichlet space
+    F_tmp = Function(VFSTp, buffer=work[(rhs, 0, True)])
+    F_tmp2 = Function(VFSTp, buffer=work[(rhs, 1, True)])
     U = u_dealias
 
-    F_tmp[0] = FSTp.forward(U[0]*U[0], F_tmp[0])
-    F_tmp[1] = FSTp.forward(U[0]*U[1], F_tmp[1])
-    F_tmp[2] = FSTp.forward(U[0]*U[2], F_tmp[2])
-
-    F_tmp2[0] = mat.CDD.matvec(F_tmp[0], F_tmp2[0])
-    F_tmp2[1] = mat.CDD.matvec(F_tmp[1], F_tmp2[1])
-    F_tmp2[2] = mat.CDD.matvec(F_tmp[2], F_tmp2[2])
-    F_tmp2[0] = la.TDMASolverD(F_tmp2[0])
-    F_tmp2[1] = la.TDMASolverD(F_tmp2[1])
-    F_tmp2[2] = la.TDMASolverD(F_tmp2[2])
-    rhs[0] += F_tmp2[0]
-    rhs[1] += F_tmp2[1]
-    rhs[2] += F_tmp2[2]
-
-    F_tmp2[0] = FSTp.forward(U[0]*U[1], F_tmp2[0])
-    F_tmp2[1] = FSTp.forward(U[0]*U[2], F_tmp2[1])
-    rhs[0] += 1j*K[1]*F_tmp2[0] # duvdy
-    rhs[0] += 1j*K[2]*F_tmp2[1] # duwdz
-
-    F_tmp[0] = FSTp.forward(U[1]*U[1], F_tmp[0])
+    F_tmp[0] = FSTp.forward(U[0]*U[2], F_tmp[0])
     F_tmp[1] = FSTp.forward(U[1]*U[2], F_tmp[1])
     F_tmp[2] = FSTp.forward(U[2]*U[2], F_tmp[2])
-    rhs[1] += 1j*K[1]*F_tmp[0]  # dvvdy
-    rhs[1] += 1j*K[2]*F_tmp[1]  # dvwdz
-    rhs[2] += 1j*K[1]*F_tmp[1]  # dvwdy
-    rhs[2] += 1j*K[2]*F_tmp[2]  # dwwdz
+
+    F_tmp2 = project(Dx(F_tmp, 2, 1), VFSTp, output_array=F_tmp2)
+    rhs += F_tmp2 # duwdz, dvwdz, dwwdz
+
+    rhs[2] += 1j*K[0]*F_tmp[0] # duwdx
+    rhs[2] += 1j*K[1]*F_tmp[1] # dvwdy
+
+    F_tmp[0] = FSTp.forward(U[0]*U[0], F_tmp[0])
+    F_tmp[1] = FSTp.forward(U[0]*U[1], F_tmp[1])
+    F_tmp[2] = FSTp.forward(U[1]*U[1], F_tmp[2])
+    rhs[0] += 1j*K[0]*F_tmp[0]  # duudx
+    rhs[0] += 1j*K[1]*F_tmp[1]  # duvdy
+    rhs[1] += 1j*K[0]*F_tmp[1]  # duvdx
+    rhs[1] += 1j*K[1]*F_tmp[2]  # dvvdy
 
     return rhs
 
-- 
2.43.0


From 0ea6d4ceb672efb13563793208f32b38848f63e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:19 +0000
Subject: [PATCH 31/33] fix: channel velocity gradients call a kernel that
 exists, KMMr along its own axis

---
 spectralDNS/solvers/KMM.py  |  2 +-
 spectralDNS/solvers/KMMr.py | 26 +++++++++++++-------------
 2 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/spectralDNS/solvers/KMM.py b/spectralDNS/solvers/KMM.py
index 06f1abd..5504694 100644
--- a/spectralDNS/solvers/KMM.py
+++ b/spectralDNS/solvers/KMM.py
@@ -277,7 +277,7 @@ def compute_derivatives(U, U_hat, FST, FCT, FSB, K, la, mat, work, **context):
     F_tmp[0] = mat.CDB.matvec(U_hat[0], F_tmp[0])
     F_tmp[0] = la.TDMASolverD(F_tmp[0])
     duidxj[0, 0] = FST.backward(F_tmp[0], duidxj[0, 0])
-    LUsolve.Mult_CTD_3D_n(params.N[0], U_hat[1], U_hat[2], F_tmp[1], F_tmp[2])
+    LUsolve.Mult_CTD_3D_ptr(params.N[0], U_hat[1], U_hat[2], F_tmp[1], F_tmp[2], 0)
     duidxj[1, 0] = dvdx = FCT.backward(F_tmp[1], duidxj[1, 0])  # proj to Cheb
     duidxj[2, 0] = dwdx = FCT.backward(F_tmp[2], duidxj[2, 0])  # proj to Cheb
     duidxj[0, 1] = dudy = FSB.backward(1j*K[1]*U_hat[0], duidxj[0, 1]) # ShenB
diff --git a/spectralDNS/solvers/KMMr.py b/spectralDNS/solvers/KMMr.py
index 316adbf..efe6a11 100644
--- a/spectralDNS/solvers/KMMr.py
+++ b/spectralDNS/solvers/KMMr.py
@@ -269,20 +269,20 @@ def compute_curl(c, u_hat, g, K, FCTp, FSTp, FSBp, work):
 def compute_derivatives(U, U_hat, FST, FCT, FSB, K, la, mat, work, **context):
     duidxj = np.zeros((3, 3)+U.shape[1:])
     F_tmp = work[(U_hat, 0, True)]
-    # dudx = 0 from continuity equation. Use Shen Dirichlet basis
-    # Use regular Chebyshev basis for dvdx and dwdx
-    F_tmp[0] = mat.CDB.matvec(U_hat[0], F_tmp[0])
-    F_tmp[0] = la.TDMASolverD(F_tmp[0])
-    duidxj[0, 0] = FST.backward(F_tmp[0], duidxj[0, 0])
-    LUsolve.Mult_CTD_3D_n(params.N[0], U_hat[1], U_hat[2], F_tmp[1], F_tmp[2])
-    duidxj[1, 0] = dvdx = FCT.backward(F_tmp[1], duidxj[1, 0])  # proj to Cheb
-    duidxj[2, 0] = dwdx = FCT.backward(F_tmp[2], duidxj[2, 0])  # proj to Cheb
-    duidxj[0, 1] = dudy = FSB.backward(1j*K[1]*U_hat[0], duidxj[0, 1]) # ShenB
-    duidxj[0, 2] = dudz = FSB.backward(1j*K[2]*U_hat[0], duidxj[0, 2])
+    # dwdz = 0 on the walls from the continuity equation. Use Shen Dirichlet basis
+    # Use regular Chebyshev basis for dudz and dvdz
+    LUsolve.Mult_CTD_3D_ptr(params.N[2], U_hat[0], U_hat[1], F_tmp[0], F_tmp[1], 2)
+    duidxj[0, 2] = dudz = FCT.backward(F_tmp[0], duidxj[0, 2])  # proj to Cheb
+    duidxj[1, 2] = dvdz = FCT.backward(F_tmp[1], duidxj[1, 2])  # proj to Cheb
+    F_tmp[2] = mat.CDB.matvec(U_hat[2], F_tmp[2], axis=2)
+    F_tmp[2] = la.TDMASolverD(F_tmp[2], axis=2)
+    duidxj[2, 2] = dwdz = FST.backward(F_tmp[2], duidxj[2, 2])
+    duidxj[0, 0] = dudx = FST.backward(1j*K[0]*U_hat[0], duidxj[0, 0])
+    duidxj[0, 1] = dudy = FST.backward(1j*K[1]*U_hat[0], duidxj[0, 1])
+    duidxj[1, 0] = dvdx = FST.backward(1j*K[0]*U_hat[1], duidxj[1, 0])
     duidxj[1, 1] = dvdy = FST.backward(1j*K[1]*U_hat[1], duidxj[1, 1])
-    duidxj[1, 2] = dvdz = FST.backward(1j*K[2]*U_hat[1], duidxj[1, 2])
-    duidxj[2, 1] = dwdy = FST.backward(1j*K[1]*U_hat[2], duidxj[2, 1])
-    duidxj[2, 2] = dwdz = FST.backward(1j*K[2]*U_hat[2], duidxj[2, 2])
+    duidxj[2, 0] = dwdx = FSB.backward(1j*K[0]*U_hat[2], duidxj[2, 0]) # ShenB
+    duidxj[2, 1] = dwdy = FSB.backward(1j*K[1]*U_hat[2], duidxj[2, 1])
     return duidxj
 
 def standardConvection(rhs, u_dealias, u_hat, K, VFSp, FSTp, FSBp, FCTp, work,
-- 
2.43.0


From 796f90e0adc5e41472be499497a0d01898abf398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:33 +0000
Subject: [PATCH 32/33] fix: Rayleigh-Benard statistics are sampled from the
 current fields

---
 demo/RayleighBenard.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/demo/RayleighBenard.py b/demo/RayleighBenard.py
index a8d0391..1b1d8fe 100644
--- a/demo/RayleighBenard.py
+++ b/demo/RayleighBenard.py
@@ -37,7 +37,7 @@ def update(context):
     solver = config.solver
     X, U, phi = c.X, c.U, c.phi
 
-    if (params.tstep % params.compute_energy == 0 or params.tstep % params.sample_stats or
+    if (params.tstep % params.compute_energy == 0 or params.tstep % params.sample_stats == 0 or
             params.tstep % params.plot_result == 0 and params.plot_result > 0):
         U = solver.get_velocity(**c)
         phi = c.phi_hat.backward(c.phi)
-- 
2.43.0


From 351d76206da4f3798b94dbc79c6cdd82cf4211bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:04 +0000
Subject: [PATCH 33/33] fix: adaptive integrator rejects steps whose error
 estimate is not a number

---
 spectralDNS/maths/integrators.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/spectralDNS/maths/integrators.py b/spectralDNS/maths/integrators.py
index 23f2bb3..e70aa9c 100644
--- a/spectralDNS/maths/integrators.py
+++ b/spectralDNS/maths/integrators.py
@@ -57,6 +57,7 @@ def adaptiveRK(A, b, bhat, err_order, fY_hat, u0_new, sc, err, fsal, offset,
     facmin = 0.01
 
     #We may need to repeat the time-step until a small enough value is used.
+    dt_start = dt
     while True:
         dt_prev = dt
         if fsal:
@@ -127,7 +128,10 @@ def adaptiveRK(A, b, bhat, err_order, fY_hat, u0_new, sc, err, fsal, offset,
             factor = min(facmax, max(facmin, fac*pow((1/est), exponent)*dt/last_dt*pow(last_est/est, exponent)))
         if adaptive:
             dt = dt*factor
-            if  est > 1.0:
+            # est is nan, and not > 1, if the step is so large that the stages overflow
+            if not est <= 1.0:
+                if dt < 1e-16*dt_start:
+                    raise RuntimeError('No step size satisfies the error tolerance')
                 facmax = 1
                 context.is_step_rejected_callback = True
                 context.dt_rejected = dt_prev
-- 
2.43.0

