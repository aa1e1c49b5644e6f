From 32971f196cb349611d462dcedb777dadc640b337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:28 +0000
Subject: [PATCH 01/38] fix: scipy branch of solver_complex2real used an
 unimported spsolve

---
 angler/linalg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/angler/linalg.py b/angler/linalg.py
index 6a62179..28b72f3 100644
--- a/angler/linalg.py
+++ b/angler/linalg.py
@@ -176,7 +176,7 @@ def solver_complex2real(A11, A12, b, timing=False, solver=SOLVER):
         pSolve.clear()
 
     elif solver.lower() == 'scipy':
-        x = spsolve(Areal, np.hstack((b_re, b_im)))
+        x = spl.spsolve(Areal, np.hstack((b_re, b_im)))
 
     else:
         raise ValueError('Invalid solver choice: {}, options are pardiso or scipy'.format(str(solver)))
-- 
2.43.0


From c4d93b9db24fd9cf8e409268f06de49a6bc03a4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:28 +0000
Subject: [PATCH 02/38] fix: grad_kerr_Hx and grad_kerr_Hy referred to an
 undefined name

---
 angler/gradients.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/angler/gradients.py b/angler/gradients.py
index 1f34835..e03b4c3 100644
--- a/angler/gradients.py
+++ b/angler/gradients.py
@@ -153,7 +153,7 @@ def grad_kerr_Hx(optimization, dJ, Ez_nl, args):
     omega = optimization.simulation.omega
 
     b_aj_vec = -1/1j/omega/MU_0_ * Dyb.T.dot(partial_vec)
-    b_aj = b_aj_vec.reshape(Ez.shape)
+    b_aj = b_aj_vec.reshape(Ez_nl.shape)
 
     # everything else is the same
     Ez_aj = adjoint_kerr_Ez(optimization.simulation, b_aj)
@@ -191,7 +191,7 @@ def grad_kerr_Hy(optimization, dJ, Ez_nl, args):
     omega = optimization.simulation.omega
 
     b_aj_vec = 1/1j/omega/MU_0_ * Dxb.T.dot(partial_vec)
-    b_aj = b_aj_vec.reshape(Ez.shape)
+    b_aj = b_aj_vec.reshape(Ez_nl.shape)
 
     # everything else is the same
     Ez_aj = adjoint_kerr_Ez(optimization.simulation, b_aj)
-- 
2.43.0


From dbd909a8d29412f59573becf6fb2d975d2ceb154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:28 +0000
Subject: [PATCH 03/38] fix: periodic index wrap of the density filter left the
 grid

---
 angler/filter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/angler/filter.py b/angler/filter.py
index 27b18d3..1c700a6 100644
--- a/angler/filter.py
+++ b/angler/filter.py
@@ -8,7 +8,7 @@ from autograd import grad
 from functools import partial
 
 def wrap(i, N):
-    return i + (i >= N)*(i - N) + (i < 0)*(i + N)
+    return i % N
 
 def dist(r1, r2):
     return np.sqrt(np.sum(np.square(r1 - r2)))
-- 
2.43.0


From fd00fde7e90d06b9bade242a32fc4c501f38cc55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:28 +0000
Subject: [PATCH 04/38] fix: derivative along a direction with one grid point
 is zero, not the identity

---
 angler/derivatives.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/angler/derivatives.py b/angler/derivatives.py
index 8bbba51..52fdfec 100644
--- a/angler/derivatives.py
+++ b/angler/derivatives.py
@@ -26,7 +26,8 @@ def createDws(w, s, dL, N, matrix_format=DEFAULT_MATRIX_FORMAT):
                 dxb = sp.diags([1, -1, -1], [0, -1, Nx-1], shape=(Nx, Nx))
                 Dws = 1/dx*sp.kron(dxb, sp.eye(Ny), format=matrix_format)
         else:
-            Dws = sp.eye(Ny)            
+            # nothing varies along a direction with a single grid point
+            Dws = sp.csr_matrix((Ny, Ny))
     if w is 'y':
         if Ny > 1:
             if s is 'f':
@@ -36,7 +37,8 @@ def createDws(w, s, dL, N, matrix_format=DEFAULT_MATRIX_FORMAT):
                 dyb = sp.diags([1, -1, -1], [0, -1, Ny-1], shape=(Ny, Ny))
                 Dws = 1/dy*sp.kron(sp.eye(Nx), dyb, format=matrix_format)
         else:
-            Dws = sp.eye(Nx)
+            # nothing varies along a direction with a single grid point
+            Dws = sp.csr_matrix((Nx, Nx))
     return Dws
 
 
-- 
2.43.0


From dd9a0911224d496c29d45ae7affe1790e4aead58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:28 +0000
Subject: [PATCH 05/38] fix: init_design_region('halfway') wrote into the
 caller's permittivity array

---
 angler/simulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/angler/simulation.py b/angler/simulation.py
index 244f1ae..c1625e9 100644
--- a/angler/simulation.py
+++ b/angler/simulation.py
@@ -314,7 +314,7 @@ class Simulation:
 
         elif style == 'halfway':
             # halfway between 1 and eps_m in design region
-            eps_halfway = self.eps_r
+            eps_halfway = self.eps_r.copy()
             eps_halfway[design_region == 1] = eps_m/2 + 1/2
             self.eps_r = eps_halfway
 
-- 
2.43.0


From 11318fc5d5b3a9bb712eeba0e79f88edff4d2f64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:28 +0000
Subject: [PATCH 06/38] fix: assigning a 1D permittivity discarded its reshape

---
 angler/simulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/angler/simulation.py b/angler/simulation.py
index c1625e9..5b7fafc 100644
--- a/angler/simulation.py
+++ b/angler/simulation.py
@@ -94,7 +94,7 @@ class Simulation:
         grid_shape = new_eps.shape
         if len(grid_shape) == 1:
             grid_shape = (grid_shape[0], 1)
-            new_eps.reshape(grid_shape)
+            new_eps = new_eps.reshape(grid_shape)
 
         (Nx, Ny) = grid_shape
         self.Nx = Nx
-- 
2.43.0


From f9409cd3522a2a30847a911df7ca31e72e4f104e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:05 +0000
Subject: [PATCH 07/38] fix: density filter was column-normalised and its
 gradient used W instead of W.T

Next to the PML margin the rows of W did not sum to one, so a uniform density
of 1 gave permittivities above eps_m, and the gradient w.r.t. the density
missed every weight that is not symmetric.
---
 angler/filter.py    |  2 +-
 angler/gradients.py | 18 +++++++++---------
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/angler/filter.py b/angler/filter.py
index 1c700a6..2a81686 100644
--- a/angler/filter.py
+++ b/angler/filter.py
@@ -81,7 +81,7 @@ def get_W(Nx, Ny, design_region, NPML, R=10):
     norm_vec[norm_vec == 0] = 1
     norm_mat = sp.diags(1/norm_vec, shape=(N, N))
 
-    W = W.dot(norm_mat)
+    W = norm_mat.dot(W)
 
     return des_mat.dot(W) + no_des_mat
 
diff --git a/angler/gradients.py b/angler/gradients.py
index e03b4c3..881e803 100644
--- a/angler/gradients.py
+++ b/angler/gradients.py
@@ -28,7 +28,7 @@ def grad_linear_Ez(optimization, dJ, Ez, args):
     rho_b = rhot2rhob(rho_t, eta=optimization.eta, beta=optimization.beta)
     eps_mat = (optimization.eps_m - 1)
 
-    filt_mat = drhot_drho(optimization.W)
+    filt_mat = drhot_drho(optimization.W).T
     proj_mat = drhob_drhot(rho_t, eta=optimization.eta, beta=optimization.beta)
 
     Ez_vec = np.reshape(Ez, (-1,))
@@ -66,7 +66,7 @@ def grad_linear_Hx(optimization, dJ, Ez, args):
     rho_b = rhot2rhob(rho_t, eta=optimization.eta, beta=optimization.beta)
     eps_mat = (optimization.eps_m - 1)
 
-    filt_mat = drhot_drho(optimization.W)
+    filt_mat = drhot_drho(optimization.W).T
     proj_mat = drhob_drhot(rho_t, eta=optimization.eta, beta=optimization.beta)
 
     Ez_vec = np.reshape(Ez, (-1,))
@@ -104,7 +104,7 @@ def grad_linear_Hy(optimization, dJ, Ez, args):
     rho_b = rhot2rhob(rho_t, eta=optimization.eta, beta=optimization.beta)
     eps_mat = (optimization.eps_m - 1)
 
-    filt_mat = drhot_drho(optimization.W)
+    filt_mat = drhot_drho(optimization.W).T
     proj_mat = drhob_drhot(rho_t, eta=optimization.eta, beta=optimization.beta)
 
     Ez_vec = np.reshape(Ez, (-1,))
@@ -133,7 +133,7 @@ def grad_kerr_Ez(optimization, dJ, Ez_nl, args):
     rho_b = rhot2rhob(rho_t, eta=optimization.eta, beta=optimization.beta)
     eps_mat = (optimization.eps_m - 1)
 
-    filt_mat = drhot_drho(optimization.W)
+    filt_mat = drhot_drho(optimization.W).T
     proj_mat = drhob_drhot(rho_t, eta=optimization.eta, beta=optimization.beta)
 
     Ez_vec = np.reshape(Ez_nl, (-1,))
@@ -169,7 +169,7 @@ def grad_kerr_Hx(optimization, dJ, Ez_nl, args):
     rho_b = rhot2rhob(rho_t, eta=optimization.eta, beta=optimization.beta)
     eps_mat = (optimization.eps_m - 1)
 
-    filt_mat = drhot_drho(optimization.W)
+    filt_mat = drhot_drho(optimization.W).T
     proj_mat = drhob_drhot(rho_t, eta=optimization.eta, beta=optimization.beta)
 
     Ez_vec = np.reshape(Ez_nl, (-1,))
@@ -207,7 +207,7 @@ def grad_kerr_Hy(optimization, dJ, Ez_nl, args):
     rho_b = rhot2rhob(rho_t, eta=optimization.eta, beta=optimization.beta)
     eps_mat = (optimization.eps_m - 1)
 
-    filt_mat = drhot_drho(optimization.W)
+    filt_mat = drhot_drho(optimization.W).T
     proj_mat = drhob_drhot(rho_t, eta=optimization.eta, beta=optimization.beta)
 
     Ez_vec = np.reshape(Ez_nl, (-1,))
@@ -270,7 +270,7 @@ def grad_linear_Hz(optimization, dJ, Hz, args, averaging=False):
     rho_b = rhot2rhob(rho_t, eta=optimization.eta, beta=optimization.beta)
     eps_mat = (optimization.eps_m - 1)
 
-    filt_mat = drhot_drho(optimization.W)
+    filt_mat = drhot_drho(optimization.W).T
     proj_mat = drhob_drhot(rho_t, eta=optimization.eta, beta=optimization.beta)
 
     if averaging:
@@ -341,7 +341,7 @@ def grad_linear_Ex(optimization, dJ, Hz, args, averaging=False):
     rho_b = rhot2rhob(rho_t, eta=optimization.eta, beta=optimization.beta)
     eps_mat = (optimization.eps_m - 1)
 
-    filt_mat = drhot_drho(optimization.W)
+    filt_mat = drhot_drho(optimization.W).T
     proj_mat = drhob_drhot(rho_t, eta=optimization.eta, beta=optimization.beta)
 
     if averaging:
@@ -412,7 +412,7 @@ def grad_linear_Ey(optimization, dJ, Hz, args, averaging=False):
     rho_b = rhot2rhob(rho_t, eta=optimization.eta, beta=optimization.beta)
     eps_mat = (optimization.eps_m - 1)
 
-    filt_mat = drhot_drho(optimization.W)
+    filt_mat = drhot_drho(optimization.W).T
     proj_mat = drhob_drhot(rho_t, eta=optimization.eta, beta=optimization.beta)
 
     if averaging:
-- 
2.43.0


From 360aafd54bc8dd0fd25df2864aa8e3a30a1b94cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:34 +0000
Subject: [PATCH 08/38] fix: flux_probe averaged the primary field with the
 wrong neighbour

The transverse field at index c lives on the edge between c-1 and c, but the
slice was averaged with c+1, so the flux through parallel lines in a lossless
waveguide disagreed, and lines reaching the end of the grid raised.
---
 angler/simulation.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/angler/simulation.py b/angler/simulation.py
index 5b7fafc..43ed547 100644
--- a/angler/simulation.py
+++ b/angler/simulation.py
@@ -270,9 +270,9 @@ class Simulation:
                 field_val_Hy = self.fields['Hy']
                 field_val_Hx = self.fields['Hx']
 
-            Ez_x = grid_average(field_val_Ez[inds_x[0]:inds_x[1]+1, inds_y[0]:inds_y[1]+1], 'x')[:-1,:-1]
-            Ez_y = grid_average(field_val_Ez[inds_x[0]:inds_x[1]+1, inds_y[0]:inds_y[1]+1], 'y')[:-1,:-1]
-            # NOTE: Last part drops the extra rows/cols used for grid_average
+            # NOTE: average over the whole grid first, as each edge needs the cell before it
+            Ez_x = grid_average(field_val_Ez, 'x')[inds_x[0]:inds_x[1], inds_y[0]:inds_y[1]]
+            Ez_y = grid_average(field_val_Ez, 'y')[inds_x[0]:inds_x[1], inds_y[0]:inds_y[1]]
 
             if direction_normal == "x":
                 Sx = -1/2*np.real(Ez_x*np.conj(field_val_Hy[inds_x[0]:inds_x[1], inds_y[0]:inds_y[1]]))
@@ -292,9 +292,9 @@ class Simulation:
                 field_val_Ey = self.fields['Ey']
                 field_val_Ex = self.fields['Ex']
 
-            Hz_x = grid_average(field_val_Hz[inds_x[0]:inds_x[1]+1, inds_y[0]:inds_y[1]+1], 'x')[:-1, :-1]
-            Hz_y = grid_average(field_val_Hz[inds_x[0]:inds_x[1]+1, inds_y[0]:inds_y[1]+1], 'y')[:-1, :-1]
-            # NOTE: Last part drops the extra rows/cols used for grid_average
+            # NOTE: average over the whole grid first, as each edge needs the cell before it
+            Hz_x = grid_average(field_val_Hz, 'x')[inds_x[0]:inds_x[1], inds_y[0]:inds_y[1]]
+            Hz_y = grid_average(field_val_Hz, 'y')[inds_x[0]:inds_x[1], inds_y[0]:inds_y[1]]
 
             if direction_normal == "x":
                 Sx = 1/2*np.real(field_val_Ey[inds_x[0]:inds_x[1], inds_y[0]:inds_y[1]]*np.conj(Hz_x))
-- 
2.43.0


From a17756479a2d0334b0e418cb73f88f615a352cf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:59 +0000
Subject: [PATCH 09/38] fix: gradients of objectives of Hz, Ex and Ey were
 wrong

They used the forward instead of the backward derivative for the electric
fields, ignored that the system matrix averages the permittivity on the cell
edges, and dropped the explicit dependence of Ex and Ey on the permittivity.
---
 angler/gradients.py | 216 +++++++++-----------------------------------
 1 file changed, 42 insertions(+), 174 deletions(-)

diff --git a/angler/gradients.py b/angler/gradients.py
index 881e803..d415429 100644
--- a/angler/gradients.py
+++ b/angler/gradients.py
@@ -225,217 +225,85 @@ def grad_kerr_Hy(optimization, dJ, Ez_nl, args):
 ####################################################################################################################################
 
 
-def grad_linear_Hz(optimization, dJ, Hz, args, averaging=False):
+def _sensitivity_Hz(optimization, b_aj, Hz, explicit=0):
+    """ gradient of an objective of the Hz polarization with respect to rho
+        'b_aj' is the adjoint source, 'explicit' is the derivative with respect to
+        eps_r at a fixed Hz (nonzero if the objective depends on the electric fields)
+    """
 
     EPSILON_0_ = EPSILON_0 * optimization.simulation.L0
-    MU_0_ = MU_0*optimization.simulation.L0
     omega = optimization.simulation.omega
-    Dxb = optimization.simulation.derivs['Dxf']
-    Dyb = optimization.simulation.derivs['Dyf']
+    (Dyb, Dxb, _, _) = unpack_derivs(optimization.simulation.derivs)
 
+    # Note: the system matrix uses the permittivity averaged on the cell edges
     eps_tot = optimization.simulation.eps_r
-    M = eps_tot.size
-
-    if averaging:
-        eps_x = grid_average(EPSILON_0_*(eps_tot), 'x')
-        vector_eps_x = eps_x.reshape((-1,))
-        eps_y = grid_average(EPSILON_0_*(eps_tot), 'y')
-        vector_eps_y = eps_y.reshape((-1,))
-    else:
-        vector_eps_x = EPSILON_0_*(eps_tot).reshape((-1,))
-        vector_eps_y = EPSILON_0_*(eps_tot).reshape((-1,))
-
-    T_eps_x_inv = sp.spdiags(1/vector_eps_x, 0, M, M,
-                          format=DEFAULT_MATRIX_FORMAT)
-    T_eps_y_inv = sp.spdiags(1/vector_eps_y, 0, M, M,
-                          format=DEFAULT_MATRIX_FORMAT)
+    vector_eps_x = grid_average(EPSILON_0_*(eps_tot), 'x').reshape((-1,))
+    vector_eps_y = grid_average(EPSILON_0_*(eps_tot), 'y').reshape((-1,))
 
     # get fields
     Hz_vec = np.reshape(Hz, (-1,))
-    Ex_vec =  1/1j/omega * T_eps_y_inv.dot(Dyb).dot(Hz_vec)
-    Ey_vec = -1/1j/omega * T_eps_x_inv.dot(Dxb).dot(Hz_vec) 
+    Ex =  1/1j/omega * (Dyb.dot(Hz_vec) / vector_eps_y).reshape(Hz.shape)
+    Ey = -1/1j/omega * (Dxb.dot(Hz_vec) / vector_eps_x).reshape(Hz.shape)
 
     # adjoint
-    # partial = -dJ(*args)
-    # partial_vec = partial.reshape((-1,))
+    (Ex_aj, Ey_aj) = adjoint_linear_Hz(optimization.simulation, b_aj, averaging=True)
 
-    b_aj = -dJ(*args)
-    (Ex_aj, Ey_aj) = adjoint_linear_Hz(optimization.simulation, b_aj, averaging=averaging)   
-    Ex_aj_vec = np.reshape(Ex_aj, (-1,)).T
-    Ey_aj_vec = np.reshape(Ey_aj, (-1,)).T
+    # each cell contributes to the permittivity of the edges on both of its sides
+    Gx = Ey*Ey_aj
+    Gy = Ex*Ex_aj
+    Gx = (Gx + np.roll(Gx, -1, axis=0))/2
+    Gy = (Gy + np.roll(Gy, -1, axis=1))/2
+    dJdeps = optimization.design_region*(omega**2*EPSILON_0_*(Gx + Gy) + explicit)
 
     # set up filtering bits
     rho = optimization.simulation.rho
     rho_t = rho2rhot(rho, optimization.W)
-    rho_b = rhot2rhob(rho_t, eta=optimization.eta, beta=optimization.beta)
     eps_mat = (optimization.eps_m - 1)
 
     filt_mat = drhot_drho(optimization.W).T
     proj_mat = drhob_drhot(rho_t, eta=optimization.eta, beta=optimization.beta)
 
-    if averaging:
-
-        design_region_x = grid_average(optimization.design_region, 'x')
-        dAdeps_x = design_region_x*omega**2*EPSILON_0_            
-        design_region_y = grid_average(optimization.design_region, 'y')
-        dAdeps_y = design_region_y*omega**2*EPSILON_0_
-        dAdeps_vec_x = np.reshape(dAdeps_x, (-1,))
-        dAdeps_vec_y = np.reshape(dAdeps_y, (-1,))
-        dfdrho_x = eps_mat*filt_mat.multiply(Ex_vec*proj_mat*dAdeps_vec_x)
-        dfdrho_y = eps_mat*filt_mat.multiply(Ey_vec*proj_mat*dAdeps_vec_x)
-        sensitivity_vec = dfdrho_x.dot(Ex_aj_vec) + dfdrho_y.dot(Ey_aj_vec)    
+    sensitivity_vec = eps_mat*filt_mat.dot(proj_mat*np.reshape(dJdeps, (-1,)))
 
-    else:
+    return 1*np.real(np.reshape(sensitivity_vec, rho.shape))
 
-        dAdeps = optimization.design_region*omega**2*EPSILON_0_    # Note: physical constants go here if need be!
-        dAdeps_vec = np.reshape(dAdeps, (-1,))
-        dfdrho_x = eps_mat*filt_mat.multiply(Ex_vec*proj_mat*dAdeps_vec)
-        dfdrho_y = eps_mat*filt_mat.multiply(Ey_vec*proj_mat*dAdeps_vec)
-        sensitivity_vec = dfdrho_x.dot(Ex_aj_vec) + dfdrho_y.dot(Ey_aj_vec)    
+def grad_linear_Hz(optimization, dJ, Hz, args):
+    """gives the linear field gradient: partial J/ partial * H_lin dH_lin / deps"""
 
-    return 1*np.real(np.reshape(sensitivity_vec, rho.shape))    
+    b_aj = -dJ(*args)
+    return _sensitivity_Hz(optimization, b_aj, Hz)
 
-def grad_linear_Ex(optimization, dJ, Hz, args, averaging=False):
+def grad_linear_Ex(optimization, dJ, Hz, args):
+    """gives the linear field gradient: partial J/ partial * E_lin dE_lin / deps"""
 
     EPSILON_0_ = EPSILON_0 * optimization.simulation.L0
-    MU_0_ = MU_0*optimization.simulation.L0
     omega = optimization.simulation.omega
-    Dxb = optimization.simulation.derivs['Dxf']
-    Dyb = optimization.simulation.derivs['Dyf']
-
+    Dyb = optimization.simulation.derivs['Dyb']
     eps_tot = optimization.simulation.eps_r
-    M = eps_tot.size
-
-    if averaging:
-        eps_x = grid_average(EPSILON_0_*(eps_tot), 'x')
-        vector_eps_x = eps_x.reshape((-1,))
-        eps_y = grid_average(EPSILON_0_*(eps_tot), 'y')
-        vector_eps_y = eps_y.reshape((-1,))
-    else:
-        vector_eps_x = EPSILON_0_*(eps_tot).reshape((-1,))
-        vector_eps_y = EPSILON_0_*(eps_tot).reshape((-1,))
-
-    T_eps_x_inv = sp.spdiags(1/vector_eps_x, 0, M, M,
-                          format=DEFAULT_MATRIX_FORMAT)
-    T_eps_y_inv = sp.spdiags(1/vector_eps_y, 0, M, M,
-                          format=DEFAULT_MATRIX_FORMAT)
-
-    # get fields
-    Hz_vec = np.reshape(Hz, (-1,))
-    Ex_vec =  1/1j/omega * T_eps_y_inv.dot(Dyb).dot(Hz_vec)
-    Ey_vec = -1/1j/omega * T_eps_x_inv.dot(Dxb).dot(Hz_vec) 
-
-    partial = -dJ(*args)
-    partial_vec = partial.reshape((-1,))
-
-    b_aj_vec =  1/1j/omega * T_eps_y_inv.dot(Dyb.T).dot(partial_vec)
-    b_aj = b_aj_vec.reshape(Hz.shape)
-
-    (Ex_aj, Ey_aj) = adjoint_linear_Hz(optimization.simulation, b_aj, averaging=averaging)   
-    Ex_aj_vec = np.reshape(Ex_aj, (-1,)).T
-    Ey_aj_vec = np.reshape(Ey_aj, (-1,)).T
-
-    # set up filtering bits
-    rho = optimization.simulation.rho
-    rho_t = rho2rhot(rho, optimization.W)
-    rho_b = rhot2rhob(rho_t, eta=optimization.eta, beta=optimization.beta)
-    eps_mat = (optimization.eps_m - 1)
-
-    filt_mat = drhot_drho(optimization.W).T
-    proj_mat = drhob_drhot(rho_t, eta=optimization.eta, beta=optimization.beta)
-
-    if averaging:
+    partial = dJ(*args)
 
-        design_region_x = grid_average(optimization.design_region, 'x')
-        dAdeps_x = design_region_x*omega**2*EPSILON_0_            
-        design_region_y = grid_average(optimization.design_region, 'y')
-        dAdeps_y = design_region_y*omega**2*EPSILON_0_
-        dAdeps_vec_x = np.reshape(dAdeps_x, (-1,))
-        dAdeps_vec_y = np.reshape(dAdeps_y, (-1,))
-        dfdrho_x = eps_mat*filt_mat.multiply(Ex_vec*proj_mat*dAdeps_vec_x)
-        dfdrho_y = eps_mat*filt_mat.multiply(Ey_vec*proj_mat*dAdeps_vec_x)
-        sensitivity_vec = dfdrho_x.dot(Ex_aj_vec) + dfdrho_y.dot(Ey_aj_vec)    
+    # Note: the stored Ex uses the permittivity of the cell, without averaging
+    to_Ex = 1/1j/omega/(EPSILON_0_*eps_tot)
+    Ex = to_Ex*Dyb.dot(np.reshape(Hz, (-1,))).reshape(Hz.shape)
 
-    else:
+    b_aj = -Dyb.T.dot((to_Ex*partial).reshape((-1,))).reshape(Hz.shape)
+    return _sensitivity_Hz(optimization, b_aj, Hz, explicit=-partial*Ex/eps_tot)
 
-        dAdeps = optimization.design_region*omega**2*EPSILON_0_    # Note: physical constants go here if need be!
-        dAdeps_vec = np.reshape(dAdeps, (-1,))
-        dfdrho_x = eps_mat*filt_mat.multiply(Ex_vec*proj_mat*dAdeps_vec)
-        dfdrho_y = eps_mat*filt_mat.multiply(Ey_vec*proj_mat*dAdeps_vec)
-        sensitivity_vec = dfdrho_x.dot(Ex_aj_vec) + dfdrho_y.dot(Ey_aj_vec)    
-
-    return 1*np.real(np.reshape(sensitivity_vec, rho.shape)) 
-
-def grad_linear_Ey(optimization, dJ, Hz, args, averaging=False):
+def grad_linear_Ey(optimization, dJ, Hz, args):
+    """gives the linear field gradient: partial J/ partial * E_lin dE_lin / deps"""
 
     EPSILON_0_ = EPSILON_0 * optimization.simulation.L0
-    MU_0_ = MU_0*optimization.simulation.L0
     omega = optimization.simulation.omega
-    Dxb = optimization.simulation.derivs['Dxf']
-    Dyb = optimization.simulation.derivs['Dyf']
-
+    Dxb = optimization.simulation.derivs['Dxb']
     eps_tot = optimization.simulation.eps_r
-    M = eps_tot.size
-
-    if averaging:
-        eps_x = grid_average(EPSILON_0_*(eps_tot), 'x')
-        vector_eps_x = eps_x.reshape((-1,))
-        eps_y = grid_average(EPSILON_0_*(eps_tot), 'y')
-        vector_eps_y = eps_y.reshape((-1,))
-    else:
-        vector_eps_x = EPSILON_0_*(eps_tot).reshape((-1,))
-        vector_eps_y = EPSILON_0_*(eps_tot).reshape((-1,))
-
-    T_eps_x_inv = sp.spdiags(1/vector_eps_x, 0, M, M,
-                          format=DEFAULT_MATRIX_FORMAT)
-    T_eps_y_inv = sp.spdiags(1/vector_eps_y, 0, M, M,
-                          format=DEFAULT_MATRIX_FORMAT)
-
-    # get fields
-    Hz_vec = np.reshape(Hz, (-1,))
-    Ex_vec =  1/1j/omega * T_eps_y_inv.dot(Dyb).dot(Hz_vec)
-    Ey_vec = -1/1j/omega * T_eps_x_inv.dot(Dxb).dot(Hz_vec) 
+    partial = dJ(*args)
 
-    partial = -dJ(*args)
-    partial_vec = partial.reshape((-1,))
+    # Note: the stored Ey uses the permittivity of the cell, without averaging
+    to_Ey = -1/1j/omega/(EPSILON_0_*eps_tot)
+    Ey = to_Ey*Dxb.dot(np.reshape(Hz, (-1,))).reshape(Hz.shape)
 
-    b_aj_vec = -1/1j/omega * T_eps_x_inv.dot(Dxb.T).dot(partial_vec)
-    b_aj = b_aj_vec.reshape(Hz.shape)
-
-    (Ex_aj, Ey_aj) = adjoint_linear_Hz(optimization.simulation, b_aj, averaging=averaging)   
-    Ex_aj_vec = np.reshape(Ex_aj, (-1,)).T
-    Ey_aj_vec = np.reshape(Ey_aj, (-1,)).T
-
-    # set up filtering bits
-    rho = optimization.simulation.rho
-    rho_t = rho2rhot(rho, optimization.W)
-    rho_b = rhot2rhob(rho_t, eta=optimization.eta, beta=optimization.beta)
-    eps_mat = (optimization.eps_m - 1)
-
-    filt_mat = drhot_drho(optimization.W).T
-    proj_mat = drhob_drhot(rho_t, eta=optimization.eta, beta=optimization.beta)
-
-    if averaging:
-
-        design_region_x = grid_average(optimization.design_region, 'x')
-        dAdeps_x = design_region_x*omega**2*EPSILON_0_            
-        design_region_y = grid_average(optimization.design_region, 'y')
-        dAdeps_y = design_region_y*omega**2*EPSILON_0_
-        dAdeps_vec_x = np.reshape(dAdeps_x, (-1,))
-        dAdeps_vec_y = np.reshape(dAdeps_y, (-1,))
-        dfdrho_x = eps_mat*filt_mat.multiply(Ex_vec*proj_mat*dAdeps_vec_x)
-        dfdrho_y = eps_mat*filt_mat.multiply(Ey_vec*proj_mat*dAdeps_vec_x)
-        sensitivity_vec = dfdrho_x.dot(Ex_aj_vec) + dfdrho_y.dot(Ey_aj_vec)    
-
-    else:
-
-        dAdeps = optimization.design_region*omega**2*EPSILON_0_    # Note: physical constants go here if need be!
-        dAdeps_vec = np.reshape(dAdeps, (-1,))
-        dfdrho_x = eps_mat*filt_mat.multiply(Ex_vec*proj_mat*dAdeps_vec)
-        dfdrho_y = eps_mat*filt_mat.multiply(Ey_vec*proj_mat*dAdeps_vec)
-        sensitivity_vec = dfdrho_x.dot(Ex_aj_vec) + dfdrho_y.dot(Ey_aj_vec)    
-
-    return 1*np.real(np.reshape(sensitivity_vec, rho.shape))
+    b_aj = -Dxb.T.dot((to_Ey*partial).reshape((-1,))).reshape(Hz.shape)
+    return _sensitivity_Hz(optimization, b_aj, Hz, explicit=-partial*Ey/eps_tot)
 
 def grad_kerr_Hz(optimization, dJ, Ez_nl, args):
     raise NotImplementedError("need to write gradient for kerr Hz")
-- 
2.43.0


From 27415b6763160ab704bf8d6c887738dbd3f13f40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:59 +0000
Subject: [PATCH 10/38] fix: kerr gradients solved the adjoint problem before
 evaluating the nonlinearity

The adjoint operator was built from whatever field the nonlinearity had last
been evaluated on, not from the nonlinear field of the objective.
---
 angler/gradients.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/angler/gradients.py b/angler/gradients.py
index d415429..b4f71d4 100644
--- a/angler/gradients.py
+++ b/angler/gradients.py
@@ -120,8 +120,8 @@ def grad_kerr_Ez(optimization, dJ, Ez_nl, args):
     """gives the linear field gradient: partial J/ partial * E_lin dE_lin / deps"""
 
     b_aj = -dJ(*args)
-    Ez_aj = adjoint_kerr_Ez(optimization.simulation, b_aj)
     optimization.simulation.compute_nl(Ez_nl)
+    Ez_aj = adjoint_kerr_Ez(optimization.simulation, b_aj)
 
     EPSILON_0_ = EPSILON_0*optimization.simulation.L0
     omega = optimization.simulation.omega
@@ -156,8 +156,8 @@ def grad_kerr_Hx(optimization, dJ, Ez_nl, args):
     b_aj = b_aj_vec.reshape(Ez_nl.shape)
 
     # everything else is the same
-    Ez_aj = adjoint_kerr_Ez(optimization.simulation, b_aj)
     optimization.simulation.compute_nl(Ez_nl)
+    Ez_aj = adjoint_kerr_Ez(optimization.simulation, b_aj)
 
     EPSILON_0_ = EPSILON_0*optimization.simulation.L0
     omega = optimization.simulation.omega
@@ -194,8 +194,8 @@ def grad_kerr_Hy(optimization, dJ, Ez_nl, args):
     b_aj = b_aj_vec.reshape(Ez_nl.shape)
 
     # everything else is the same
-    Ez_aj = adjoint_kerr_Ez(optimization.simulation, b_aj)
     optimization.simulation.compute_nl(Ez_nl)
+    Ez_aj = adjoint_kerr_Ez(optimization.simulation, b_aj)
 
     EPSILON_0_ = EPSILON_0*optimization.simulation.L0
     omega = optimization.simulation.omega
-- 
2.43.0


From 95150f1fc3c47a4aab44295928884f14d28be515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:12 +0000
Subject: [PATCH 11/38] fix: drho_bar_drho used names that were never imported
 and shadowed rho_bar

---
 angler/utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/angler/utils.py b/angler/utils.py
index e470064..c66d6b0 100644
--- a/angler/utils.py
+++ b/angler/utils.py
@@ -1,7 +1,8 @@
 import numpy as np
 import autograd.numpy as npa
 import matplotlib.pylab as plt
-from functools import wraps
+from functools import wraps, partial
+from autograd import grad
 from autograd.scipy.signal import convolve
 
 """ This is meant to be a place to write convenience functions and objects to
@@ -23,8 +24,7 @@ def rho_bar(rho, eta=0.5, beta=100):
     return num / den
 
 def drho_bar_drho(rho, eta=0.5, beta=100):
-    rho_bar = partial(rho_bar, eta=eta, beta=beta)
-    grad_rho_bar = grad(rho_bar)
+    grad_rho_bar = grad(partial(rho_bar, eta=eta, beta=beta))
     grad_rho_bar = np.vectorize(grad_rho_bar)
     return grad_rho_bar(rho)
 
-- 
2.43.0


From 464c2a6bfca8f5fb43fc3ff2364bac0285c16ed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:13 +0000
Subject: [PATCH 12/38] fix: input power of a mode included the other sources
 of the simulation

A second mode, or a second call of setup_modes after moving a mode, was
normalised with whatever source had already been placed.
---
 angler/source/mode.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/angler/source/mode.py b/angler/source/mode.py
index 2fe8ae8..a910ae3 100644
--- a/angler/source/mode.py
+++ b/angler/source/mode.py
@@ -50,6 +50,7 @@ class mode:
 
         # reset the permittivity to be a straight waveguide, solve fields, compute power
         simulation_norm.eps_r = norm_eps
+        simulation_norm.src = np.zeros_like(simulation.src)     # only this mode's source
         self.insert_mode(simulation_norm, simulation_norm.src, matrix_format=matrix_format)
         simulation_norm.solve_fields()
         W_in = simulation_norm.flux_probe(self.direction_normal, new_center, self.width)
-- 
2.43.0


From acfd2aef7086664778fc26413d50de059665c7a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:13 +0000
Subject: [PATCH 13/38] fix: Hz mode source across a vertical line did not
 average the permittivity

The slice has shape (1, w) for direction 'x', so averaging along the first
axis returned it unchanged and the mode depended on the direction.
---
 angler/source/mode.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/angler/source/mode.py b/angler/source/mode.py
index a910ae3..5780d09 100644
--- a/angler/source/mode.py
+++ b/angler/source/mode.py
@@ -79,7 +79,7 @@ class mode:
         Dxf = createDws('x', 'f', [simulation.dl], [N], matrix_format=matrix_format)
 
         vector_eps = EPSILON_0_*eps_r.reshape((-1,))
-        vector_eps_x = EPSILON_0_*grid_average(eps_r, 'x').reshape((-1,))
+        vector_eps_x = EPSILON_0_*grid_average(eps_r.reshape((-1,)), 'x')
         T_eps = sp.spdiags(vector_eps, 0, N, N, format=matrix_format)
         T_epsxinv = sp.spdiags(vector_eps_x**(-1), 0, N, N, format=matrix_format)
 
-- 
2.43.0


From aa1dc0c4aeb6a6be6535a9a8aec6f89b588b8852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:43 +0000
Subject: [PATCH 14/38] fix: newton solver raised NameError instead of
 rejecting the Hz polarization

---
 angler/nonlinear_solvers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/angler/nonlinear_solvers.py b/angler/nonlinear_solvers.py
index 0b4df9a..b5678a4 100644
--- a/angler/nonlinear_solvers.py
+++ b/angler/nonlinear_solvers.py
@@ -113,7 +113,7 @@ def newton_solve(simulation,
 		return (Hx, Hy, Ez, conv_array)
 
 	else:
-		raise ValueError('Invalid polarization: {}'.format(str(self.pol)))
+		raise ValueError('Invalid polarization: {}'.format(str(simulation.pol)))
 
 def nl_eq_and_jac(simulation,
 				  averaging=True, Ex=None, Ey=None, Ez=None, compute_jac=True,
@@ -145,7 +145,7 @@ def nl_eq_and_jac(simulation,
 		raise ValueError('angler doesnt support newton method for Hz polarization yet')		
 
 	else:
-		raise ValueError('Invalid polarization: {}'.format(str(self.pol)))
+		raise ValueError('Invalid polarization: {}'.format(str(simulation.pol)))
 
 	if compute_jac:
 		return (fE, Jac11, Jac12)
-- 
2.43.0


From ce65f6c87a0e3af9f7893d5992de8a6305720ad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:56 +0000
Subject: [PATCH 15/38] fix: objective and gradient reused fields of another
 state of the simulation

The cached arguments of the objective were reused for whichever simulation was
passed, after changes of the permittivity, source, nonlinearity or objective,
and after check_deriv and scan_frequency (which leave those of their last copy).
---
 angler/optimization.py | 29 +++++++++++++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/angler/optimization.py b/angler/optimization.py
index 57d3f63..98a9822 100644
--- a/angler/optimization.py
+++ b/angler/optimization.py
@@ -42,6 +42,7 @@ class Optimization():
         self.src_amplitudes = []
         self.objfn_list = []
         self.fields_current = False     # are the field_args current?  if not, will need to recompute
+        self.field_arg_list = []
 
     def _solve_objfn_arg_fields(self, simulation):
         """ 
@@ -49,8 +50,8 @@ class Optimization():
             also checks if it's linear (and if so, doesnt solve_nl)
         """
 
-        # do something only if the fields are not current, or there are no stored fields
-        if not self.fields_current or not self.field_arg_list:
+        # do something only if the fields are not current, or were solved for something else
+        if not self.fields_current or not self._is_field_state(simulation):
 
             _ = simulation.solve_fields()
             if not self.objective.is_linear():
@@ -69,11 +70,35 @@ class Optimization():
 
             # store these arguments (so that they dont have to be recomputed)
             self.field_arg_list = field_arg_list
+            self.field_state = self._get_field_state(simulation)
 
             # lets other functions know the field_arg_list is up to date
             self.fields_current = True
 
 
+    def _get_field_state(self, simulation):
+        """ Returns everything that the arguments of the objective function depend on """
+
+        # Note: simulation.A is replaced whenever the permittivity is
+        return (self.objective, simulation, simulation.A,
+                np.array(simulation.src), list(simulation.nonlinearity),
+                [simulation.fields[simulation.pol], simulation.fields_nl[simulation.pol]])
+
+    def _is_field_state(self, simulation):
+        """ Are the stored arguments those of this simulation, as it is now? """
+
+        if not self.field_arg_list:
+            return False
+
+        (objective, sim, A, src, nonlinearity, fields) = self.field_state
+        (objective_new, sim_new, A_new, src_new, nonlinearity_new, fields_new) = self._get_field_state(simulation)
+
+        return (objective is objective_new and sim is sim_new and A is A_new
+                and np.array_equal(src, src_new)
+                and len(nonlinearity) == len(nonlinearity_new)
+                and all(n is n_new for n, n_new in zip(nonlinearity, nonlinearity_new))
+                and all(f is f_new for f, f_new in zip(fields, fields_new)))
+
     def compute_J(self, simulation):
         """ Returns the current objective function of a simulation"""
 
-- 
2.43.0


From dba9ff0598d07dabab611d861fb7e6415683ab94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:56 +0000
Subject: [PATCH 16/38] fix: run() with LBFGS passed arguments that scipy no
 longer accepts

scipy 1.18 has removed iprint and disp from fmin_l_bfgs_b, so the default
optimization method raised TypeError.
---
 angler/optimization.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/angler/optimization.py b/angler/optimization.py
index 98a9822..a08b3d2 100644
--- a/angler/optimization.py
+++ b/angler/optimization.py
@@ -339,8 +339,8 @@ class Optimization():
         # minimize
         (rho_final, _, _) = fmin_l_bfgs_b(_objfn, rho0, fprime=_grad, args=(), approx_grad=0,
                             bounds=rho_bounds, m=10, factr=10,
-                            pgtol=1e-15, epsilon=1e-08, iprint=-1,
-                            maxfun=15000, maxiter=self.Nsteps, disp=self.verbose,
+                            pgtol=1e-15, epsilon=1e-08,
+                            maxfun=15000, maxiter=self.Nsteps,
                             callback=_update_iter_count, maxls=20)
 
         # finally, set the simulation permittivity to that found via optimization
-- 
2.43.0


From 8932349334f024299ae76aebe1ecdba48cb94d43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:28 +0000
Subject: [PATCH 17/38] fix: run() without init_design_region raised
 AttributeError

---
 angler/optimization.py | 2 +-
 angler/simulation.py   | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/angler/optimization.py b/angler/optimization.py
index a08b3d2..f42bc03 100644
--- a/angler/optimization.py
+++ b/angler/optimization.py
@@ -219,7 +219,7 @@ class Optimization():
         # get the material density from the simulation if only the first time being run
         if self.simulation.rho is None:
             eps = copy.deepcopy(self.simulation.eps_r)
-            self.simulation.rho = eps2rho(eps)
+            self.simulation.rho = eps2rho(eps, self.eps_m)
         
         self.fields_current = False
         
diff --git a/angler/simulation.py b/angler/simulation.py
index 43ed547..380ebb5 100644
--- a/angler/simulation.py
+++ b/angler/simulation.py
@@ -47,6 +47,7 @@ class Simulation:
 
         # construct the system matrix
         self.eps_r = eps_r
+        self.rho = None     # material density, set by init_design_region
 
         self.modes = []
         self.nonlinearity = []
-- 
2.43.0


From 772890b85ab242ea3acf2f80142d344887ac7b58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:28 +0000
Subject: [PATCH 18/38] fix: optimization changed the permittivity outside of
 the design region

The projection and the clipping of the density to [0, 1] were applied to the
whole domain, so backgrounds and waveguides of other materials were altered.
---
 angler/optimization.py | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/angler/optimization.py b/angler/optimization.py
index f42bc03..81ccc25 100644
--- a/angler/optimization.py
+++ b/angler/optimization.py
@@ -130,8 +130,7 @@ class Optimization():
         """ Returns a list of analytical and numerical derivatives to check grad accuracy"""
 
         self.fields_current = False
-        self.simulation.eps_r = rho2eps(rho=self.simulation.rho, eps_m=self.eps_m, W=self.W,
-                                        eta=self.eta, beta=self.beta)
+        self.simulation.eps_r = self._rho2eps(self.simulation.rho)
 
         # solve for the linear fields and grad of the linear objective function
         grad_avm = self.compute_dJ(self.simulation, self.design_region)
@@ -154,8 +153,7 @@ class Optimization():
 
             # make a copy of the current simulation
             sim_new = copy.deepcopy(self.simulation)
-            eps_new = rho2eps(rho=rho_new, eps_m=self.eps_m, W=self.W,
-                              eta=self.eta, beta=self.beta)
+            eps_new = self._rho2eps(rho_new)
 
             sim_new.rho = rho_new
             sim_new.eps_r = eps_new
@@ -399,6 +397,12 @@ class Optimization():
         fname = self.temp_plt.folder + ('it%06d.png' % np.int(iteration))
         plt.savefig(fname, dpi=self.temp_plt.dpi)
 
+    def _rho2eps(self, rho):
+        """ Returns the permittivity for a density, which only changes the design region """
+
+        eps = rho2eps(rho=rho, eps_m=self.eps_m, W=self.W, eta=self.eta, beta=self.beta)
+        return np.where(self.design_region == 1, eps, self.simulation.eps_r)
+
     def _set_design_region(self, x):
         """ Inserts a vector x into design region of simulation.rho """
 
@@ -412,8 +416,7 @@ class Optimization():
             rho_vec[des_vec == 1] = x
             rho_new = np.reshape(rho_vec, self.simulation.rho.shape)
             self.simulation.rho = rho_new
-            eps_new = rho2eps(rho=rho_new, eps_m=self.eps_m, W=self.W,
-                              eta=self.eta, beta=self.beta)
+            eps_new = self._rho2eps(rho_new)
             self.simulation.eps_r = eps_new
 
         self.fields_current = False
@@ -452,12 +455,12 @@ class Optimization():
     def _update_rho(self, grad, step_size):
         """ Manually updates the permittivity with the grad info """
 
-        self.simulation.rho = self.simulation.rho + self.design_region * step_size * grad
-        self.simulation.rho[self.simulation.rho < 0] = 0
-        self.simulation.rho[self.simulation.rho > 1] = 1
+        rho = self.simulation.rho + self.design_region * step_size * grad
+        rho[rho < 0] = 0
+        rho[rho > 1] = 1
+        self.simulation.rho = np.where(self.design_region == 1, rho, self.simulation.rho)
 
-        self.simulation.eps_r = rho2eps(self.simulation.rho, self.eps_m, self.W,
-                                        eta=self.eta, beta=self.beta)
+        self.simulation.eps_r = self._rho2eps(self.simulation.rho)
         self.fields_current = False
 
     def _step_adam(self, gradient, mopt_old, vopt_old, iteration, beta1, beta2, epsilon=1e-8):
-- 
2.43.0


From 53ed6e7607d253878ed54db0ce4057c05ce235d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:28 +0000
Subject: [PATCH 19/38] fix: first step of run() paired the gradient of the
 projected density with an unprojected structure

---
 angler/optimization.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/angler/optimization.py b/angler/optimization.py
index 81ccc25..06110bc 100644
--- a/angler/optimization.py
+++ b/angler/optimization.py
@@ -218,7 +218,10 @@ class Optimization():
         if self.simulation.rho is None:
             eps = copy.deepcopy(self.simulation.eps_r)
             self.simulation.rho = eps2rho(eps, self.eps_m)
-        
+
+        # the starting permittivity is that of the filtered and projected density
+        self.simulation.eps_r = self._rho2eps(self.simulation.rho)
+
         self.fields_current = False
         
         allowed = ['LBFGS', 'GD', 'ADAM']
-- 
2.43.0


From 82347a7dff7b1feb2005e5e23448074d7f4a9897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:59 +0000
Subject: [PATCH 20/38] fix: plot_it used np.int, which numpy has removed

---
 angler/optimization.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/angler/optimization.py b/angler/optimization.py
index 06110bc..6a2e70f 100644
--- a/angler/optimization.py
+++ b/angler/optimization.py
@@ -378,7 +378,7 @@ class Optimization():
                 ax = axs[n]
                 self.simulation.plt_eps(outline=False, cbar=False, ax=ax)
                 ax.set_title('Permittivity')
-                ax.annotate('Iteration:%4d' % np.int(iteration), (0.2, 0.92),
+                ax.annotate('Iteration:%4d' % int(iteration), (0.2, 0.92),
                     xycoords='axes fraction',
                     size='medium',
                     color='k',
@@ -397,7 +397,7 @@ class Optimization():
                 self.simulation.plt_abs(outline=True, cbar=False, ax=ax, nl=True, logscale=True, vmin=vmin, vmax=vmax)
                 ax.set_title('Nonlinear field')
         
-        fname = self.temp_plt.folder + ('it%06d.png' % np.int(iteration))
+        fname = self.temp_plt.folder + ('it%06d.png' % int(iteration))
         plt.savefig(fname, dpi=self.temp_plt.dpi)
 
     def _rho2eps(self, rho):
-- 
2.43.0


From 089b725c70be150438e55401fe9dc3ae91230349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:59 +0000
Subject: [PATCH 21/38] fix: plt_objs() without an axis raised AttributeError

---
 angler/optimization.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/angler/optimization.py b/angler/optimization.py
index 6a2e70f..6f24f11 100644
--- a/angler/optimization.py
+++ b/angler/optimization.py
@@ -480,6 +480,9 @@ class Optimization():
     def plt_objs(self, norm=None, ax=None):
         """ Plots objective function vs. iteration"""
 
+        if ax is None:
+            _, ax = plt.subplots(1, constrained_layout=True)
+
         iter_range = range(1, len(self.objfn_list) + 1)
         if norm == 'field':
             obj_scaled = [o/a for o, a in zip(self.objfn_list, self.src_amplitudes)]
-- 
2.43.0


From 66a2dfe5107c15bd45e14cad70bc762228d84478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:59 +0000
Subject: [PATCH 22/38] fix: logscale plots passed vmin and vmax along with a
 norm, which matplotlib rejects

---
 angler/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/angler/plot.py b/angler/plot.py
index 25ce832..1eaefec 100644
--- a/angler/plot.py
+++ b/angler/plot.py
@@ -17,7 +17,7 @@ def plt_base(field_val, outline_val, cmap, vmin, vmax, label,
     if not logscale:
         h = ax.imshow(field_val, cmap=cmap, vmin=vmin, vmax=vmax, origin='lower')
     else:
-        h = ax.imshow(field_val, cmap=cmap, vmin=vmin, vmax=vmax, origin='lower', norm=LogNorm(vmin=vmin, vmax=vmax))
+        h = ax.imshow(field_val, cmap=cmap, origin='lower', norm=LogNorm(vmin=vmin, vmax=vmax))
 
     if cbar:
         plt.colorbar(h, label=label, ax=ax)
-- 
2.43.0


From ad0df46944f3e7f70f564209d27b32eb11a3a373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:59 +0000
Subject: [PATCH 23/38] fix: plot_it with a single plot indexed an axis that is
 not a list

---
 angler/optimization.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/angler/optimization.py b/angler/optimization.py
index 6f24f11..84efe22 100644
--- a/angler/optimization.py
+++ b/angler/optimization.py
@@ -371,7 +371,8 @@ class Optimization():
             f, faxs = plt.subplots(2, 2, figsize=self.temp_plt.figsize)
             axs = faxs.ravel()
         else:
-            f, axs = plt.subplots(1, Nplots, figsize=self.temp_plt.figsize)
+            f, axs = plt.subplots(1, Nplots, figsize=self.temp_plt.figsize, squeeze=False)
+            axs = axs.ravel()
 
         for n, plots in enumerate(self.temp_plt.plot_what):
             if plots == 'eps':
-- 
2.43.0


From f0d8b26ecbf8e4e638b974fda30ebf05bb69380d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:59 +0000
Subject: [PATCH 24/38] fix: default plots of Temp_plt were the letters of
 'eps'

---
 angler/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/angler/plot.py b/angler/plot.py
index 1eaefec..a3edfb5 100644
--- a/angler/plot.py
+++ b/angler/plot.py
@@ -89,7 +89,7 @@ def plt_base_ani(field_val, cbar=True, Nframes=40, interval=80):
 
 class Temp_plt():
 
-    def __init__(self, it_plot=1, plot_what=('eps'), folder='figs/data/temp_im/', 
+    def __init__(self, it_plot=1, plot_what=('eps',), folder='figs/data/temp_im/', 
                     dpi=100, figsize=(4, 4), vlims=(None,None)):
         self.it_plot = it_plot
         self.plot_what = plot_what 
-- 
2.43.0


From f61019a590c34c97930d767533e06f3f9c79b915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:59 +0000
Subject: [PATCH 25/38] fix: temporary plots were saved beside a folder given
 without a trailing slash

---
 angler/optimization.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/angler/optimization.py b/angler/optimization.py
index 84efe22..91565c3 100644
--- a/angler/optimization.py
+++ b/angler/optimization.py
@@ -1,6 +1,7 @@
 import numpy as np
 import scipy.sparse as sp
 import copy
+import os
 import progressbar
 import matplotlib.pylab as plt
 from scipy.optimize import minimize, fmin_l_bfgs_b
@@ -398,7 +399,7 @@ class Optimization():
                 self.simulation.plt_abs(outline=True, cbar=False, ax=ax, nl=True, logscale=True, vmin=vmin, vmax=vmax)
                 ax.set_title('Nonlinear field')
         
-        fname = self.temp_plt.folder + ('it%06d.png' % int(iteration))
+        fname = os.path.join(self.temp_plt.folder, 'it%06d.png' % int(iteration))
         plt.savefig(fname, dpi=self.temp_plt.dpi)
 
     def _rho2eps(self, rho):
@@ -627,7 +628,6 @@ class Optimization():
     def _check_temp_plt(self):
         if self.temp_plt is not None:
         # Clear the temp_plt folder from previous runs
-            import os, shutil
             folder = self.temp_plt.folder
             if not os.path.exists(folder):
                 os.makedirs(folder)
-- 
2.43.0


From 14195a7db162d23a02011728b1beab94c46e0c64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:59 +0000
Subject: [PATCH 26/38] fix: scan_power gave linear probes the fields of the
 original source

---
 angler/optimization.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/angler/optimization.py b/angler/optimization.py
index 91565c3..efebb06 100644
--- a/angler/optimization.py
+++ b/angler/optimization.py
@@ -584,6 +584,9 @@ class Optimization():
             sim_new.modes[0].setup_src(sim_new)
             W_in = sim_new.W_in
 
+            # the linear fields were those of the original source
+            sim_new.solve_fields()
+
             powers.append(W_in)
 
             if solver == 'hybrid':
-- 
2.43.0


From 3edec918ecc9d3fa9a6eee5855f9a464d6769b5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:09 +0000
Subject: [PATCH 27/38] fix: compute_dJ of another simulation used the operator
 and density of the optimization's own

---
 angler/optimization.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/angler/optimization.py b/angler/optimization.py
index efebb06..2bec0f4 100644
--- a/angler/optimization.py
+++ b/angler/optimization.py
@@ -115,6 +115,10 @@ class Optimization():
         # stores all of the fields for the objective function in self.field_arg_list
         self._solve_objfn_arg_fields(simulation)
 
+        # the gradient functions use the simulation of the optimization they are given
+        optimization = copy.copy(self)
+        optimization.simulation = simulation
+
         # sum up gradient contributions from each argument in J
         gradient_sum = 0
         for gradient_fn, dJ, arg in zip(self.objective.grad_fn_list, self.objective.dJ_list, self.objective.arg_list):
@@ -122,7 +126,7 @@ class Optimization():
                 Fz = simulation.fields[simulation.pol]
             else:
                 Fz = simulation.fields_nl[simulation.pol]
-            gradient = gradient_fn(self, dJ, Fz, self.field_arg_list)
+            gradient = gradient_fn(optimization, dJ, Fz, self.field_arg_list)
             gradient_sum += gradient
 
         return gradient_sum
-- 
2.43.0


From 84dbf6c3238a126a6ff05d21de82557080c456cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:41 +0000
Subject: [PATCH 28/38] fix: init_design_region lost the imaginary part or
 fraction of permittivities by casting

---
 angler/simulation.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/angler/simulation.py b/angler/simulation.py
index 380ebb5..dad2317 100644
--- a/angler/simulation.py
+++ b/angler/simulation.py
@@ -309,14 +309,12 @@ class Simulation:
 
         if style == 'full':
             # eps_m filled in design region
-            eps_full = self.eps_r.copy()
-            eps_full[design_region == 1] = eps_m
+            eps_full = np.where(design_region == 1, eps_m, self.eps_r)
             self.eps_r = eps_full
 
         elif style == 'halfway':
             # halfway between 1 and eps_m in design region
-            eps_halfway = self.eps_r.copy()
-            eps_halfway[design_region == 1] = eps_m/2 + 1/2
+            eps_halfway = np.where(design_region == 1, eps_m/2 + 1/2, self.eps_r)
             self.eps_r = eps_halfway
 
         elif style == 'empty':
@@ -328,7 +326,7 @@ class Simulation:
         elif style == 'random':
             # random pixels in design region
             eps_random = (eps_m-1)*np.random.random(self.eps_r.shape)+1
-            eps_random[design_region == 0] = self.eps_r[design_region == 0]
+            eps_random = np.where(design_region == 0, self.eps_r, eps_random)
             self.eps_r = eps_random
 
         elif style == 'random_sym':
@@ -336,7 +334,7 @@ class Simulation:
             R = np.random.random(self.eps_r.shape)
             R_sym = 1/2*(np.fliplr(R) + R)
             eps_random = (eps_m-1)*R_sym+1
-            eps_random[design_region == 0] = self.eps_r[design_region == 0]
+            eps_random = np.where(design_region == 0, self.eps_r, eps_random)
             self.eps_r = eps_random
 
         self.rho = eps2rho(self.eps_r, eps_m)
-- 
2.43.0


From 9378163b0e32f906dd7ed9434206ed5a64a1b6e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:10 +0000
Subject: [PATCH 29/38] fix: Newton step and Kerr adjoint used conj(dnl_de) as
 the derivative with respect to conj(E), wrong in lossy scaled materials

---
 angler/adjoint.py           | 3 ++-
 angler/nonlinear_solvers.py | 3 ++-
 angler/simulation.py        | 4 ++++
 3 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/angler/adjoint.py b/angler/adjoint.py
index a3ad326..a790d5c 100644
--- a/angler/adjoint.py
+++ b/angler/adjoint.py
@@ -76,9 +76,10 @@ def adjoint_kerr_Ez(simulation, b_aj,
     Ez = simulation.fields_nl['Ez']
     Anl = simulation.A + simulation.Anl
     dAde = omega**2*EPSILON_0_*simulation.dnl_de
+    dAdec = omega**2*EPSILON_0_*simulation.dnl_dec
 
     C11 = Anl + sp.spdiags((dAde*Ez).reshape((-1,)), 0, M, M, format=matrix_format)
-    C12 = sp.spdiags((np.conj(dAde)*Ez).reshape((-1)), 0, M, M, format=matrix_format)
+    C12 = sp.spdiags((dAdec*Ez).reshape((-1)), 0, M, M, format=matrix_format)
     C_full = sp.vstack((sp.hstack((C11, C12)), np.conj(sp.hstack((C12, C11)))))
     b_aj = b_aj.reshape((-1,))
 
diff --git a/angler/nonlinear_solvers.py b/angler/nonlinear_solvers.py
index b5678a4..3d9062d 100644
--- a/angler/nonlinear_solvers.py
+++ b/angler/nonlinear_solvers.py
@@ -138,8 +138,9 @@ def nl_eq_and_jac(simulation,
 		if compute_jac:
 			simulation.compute_nl(Ez)
 			dAde = (simulation.dnl_de).reshape((-1,))*omega**2*EPSILON_0_
+			dAdec = (simulation.dnl_dec).reshape((-1,))*omega**2*EPSILON_0_
 			Jac11 = Anl + sp.spdiags(dAde*Ez.reshape((-1,)), 0, Nbig, Nbig, format=matrix_format)
-			Jac12 = sp.spdiags(np.conj(dAde)*Ez.reshape((-1,)), 0, Nbig, Nbig, format=matrix_format)
+			Jac12 = sp.spdiags(dAdec*Ez.reshape((-1,)), 0, Nbig, Nbig, format=matrix_format)
 
 	elif simulation.pol == 'Hz':
 		raise ValueError('angler doesnt support newton method for Hz polarization yet')		
diff --git a/angler/simulation.py b/angler/simulation.py
index dad2317..ee83bcb 100644
--- a/angler/simulation.py
+++ b/angler/simulation.py
@@ -53,6 +53,7 @@ class Simulation:
         self.nonlinearity = []
         self.eps_nl = np.zeros(eps_r.shape)
         self.dnl_de = np.zeros(eps_r.shape)
+        self.dnl_dec = np.zeros(eps_r.shape)
         self.dnl_deps = np.zeros(eps_r.shape)
 
     def setup_modes(self):
@@ -71,10 +72,13 @@ class Simulation:
         # evaluates the nonlinear functions for a field e
         self.eps_nl = np.zeros(self.eps_r.shape)
         self.dnl_de = np.zeros(self.eps_r.shape)
+        self.dnl_dec = np.zeros(self.eps_r.shape)
         self.dnl_deps = np.zeros(self.eps_r.shape)
         for nli in self.nonlinearity:
             self.eps_nl = self.eps_nl + nli.eps_nl(e, self.eps_r)
             self.dnl_de = self.dnl_de + nli.dnl_de(e, self.eps_r)
+            # derivative with respect to conj(e), not conj(dnl_de) if the material is lossy
+            self.dnl_dec = self.dnl_dec + nli.dnl_de(np.conj(e), self.eps_r)
             self.dnl_deps = self.dnl_deps + nli.dnl_deps(e, self.eps_r)
         Nbig = self.Nx*self.Ny
         Anl = sp.spdiags(self.omega**2*EPSILON_0*self.L0*self.eps_nl.reshape((-1,)), 0, Nbig, Nbig, format=matrix_format)
-- 
2.43.0


From 97e995d71749ed14158af029994c39d03fd6cbc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:23 +0000
Subject: [PATCH 30/38] fix: newton_solve replaced its solution by a solve with
 an operator that can be singular there

---
 angler/nonlinear_solvers.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/angler/nonlinear_solvers.py b/angler/nonlinear_solvers.py
index 3d9062d..625d0b7 100644
--- a/angler/nonlinear_solvers.py
+++ b/angler/nonlinear_solvers.py
@@ -103,9 +103,13 @@ def newton_solve(simulation,
 			if convergence < conv_threshold:
 				break
 
-		# Solve the fdfd problem with the final eps_nl
+		# Get the final eps_nl and the magnetic fields of the solution
+		# Note: Ez should not be solved for again, as A + Anl can be singular at the solution
 		simulation.compute_nl(Ez)
-		(Hx, Hy, Ez) = simulation.solve_fields(include_nl=True)
+		(Dyb, Dxb, _, _) = unpack_derivs(simulation.derivs)
+		MU_0_ = MU_0*simulation.L0
+		Hx = -1/1j/simulation.omega/MU_0_ * Dyb.dot(Ez.reshape((-1,))).reshape(Ez.shape)
+		Hy = 1/1j/simulation.omega/MU_0_ * Dxb.dot(Ez.reshape((-1,))).reshape(Ez.shape)
 
 		if convergence > conv_threshold:
 			print("the simulation did not converge, reached {}".format(convergence))
-- 
2.43.0


From 13c91804b2b6c7ef0cfcb69d75119fbd8971bcf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:18:12 +0000
Subject: [PATCH 31/38] fix: periodic wrap of the density filter lost the
 neighbours across the x boundary

---
 angler/filter.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/angler/filter.py b/angler/filter.py
index 2a81686..3c32fcb 100644
--- a/angler/filter.py
+++ b/angler/filter.py
@@ -55,11 +55,8 @@ def get_W(Nx, Ny, design_region, NPML, R=10):
                     j2 = j1 + j_diff
                     r2 = np.array([i2, j2])
 
-                    # wrap around for periodic BC
-                    i2 = wrap(i2, Nx)
-                    j2 = wrap(j2, Ny)
-
-                    col_index = sub2ind((Nx, Ny), i2, j2)
+                    # wrap around for periodic BC (r2 keeps the unwrapped position)
+                    col_index = sub2ind((Nx, Ny), wrap(i2, Nx), wrap(j2, Ny))
 
                     val = R - dist(r1, r2)
 
-- 
2.43.0


From 559922d438f1f5dcb03280b0c5eecf1c80256233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:59 +0000
Subject: [PATCH 32/38] fix: an index-shift limit made the source infinite when
 the present maximum shift is zero

---
 angler/optimization.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/angler/optimization.py b/angler/optimization.py
index 2bec0f4..bf18ce8 100644
--- a/angler/optimization.py
+++ b/angler/optimization.py
@@ -456,6 +456,11 @@ class Optimization():
                 # compute the index shift and update the source according to the ratio
                 dn = self.simulation.compute_index_shift()
                 max_dn = np.max(dn)
+
+                # if nothing shifts, the source is within the limit already
+                if max_dn == 0:
+                    break
+
                 ratio = self.max_ind_shift / max_dn
 
                 self.simulation.src = self.simulation.src * (np.sqrt(ratio) - epsilon)
-- 
2.43.0


From e2d733692e8c21d380325ed4b8f03a3a933079ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:30 +0000
Subject: [PATCH 33/38] fix: solver_eigs returns the eigenpairs nearest to the
 guess first

---
 angler/linalg.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/angler/linalg.py b/angler/linalg.py
index 28b72f3..bab57af 100644
--- a/angler/linalg.py
+++ b/angler/linalg.py
@@ -117,7 +117,10 @@ def solver_eigs(A, Neigs, guess_value=0, guess_vector=None, timing=False):
     if timing:
         end = time()
         print('Elapsed time for eigs() is %.4f secs' % (end - start))
-    return (values, vectors)
+
+    # ARPACK does not promise an order: nearest to the guess first
+    order = np.argsort(np.abs(values - guess_value))
+    return (values[order], vectors[:, order])
 
 
 def solver_direct(A, b, timing=False, solver=SOLVER):
-- 
2.43.0


From cb26cad0c133aa3f1b1e1b1a6b885c4d1020a538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:30 +0000
Subject: [PATCH 34/38] fix: setting up a mode does not write into the user's
 source array

---
 angler/source/mode.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/angler/source/mode.py b/angler/source/mode.py
index 5780d09..39cd648 100644
--- a/angler/source/mode.py
+++ b/angler/source/mode.py
@@ -17,6 +17,9 @@ class mode:
         self.scale = scale
 
     def setup_src(self, simulation, matrix_format=DEFAULT_MATRIX_FORMAT):
+        # insert into a complex array of the simulation's own, not into the one the user assigned
+        simulation.src = np.array(simulation.src, dtype=np.complex128)
+
         # compute the input power here using an only waveguide simulation
         self.compute_normalization(simulation, matrix_format=matrix_format)
 
-- 
2.43.0


From 2ea791841982dad703ff81c96f1fad704f46ebe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:22 +0000
Subject: [PATCH 35/38] fix: fall back on scipy when pardiso's solution does
 not solve the system (perturbed pivots)

---
 angler/linalg.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/angler/linalg.py b/angler/linalg.py
index bab57af..d439be1 100644
--- a/angler/linalg.py
+++ b/angler/linalg.py
@@ -123,6 +123,15 @@ def solver_eigs(A, Neigs, guess_value=0, guess_vector=None, timing=False):
     return (values[order], vectors[:, order])
 
 
+def check_solution(A, x, b, tol=1e-10):
+    # pardiso replaces pivots that it finds too small, after which its solution can be far off
+    # even if A is well-conditioned; solve again with scipy if x does not solve the system
+
+    if np.linalg.norm(A.dot(x) - b) <= tol*np.linalg.norm(b):
+        return x
+    return spl.spsolve(A.tocsc(), b)
+
+
 def solver_direct(A, b, timing=False, solver=SOLVER):
     # solves linear system of equations
 
@@ -140,6 +149,7 @@ def solver_direct(A, b, timing=False, solver=SOLVER):
         pSolve.factor()
         x = pSolve.solve(b)
         pSolve.clear()
+        x = check_solution(A, x, b)
 
     elif solver.lower() == 'scipy':
         x = spl.spsolve(A, b)
@@ -177,6 +187,7 @@ def solver_complex2real(A11, A12, b, timing=False, solver=SOLVER):
         pSolve.factor()
         x = pSolve.solve(np.hstack((b_re, b_im)))
         pSolve.clear()
+        x = check_solution(Areal, x, np.hstack((b_re, b_im)))
 
     elif solver.lower() == 'scipy':
         x = spl.spsolve(Areal, np.hstack((b_re, b_im)))
-- 
2.43.0


From 0dc7d42348f0fd8a3ba12cabc6d4a35eb5f44b33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:56 +0000
Subject: [PATCH 36/38] fix: animations were stretched to axes of the
 transposed shape

---
 angler/plot.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/angler/plot.py b/angler/plot.py
index a3edfb5..ec648e2 100644
--- a/angler/plot.py
+++ b/angler/plot.py
@@ -64,14 +64,14 @@ def plt_base_ani(field_val, cbar=True, Nframes=40, interval=80):
     field_val = field_val.transpose()
 
     fig, ax = plt.subplots(1, constrained_layout=True)
-    h = ax.imshow(np.zeros(field_val.shape).transpose(), origin='lower')
+    h = ax.imshow(np.zeros(field_val.shape), origin='lower')
 
     ax.set_xticks([])
     ax.set_yticks([])
 
     def init():
         vmax = np.abs(field_val).max()
-        h.set_data(np.zeros(field_val.shape).transpose())
+        h.set_data(np.zeros(field_val.shape))
         h.set_cmap('RdBu')
         h.set_clim(vmin=-vmax, vmax=+vmax)
 
-- 
2.43.0


From 4a42f41737b6778d1bc0a8310197f718c3375859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:30 +0000
Subject: [PATCH 37/38] fix: plots of one-dimensional grids raised on drawing
 the outline

---
 angler/plot.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/angler/plot.py b/angler/plot.py
index ec648e2..6b1f08e 100644
--- a/angler/plot.py
+++ b/angler/plot.py
@@ -22,7 +22,8 @@ def plt_base(field_val, outline_val, cmap, vmin, vmax, label,
     if cbar:
         plt.colorbar(h, label=label, ax=ax)
 
-    if outline:
+    # contours need at least two rows and columns
+    if outline and min(outline_val.shape) > 1:
         # Do black and white so we can see on both magma and RdBu
         ax.contour(outline_val, levels=2, linewidths=1.0, colors='w')
         ax.contour(outline_val, levels=2, linewidths=0.5, colors='k')
@@ -48,7 +49,8 @@ def plt_base_eps(field_val, outline_val, cmap, vmin, vmax,
     if cbar:
         plt.colorbar(h, label='relative permittivity', ax=ax)
 
-    if outline:
+    # contours need at least two rows and columns
+    if outline and min(outline_val.shape) > 1:
         # Do black and white so we can see on both magma and RdBu
         ax.contour(outline_val, levels=2, linewidths=1.0, colors='w')
         ax.contour(outline_val, levels=2, linewidths=0.5, colors='k')
-- 
2.43.0


From d0b0b54102afd4ec9a43d06ff9dd2e433828330d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:59 +0000
Subject: [PATCH 38/38] fix: objective evaluated at an earlier frequency after
 a change of omega

---
 angler/optimization.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/angler/optimization.py b/angler/optimization.py
index bf18ce8..bd0de4d 100644
--- a/angler/optimization.py
+++ b/angler/optimization.py
@@ -81,7 +81,7 @@ class Optimization():
         """ Returns everything that the arguments of the objective function depend on """
 
         # Note: simulation.A is replaced whenever the permittivity is
-        return (self.objective, simulation, simulation.A,
+        return (self.objective, simulation, simulation.A, simulation.omega,
                 np.array(simulation.src), list(simulation.nonlinearity),
                 [simulation.fields[simulation.pol], simulation.fields_nl[simulation.pol]])
 
@@ -91,11 +91,11 @@ class Optimization():
         if not self.field_arg_list:
             return False
 
-        (objective, sim, A, src, nonlinearity, fields) = self.field_state
-        (objective_new, sim_new, A_new, src_new, nonlinearity_new, fields_new) = self._get_field_state(simulation)
+        (objective, sim, A, omega, src, nonlinearity, fields) = self.field_state
+        (objective_new, sim_new, A_new, omega_new, src_new, nonlinearity_new, fields_new) = self._get_field_state(simulation)
 
         return (objective is objective_new and sim is sim_new and A is A_new
-                and np.array_equal(src, src_new)
+                and omega == omega_new and np.array_equal(src, src_new)
                 and len(nonlinearity) == len(nonlinearity_new)
                 and all(n is n_new for n, n_new in zip(nonlinearity, nonlinearity_new))
                 and all(f is f_new for f, f_new in zip(fields, fields_new)))
-- 
2.43.0

