From 24f3291732efe1992814c0cc175edf954d2b98ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:40 +0000
Subject: [PATCH 01/31] fix: pass a one-dimensional starting point to SLSQP in
 maximin_design

Recent SciPy rejects a two-dimensional x0, so every maximin design failed.
---
 active_subspaces/utils/designs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/active_subspaces/utils/designs.py b/active_subspaces/utils/designs.py
index 8430b28..7bd0fb1 100644
--- a/active_subspaces/utils/designs.py
+++ b/active_subspaces/utils/designs.py
@@ -74,7 +74,7 @@ def maximin_design(vert, N):
     minres = []
 
     for i in range(3):
-        y0 = np.random.normal(size=(N, n))
+        y0 = np.random.normal(size=(N*n, ))
         res = minimize(_maximin_design_obj, y0, args=(vert, ), jac=_maximin_design_grad, constraints=cons,
                         method='SLSQP', options={'disp':False, 'maxiter':1e2, 'ftol':1e-4})
         if not res.success:
-- 
2.43.0


From 1457423fc6114ad8ff0f653744893bac9af105c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:40 +0000
Subject: [PATCH 02/31] fix: pass one-dimensional starting points to SLSQP and
 BFGS

Recent SciPy rejects a two-dimensional x0, so every minimization over a
zonotope or an unbounded domain failed.
---
 active_subspaces/optimizers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/active_subspaces/optimizers.py b/active_subspaces/optimizers.py
index d91df65..1d0cd1c 100644
--- a/active_subspaces/optimizers.py
+++ b/active_subspaces/optimizers.py
@@ -331,7 +331,7 @@ def zonotope_minimize(avfun, avdom, avdfun):
     minf = 1e100
     minres = []
     for i in range(10):
-        y0 = np.random.normal(size=(1, n))
+        y0 = np.random.normal(size=(n, ))
         cons = avdom.constraints
         result = scopt.minimize(avfun, y0, constraints=cons, method='SLSQP', \
                             jac=avdfun, options=opts)
@@ -387,7 +387,7 @@ def unbounded_minimize(avfun, avdom, avdfun):
     minf = 1e100
     minres = []
     for i in range(10):
-        y0 = np.random.normal(size=(1, n))
+        y0 = np.random.normal(size=(n, ))
         result = scopt.minimize(avfun, y0, method=method, jac=avdfun, options=opts)
         if not result.success:
             raise Exception('{} failed with message: {}.'.format(method, result.message))
-- 
2.43.0


From 26aa0b89e5c8aa2ba76f3a07826cc7e25aa3bbaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:40 +0000
Subject: [PATCH 03/31] fix: take the maximum of two scalars in _rbf_objective

Recent NumPy rejects the ragged list, so no radial basis surface could be
trained.
---
 active_subspaces/utils/response_surfaces.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/active_subspaces/utils/response_surfaces.py b/active_subspaces/utils/response_surfaces.py
index b720b5d..77f5ef9 100644
--- a/active_subspaces/utils/response_surfaces.py
+++ b/active_subspaces/utils/response_surfaces.py
@@ -381,7 +381,7 @@ def _rbf_objective(log10g, X, f, v, N, e):
     res = f - np.dot(B, beta)
 
     # variance
-    sig2 = np.max([np.dot(res.T, np.linalg.solve(K, res))/M, 5*np.finfo(float).eps])
+    sig2 = np.maximum(np.dot(res.T, np.linalg.solve(K, res))[0,0]/M, 5*np.finfo(float).eps)
     
 
     r = np.sum(np.log(np.diag(L))) + M*np.log(sig2)
-- 
2.43.0


From eecfcabeb715641292350c9ac11b19ec074761b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:19 +0000
Subject: [PATCH 04/31] fix: do not reseed the caller's random stream in
 designs and minimizers

The global stream was left reseeded when the optimizer or the objective
raised, and was rewound under any other thread that drew from it meanwhile.
A private RandomState(42) draws the same starting points.
---
 active_subspaces/optimizers.py    | 16 ++++++----------
 active_subspaces/utils/designs.py |  9 +++------
 2 files changed, 9 insertions(+), 16 deletions(-)

diff --git a/active_subspaces/optimizers.py b/active_subspaces/optimizers.py
index 1d0cd1c..2f54913 100644
--- a/active_subspaces/optimizers.py
+++ b/active_subspaces/optimizers.py
@@ -325,13 +325,12 @@ def zonotope_minimize(avfun, avdom, avdfun):
 
     opts = {'disp':False, 'maxiter':1e4, 'ftol':1e-9}
 
-    # a bit of globalization
-    curr_state = np.random.get_state()
-    np.random.seed(42)
+    # a bit of globalization, with a random stream of its own
+    rng = np.random.RandomState(42)
     minf = 1e100
     minres = []
     for i in range(10):
-        y0 = np.random.normal(size=(n, ))
+        y0 = rng.normal(size=(n, ))
         cons = avdom.constraints
         result = scopt.minimize(avfun, y0, constraints=cons, method='SLSQP', \
                             jac=avdfun, options=opts)
@@ -341,7 +340,6 @@ def zonotope_minimize(avfun, avdom, avdfun):
             minf = result.fun
             minres = result
 
-    np.random.set_state(curr_state)
     ystar, fstar = minres.x, minres.fun
     return ystar, fstar
 
@@ -381,19 +379,17 @@ def unbounded_minimize(avfun, avdom, avdfun):
     else:
         method = 'BFGS'
 
-    # some tricks for globalization
-    curr_state = np.random.get_state()
-    np.random.seed(42)
+    # some tricks for globalization, with a random stream of their own
+    rng = np.random.RandomState(42)
     minf = 1e100
     minres = []
     for i in range(10):
-        y0 = np.random.normal(size=(n, ))
+        y0 = rng.normal(size=(n, ))
         result = scopt.minimize(avfun, y0, method=method, jac=avdfun, options=opts)
         if not result.success:
             raise Exception('{} failed with message: {}.'.format(method, result.message))
         if result.fun < minf:
             minf = result.fun
             minres = result
-    np.random.set_state(curr_state)
     ystar, fstar = minres.x, minres.fun
     return ystar, fstar
diff --git a/active_subspaces/utils/designs.py b/active_subspaces/utils/designs.py
index 7bd0fb1..d71b3fb 100644
--- a/active_subspaces/utils/designs.py
+++ b/active_subspaces/utils/designs.py
@@ -66,15 +66,13 @@ def maximin_design(vert, N):
                 'fun' : lambda x: np.dot(A, x) - b,
                 'jac' : lambda x: A})
 
-    # some tricks for the globalization
-    curr_state = np.random.get_state()
-
-    np.random.seed(42)
+    # some tricks for the globalization, with a random stream of their own
+    rng = np.random.RandomState(42)
     minf = 1e10
     minres = []
 
     for i in range(3):
-        y0 = np.random.normal(size=(N*n, ))
+        y0 = rng.normal(size=(N*n, ))
         res = minimize(_maximin_design_obj, y0, args=(vert, ), jac=_maximin_design_grad, constraints=cons,
                         method='SLSQP', options={'disp':False, 'maxiter':1e2, 'ftol':1e-4})
         if not res.success:
@@ -83,7 +81,6 @@ def maximin_design(vert, N):
             minf = res.fun
             minres = res
 
-    np.random.set_state(curr_state)
     design = minres.x.reshape((N, n))
     return design
 
-- 
2.43.0


From d5085b6d437a1e75bbdc535490e8d08a7b50bcd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:19 +0000
Subject: [PATCH 05/31] fix: compare the smallest input, not the function amin,
 in qphd_subspace

---
 active_subspaces/subspaces.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/active_subspaces/subspaces.py b/active_subspaces/subspaces.py
index 2cdfe70..002cab3 100644
--- a/active_subspaces/subspaces.py
+++ b/active_subspaces/subspaces.py
@@ -273,7 +273,7 @@ def qphd_subspace(X, f, weights):
     X, f, M, m = process_inputs_outputs(X, f)
     
     # check if the points are uniform or Gaussian, set 2nd moment
-    if np.amax(X) > 1.0 or np.amin < -1.0:
+    if np.amax(X) > 1.0 or np.amin(X) < -1.0:
         gamma = 1.0
     else:
         gamma = 1.0 / 3.0
-- 
2.43.0


From 1dd9f3d93522c9db61f4a068e3e59feea57f98be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:19 +0000
Subject: [PATCH 06/31] fix: use the nearest distinct neighbours in
 local_linear_gradients

The mask of the points that differ from the base point was applied to the
sorted indices in unsorted order, so the base point stayed in and an
arbitrary neighbour was dropped. With repeated samples (every bootstrap
replicate has some), or with p = M, fewer than p indices were left and the
call failed.
---
 active_subspaces/gradients.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/active_subspaces/gradients.py b/active_subspaces/gradients.py
index a137f70..d1c1ff8 100644
--- a/active_subspaces/gradients.py
+++ b/active_subspaces/gradients.py
@@ -55,9 +55,9 @@ def local_linear_gradients(X, f, p=None, weights=None):
         x = X[ii,:]
         D2 = np.sum((X - x)**2, axis=1)
         ind = np.argsort(D2)
-        ind = ind[D2 != 0]
-        A = np.hstack((np.ones((p,1)), X[ind[:p],:])) * np.sqrt(weights[ii])
-        b = f[ind[:p]] * np.sqrt(weights[ii])
+        ind = ind[D2[ind] != 0][:p]
+        A = np.hstack((np.ones((ind.size,1)), X[ind,:])) * np.sqrt(weights[ii])
+        b = f[ind] * np.sqrt(weights[ii])
         u = np.linalg.lstsq(A, b)[0]
         df[i,:] = u[1:].T
     return df
-- 
2.43.0


From 3d65eac19a2d48df9126b623cb45caef7bd6b700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:16 +0000
Subject: [PATCH 07/31] fix: bound the hit and run step by exactly the
 constraints that limit it

A constraint parallel to the direction (a zero row of W2, when an active
variable is aligned with an input) gave the bound -inf, and a constraint
closer than 1.5e-8 was ignored, so the step failed or left the polytope. The
check of the direction just above guarantees that every bound leaves room.
---
 active_subspaces/domains.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/active_subspaces/domains.py b/active_subspaces/domains.py
index fda1fe8..0ae9c82 100644
--- a/active_subspaces/domains.py
+++ b/active_subspaces/domains.py
@@ -602,11 +602,11 @@ def hit_and_run_z(N, y, W1, W2):
         f, g = b - np.dot(A,z0), np.dot(A, d)
 
         # find an upper bound on the step
-        min_ind = np.logical_and(g<=0, f < -np.sqrt(np.finfo(np.float).eps))
+        min_ind = g<0
         eps_max = np.amin(f[min_ind]/g[min_ind])
 
         # find a lower bound on the step
-        max_ind = np.logical_and(g>0, f < -np.sqrt(np.finfo(np.float).eps))
+        max_ind = g>0
         eps_min = np.amax(f[max_ind]/g[max_ind])
 
         # randomly sample eps
-- 
2.43.0


From 724433c0db0ee5fa22bd9ee49f667482a72b0f26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:16 +0000
Subject: [PATCH 08/31] fix: transpose, not reshape, the samples in
 random_walk_z

Samples are stored as columns; the reshape mixed up their components.
---
 active_subspaces/domains.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/active_subspaces/domains.py b/active_subspaces/domains.py
index 0ae9c82..5b51ed4 100644
--- a/active_subspaces/domains.py
+++ b/active_subspaces/domains.py
@@ -741,7 +741,7 @@ def random_walk_z(N, y, W1, W2):
             z0 = zc
         Z[:,i] = z0.reshape((z0.shape[0], ))
 
-    return Z.reshape((N, m-n))
+    return Z.transpose()
 
 def _rotate_x(Y, Z, W):
     """A convenience function for rotating subspace coordinates to x space.
-- 
2.43.0


From c95b2391cfa5f68d163a39b57ae92cb4dc5abd3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:16 +0000
Subject: [PATCH 09/31] fix: compute_boundary updates the dimensions of the
 domain

It is documented as the call to make after changing the dimension of the
active subspace, but left the old n in place.
---
 active_subspaces/domains.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/active_subspaces/domains.py b/active_subspaces/domains.py
index 5b51ed4..293963a 100644
--- a/active_subspaces/domains.py
+++ b/active_subspaces/domains.py
@@ -125,6 +125,7 @@ class BoundedActiveVariableDomain(ActiveVariableDomain):
                         'jac' : lambda x: A})
 
         # store variables
+        self.m, self.n = m, n
         self.vertY, self.vertX = Y, X
         self.convhull, self.constraints = convhull, constraints
 
-- 
2.43.0


From fb851de99afdf06ada1a4125fc7b8f16cc0846cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:59 +0000
Subject: [PATCH 10/31] fix: Subspaces.compute stores its results only when all
 are computed

When the bootstrap or the partition failed (an unknown partition type, 'RS'
without bootstrap, ...) the new eigenvectors were combined with the old
active and inactive bases.
---
 active_subspaces/subspaces.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/active_subspaces/subspaces.py b/active_subspaces/subspaces.py
index 002cab3..b1527c8 100644
--- a/active_subspaces/subspaces.py
+++ b/active_subspaces/subspaces.py
@@ -131,8 +131,6 @@ class Subspaces():
             ssmethod = None
             raise Exception('Unrecognized subspace type: {}'.format(sstype))
         
-        self.eigenvals, self.eigenvecs = e, W    
-        
         # Compute bootstrap ranges and partition
         if nboot > 0:
             e_br, sub_br, li_F = _bootstrap_ranges(e, W, X, f, df, weights, ssmethod, nboot)
@@ -142,8 +140,6 @@ class Subspaces():
             
             e_br, sub_br = None, None
             
-        self.e_br, self.sub_br = e_br, sub_br
-        
         # Compute the partition
         if ptype == 'EVG':
             n = eig_partition(e)[0]
@@ -155,6 +151,9 @@ class Subspaces():
         else:
             raise Exception('Unrecognized partition type: {}'.format(ptype))
         
+        # store the results only now: a failure above leaves the object as it was
+        self.eigenvals, self.eigenvecs = e, W
+        self.e_br, self.sub_br = e_br, sub_br
         self.partition(n)
 
 
-- 
2.43.0


From c2c101d1bd714447c6748de47d7eb48d07ccf717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:57 +0000
Subject: [PATCH 11/31] fix: keep a maximin design inside polytopes that are
 not symmetric

---
 active_subspaces/utils/designs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/active_subspaces/utils/designs.py b/active_subspaces/utils/designs.py
index d71b3fb..1fdce31 100644
--- a/active_subspaces/utils/designs.py
+++ b/active_subspaces/utils/designs.py
@@ -63,8 +63,8 @@ def maximin_design(vert, N):
     A = np.kron(np.eye(N), C.equations[:,:n])
     b = np.kron(np.ones(N), C.equations[:,n])
     cons = ({'type':'ineq',
-                'fun' : lambda x: np.dot(A, x) - b,
-                'jac' : lambda x: A})
+                'fun' : lambda x: -np.dot(A, x) - b,
+                'jac' : lambda x: -A})
 
     # some tricks for the globalization, with a random stream of their own
     rng = np.random.RandomState(42)
-- 
2.43.0


From bd10a8dd5100af3e58236f406203114e1e559be1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:28 +0000
Subject: [PATCH 12/31] fix: take the minimizer of the fitted quadratic in the
 minimization maps

---
 active_subspaces/optimizers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/active_subspaces/optimizers.py b/active_subspaces/optimizers.py
index 2f54913..0ac20a7 100644
--- a/active_subspaces/optimizers.py
+++ b/active_subspaces/optimizers.py
@@ -113,7 +113,7 @@ class BoundedMinVariableMap(MinVariableMap):
                 -1-np.dot(W1, y).reshape((m, 1)),
                 -1+np.dot(W1, y).reshape((m, 1))
                 ))
-            z = qps.quadratic_program_ineq(c, self._zAz, A_ineq, b_ineq)
+            z = qps.quadratic_program_ineq(c, 0.5*self._zAz, A_ineq, b_ineq)
             Zlist.append(z)
         Z = np.array(Zlist).reshape((NY, m-n, N))
         return Z
@@ -160,7 +160,7 @@ class UnboundedMinVariableMap(MinVariableMap):
         Zlist = []
         for y in Y:
             c = self._bz.reshape((m-n, 1)) + np.dot(self._zAy, y).reshape((m-n, 1))
-            z = np.linalg.solve(self._zAz, c)
+            z = -np.linalg.solve(self._zAz, c)
             Zlist.append(z)
         return np.array(Zlist).reshape((NY, m-n, N))
 
-- 
2.43.0


From 0da6a4467b0d8a4c9ef810b3a514f1edd77bb070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:38 +0000
Subject: [PATCH 13/31] fix: bound the noise level from below when tuning the
 radial basis

---
 active_subspaces/utils/response_surfaces.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/active_subspaces/utils/response_surfaces.py b/active_subspaces/utils/response_surfaces.py
index 77f5ef9..1661c2c 100644
--- a/active_subspaces/utils/response_surfaces.py
+++ b/active_subspaces/utils/response_surfaces.py
@@ -366,6 +366,9 @@ def _rbf_objective(log10g, X, f, v, N, e):
         if v is None:
             v = g*np.sum(e[m:])*np.ones(f.shape)
 
+    # ensure conditioning
+    v = np.amax([v.reshape(f.shape), 1e-6*np.ones(f.shape)], axis=0)
+
     # covariance matrix
     K = exponential_squared(X, X, 1.0, ell)
     K += np.diag(v.reshape((M,)))
-- 
2.43.0


From 78c4d7b1faed5f92174c32011a13dc16847f5717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:12 +0000
Subject: [PATCH 14/31] fix: surfaces store their results together, with copies
 of the training data

---
 active_subspaces/utils/response_surfaces.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/active_subspaces/utils/response_surfaces.py b/active_subspaces/utils/response_surfaces.py
index 1661c2c..90aad29 100644
--- a/active_subspaces/utils/response_surfaces.py
+++ b/active_subspaces/utils/response_surfaces.py
@@ -105,13 +105,9 @@ class PolynomialApproximation(ResponseSurface):
         poly_weights = np.linalg.lstsq(B, f)[0]
         Rsqr = 1.0 - ( np.linalg.norm(np.dot(B, poly_weights) - f)**2 / (M*np.var(f)) )
 
-        # store data
-        self.X, self.f = X, f
-        self.poly_weights = poly_weights.reshape((p,1))
-        self.Rsqr = Rsqr
-
         # organize linear and quadratic coefficients
-        self.g = poly_weights[1:m+1].copy().reshape((m,1))
+        H = None
+        g = poly_weights[1:m+1].copy().reshape((m,1))
         if self.N > 1:
             H = np.zeros((m, m))
             for i in range(m+1, int(m+1+comb(m+1,2))):
@@ -124,7 +120,12 @@ class PolynomialApproximation(ResponseSurface):
                     H[loc[1],loc[0]] = poly_weights[i]
                 else:
                     raise Exception('Error creating quadratic coefficients.')
-            self.H = H
+
+        # store data
+        self.X, self.f = X.copy(), f.copy()
+        self.poly_weights = poly_weights.reshape((p,1))
+        self.Rsqr = Rsqr
+        self.g, self.H = g, H
 
     def predict(self, X, compgrad=False):
         """Evaluate least-squares-fit polynomial approximation at new points.
@@ -269,7 +270,7 @@ class RadialBasisApproximation(ResponseSurface):
         Rsqr = 1.0 - (np.dot( res.T, np.linalg.solve(K, res)) / np.dot( f.T, np.linalg.solve(K, f) ))
 
         # store parameters
-        self.X, self.f = X, f
+        self.X, self.f = X.copy(), f.copy()
         self.ell, self.K = ell, K
         self.Rsqr = Rsqr[0,0]
         self.radial_weights, self.poly_weights = radial_weights, poly_weights
-- 
2.43.0


From 1995128b856793c0675bfee5ad356cf34f2f8eb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:43 +0000
Subject: [PATCH 15/31] fix: report an unsolved program also when its data
 cannot be written

---
 active_subspaces/utils/qp_solver.py | 37 ++++++++++++++++-------------
 1 file changed, 21 insertions(+), 16 deletions(-)

diff --git a/active_subspaces/utils/qp_solver.py b/active_subspaces/utils/qp_solver.py
index 9ab00ca..3bb50ed 100644
--- a/active_subspaces/utils/qp_solver.py
+++ b/active_subspaces/utils/qp_solver.py
@@ -187,6 +187,19 @@ class QPSolver():
         else:
             raise ValueError('QP solver {} not available'.format(self.solver))
 
+def _dump_program(name, **data):
+    """Write the data of a program that was not solved to a file.
+
+    The file is only a diagnostic. When it cannot be written, the caller still
+    reports that the program was not solved. The random part of its name does
+    not come from the global random stream.
+    """
+    number = np.random.RandomState().randint(int(1e9))
+    try:
+        np.savez('bad_{}_{:010d}'.format(name, number), **data)
+    except Exception:
+        print 'Warning: could not write the data of the unsolved program.'
+
 def _scipy_linear_program_eq(c, A, b, lb, ub):
 
     c = c.reshape((c.size,))
@@ -201,8 +214,7 @@ def _scipy_linear_program_eq(c, A, b, lb, ub):
     if res.success:
         return res.x.reshape((c.size,1))
     else:
-        np.savez('bad_scipy_lp_eq_{:010d}'.format(np.random.randint(int(1e9))),
-                c=c, A=A, b=b, lb=lb, ub=ub, res=res)
+        _dump_program('scipy_lp_eq', c=c, A=A, b=b, lb=lb, ub=ub, res=res)
         raise Exception('Scipy did not solve the LP. Blame Scipy.')
         return None
 
@@ -221,8 +233,7 @@ def _scipy_linear_program_ineq(c, A, b):
     if res.success:
         return res.x.reshape((c.size,1))
     else:
-        np.savez('bad_scipy_lp_ineq_{:010d}'.format(np.random.randint(int(1e9))),
-                c=c, A=A, b=b, res=res)
+        _dump_program('scipy_lp_ineq', c=c, A=A, b=b, res=res)
         raise Exception('Scipy did not solve the LP. Blame Scipy.')
         return None
 
@@ -252,8 +263,7 @@ def _scipy_quadratic_program_bnd(c, Q, lb, ub):
             xstar = np.array([[xstar]])
         return xstar.reshape((c.size,1))
     else:
-        np.savez('bad_scipy_qp_bnd_{:010d}'.format(np.random.randint(int(1e9))),
-                c=c, Q=Q, lb=lb, ub=ub, res=res)
+        _dump_program('scipy_qp_bnd', c=c, Q=Q, lb=lb, ub=ub, res=res)
         raise Exception('Scipy did not solve the LP. Blame Scipy.')
         return None
 
@@ -285,8 +295,7 @@ def _scipy_quadratic_program_ineq(c, Q, A, b):
             xstar = np.array([[xstar]])
         return xstar.reshape((c.size,1))
     else:
-        np.savez('bad_scipy_qp_ineq_{:010d}'.format(np.random.randint(int(1e9))),
-                c=c, Q=Q, A=A, b=b, res=res)
+        _dump_program('scipy_qp_ineq', c=c, Q=Q, A=A, b=b, res=res)
         raise Exception('Scipy did not solve the LP. Blame Scipy.')
         return None
 
@@ -322,8 +331,7 @@ def _gurobi_linear_program_eq(c, A, b, lb, ub):
     if model.status == gpy.GRB.OPTIMAL:
         return np.array(model.getAttr('x', vars)).reshape((n,1))
     else:
-        np.savez('bad_gurobi_lp_eq_{:010d}'.format(np.random.randint(int(1e9))),
-                c=c, A=A, b=b, lb=lb, ub=ub, model=model)
+        _dump_program('gurobi_lp_eq', c=c, A=A, b=b, lb=lb, ub=ub, status=model.status)
         raise Exception('Gurobi did not solve the LP. Blame Gurobi.')
         return None
 
@@ -361,8 +369,7 @@ def _gurobi_linear_program_ineq(c, A, b):
     if model.status == gpy.GRB.OPTIMAL:
         return np.array(model.getAttr('x', vars)).reshape((n,1))
     else:
-        np.savez('bad_gurobi_lp_ineq_{:010d}'.format(np.random.randint(int(1e9))),
-                c=c, A=A, b=b, model=model)
+        _dump_program('gurobi_lp_ineq', c=c, A=A, b=b, status=model.status)
         raise Exception('Gurobi did not solve the LP. Blame Gurobi.')
         return None
 
@@ -395,8 +402,7 @@ def _gurobi_quadratic_program_bnd(c, Q, lb, ub):
     if model.status == gpy.GRB.OPTIMAL:
         return np.array(model.getAttr('x', vars)).reshape((n,1))
     else:
-        np.savez('bad_gurobi_qp_bnd_{:010d}'.format(np.random.randint(int(1e9))),
-                c=c, Q=Q, lb=lb, ub=ub, model=model)
+        _dump_program('gurobi_qp_bnd', c=c, Q=Q, lb=lb, ub=ub, status=model.status)
         raise Exception('Gurobi did not solve the QP. Blame Gurobi.')
         return None
 
@@ -437,7 +443,6 @@ def _gurobi_quadratic_program_ineq(c, Q, A, b):
     if model.status == gpy.GRB.OPTIMAL:
         return np.array(model.getAttr('x', vars)).reshape((n,1))
     else:
-        np.savez('bad_gurobi_qp_ineq_{:010d}'.format(np.random.randint(int(1e9))),
-                c=c, Q=Q, A=A, b=b, model=model)
+        _dump_program('gurobi_qp_ineq', c=c, Q=Q, A=A, b=b, status=model.status)
         raise Exception('Gurobi did not solve the QP. Blame Gurobi.')
         return None
-- 
2.43.0


From a974a0d89d63c9a09edfd17c082e5950e31b07dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:22 +0000
Subject: [PATCH 16/31] fix: another process may make the figs folder at the
 same time

---
 active_subspaces/utils/plotters.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/active_subspaces/utils/plotters.py b/active_subspaces/utils/plotters.py
index 4c04d1b..d32ee23 100644
--- a/active_subspaces/utils/plotters.py
+++ b/active_subspaces/utils/plotters.py
@@ -27,7 +27,12 @@ def plot_opts(savefigs=True, figtype='.eps'):
     # make figs directory
     if savefigs:
         if not os.path.isdir('figs'):
-            os.mkdir('figs')
+            try:
+                os.mkdir('figs')
+            except OSError:
+                # another process may have made it in the meantime
+                if not os.path.isdir('figs'):
+                    raise
 
     # set plot fonts
     myfont = {'family' : 'arial',
-- 
2.43.0


From 99e61aea3a18922c6d6c0aae1c856ca6255762f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:22 +0000
Subject: [PATCH 17/31] fix: save the zonotope plot before it is shown

---
 active_subspaces/utils/plotters.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/active_subspaces/utils/plotters.py b/active_subspaces/utils/plotters.py
index d32ee23..50c8a61 100644
--- a/active_subspaces/utils/plotters.py
+++ b/active_subspaces/utils/plotters.py
@@ -484,10 +484,11 @@ def zonotope_2d_plot(vertices, design=None, y=None, f=None, out_label=None, opts
     plt.axis([1.1*xmin,1.1*xmax,1.1*xmin,1.1*xmax])
     plt.xlabel('Active variable 1')
     plt.ylabel('Active variable 2')
-    show_plot(plt)
     if opts['savefigs']:
         figname = 'figs/zonotope_2d_' + out_label + opts['figtype']
         plt.savefig(figname, dpi=300, bbox_inches='tight', pad_inches=0.0)
 
+    show_plot(plt)
+
 def show_plot(plot, opts=None):
     plot.show()
-- 
2.43.0


From 6857abf4f36fb70abe4fbf7796da42207e161e85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:22 +0000
Subject: [PATCH 18/31] fix: set the aspect of the axes that hold the points,
 not of new ones

---
 active_subspaces/utils/plotters.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/active_subspaces/utils/plotters.py b/active_subspaces/utils/plotters.py
index 50c8a61..66b06c7 100644
--- a/active_subspaces/utils/plotters.py
+++ b/active_subspaces/utils/plotters.py
@@ -387,7 +387,7 @@ def sufficient_summary(y, f, out_label=None, opts=None):
         ymin = 1.1*np.amin([np.amin(y1), np.amin(y2)])
         ymax = 1.1*np.amax([np.amax(y1), np.amax(y2)])
         plt.axis([ymin, ymax, ymin, ymax])
-        plt.axes().set_aspect('equal')
+        plt.gca().set_aspect('equal')
         plt.grid(True)
         plt.title(out_label)
         plt.colorbar()
@@ -477,7 +477,7 @@ def zonotope_2d_plot(vertices, design=None, y=None, f=None, out_label=None, opts
 
     if y is not None:
         plt.scatter(y[:,0], y[:,1], c=f, s=100.0, vmin=np.min(f), vmax=np.max(f))
-        plt.axes().set_aspect('equal')
+        plt.gca().set_aspect('equal')
         plt.title(out_label)
         plt.colorbar()
 
-- 
2.43.0


From e51a0f68a6ebe23b49999928384ac46776475d28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:32 +0000
Subject: [PATCH 19/31] fix: show all points in the bivariate summary plot
 whatever their sign

---
 active_subspaces/utils/plotters.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/active_subspaces/utils/plotters.py b/active_subspaces/utils/plotters.py
index 66b06c7..868987a 100644
--- a/active_subspaces/utils/plotters.py
+++ b/active_subspaces/utils/plotters.py
@@ -384,8 +384,9 @@ def sufficient_summary(y, f, out_label=None, opts=None):
         plt.scatter(y1, y2, c=f, s=150.0, vmin=np.min(f), vmax=np.max(f))
         plt.xlabel('Active variable 1')
         plt.ylabel('Active variable 2')
-        ymin = 1.1*np.amin([np.amin(y1), np.amin(y2)])
-        ymax = 1.1*np.amax([np.amax(y1), np.amax(y2)])
+        ymin = np.amin([np.amin(y1), np.amin(y2)])
+        ymax = np.amax([np.amax(y1), np.amax(y2)])
+        ymin, ymax = ymin - 0.1*np.fabs(ymin), ymax + 0.1*np.fabs(ymax)
         plt.axis([ymin, ymax, ymin, ymax])
         plt.gca().set_aspect('equal')
         plt.grid(True)
-- 
2.43.0


From c1e11894ee8b0f5ea71871a2a948aa1e25951f4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:52 +0000
Subject: [PATCH 20/31] fix: count zonotope vertices right when inputs do not
 matter or act together

---
 active_subspaces/domains.py | 47 ++++++++++++++++++++++++++++++++++---
 1 file changed, 44 insertions(+), 3 deletions(-)

diff --git a/active_subspaces/domains.py b/active_subspaces/domains.py
index 293963a..1b6b0f2 100644
--- a/active_subspaces/domains.py
+++ b/active_subspaces/domains.py
@@ -418,6 +418,7 @@ def unique_rows(S):
     -----
     http://stackoverflow.com/questions/16970982/find-unique-rows-in-numpy-array
     """
+    S = S + 0 # a negative zero is a zero
     T = S.view(np.dtype((np.void, S.dtype.itemsize * S.shape[1])))
     return np.unique(T).view(S.dtype).reshape(-1, S.shape[1])
 
@@ -444,7 +445,11 @@ def zonotope_vertices(W1, Nsamples=10000, maxcount=100000):
     """
 
     m, n = W1.shape
-    totalverts = nzv(m,n)
+
+    # inputs that do not matter add no vertices, and inputs that act together
+    # count once
+    R, S = _distinct_rows(W1)
+    totalverts = nzv(R.shape[0],n)
     
     # make sure they're ints
     Nsamples = int(Nsamples)
@@ -452,14 +457,14 @@ def zonotope_vertices(W1, Nsamples=10000, maxcount=100000):
 
     # initialize
     Z = np.random.normal(size=(Nsamples, n))
-    X = unique_rows(np.sign(np.dot(Z, W1.transpose())))
+    X = unique_rows(np.dot(np.sign(np.dot(Z, R.transpose())), S))
     X = unique_rows(np.vstack((X, -X)))
     N = X.shape[0]
     
     count = 0
     while N < totalverts:
         Z = np.random.normal(size=(Nsamples, n))
-        X0 = unique_rows(np.sign(np.dot(Z, W1.transpose())))
+        X0 = unique_rows(np.dot(np.sign(np.dot(Z, R.transpose())), S))
         X0 = unique_rows(np.vstack((X0, -X0)))
         X = unique_rows(np.vstack((X, X0)))
         N = X.shape[0]
@@ -475,6 +480,42 @@ def zonotope_vertices(W1, Nsamples=10000, maxcount=100000):
     return Y.reshape((numverts, n)), X.reshape((numverts, m))
     
 
+def _distinct_rows(W1, tol=1e-7):
+    """Return the distinct directions among the nonzero rows of `W1`.
+
+    Parameters
+    ----------
+    W1 : ndarray
+        m-by-n matrix
+    tol : float, optional
+        rows are parallel if they differ by less once they are normalized
+
+    Returns
+    -------
+    R : ndarray
+        k-by-n matrix with the first row of `W1` in each direction
+    S : ndarray
+        k-by-m matrix. Column j contains the sign of row j of `W1` relative to
+        the row of `R` that it is parallel to. It is zero if that row is zero
+        up to rounding.
+    """
+    m, n = W1.shape
+    norms = np.sqrt(np.sum(W1**2, axis=1))
+    rows, S = [], []
+    for j in range(m):
+        if norms[j] <= 1e-14*np.amax(norms):
+            continue
+        for i, k in enumerate(rows):
+            s = np.sign(np.dot(W1[j], W1[k]))
+            if np.linalg.norm(W1[j]/norms[j] - s*W1[k]/norms[k]) < tol:
+                S[i][j] = s
+                break
+        else:
+            rows.append(j)
+            S.append(np.zeros(m))
+            S[-1][j] = 1.0
+    return W1[rows], np.array(S)
+
 def sample_z(N, y, W1, W2):
     """Sample inactive variables.
     
-- 
2.43.0


From 47dd695c07edbee36124f0e7e4d62bc9380de240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:01 +0000
Subject: [PATCH 21/31] fix: train a minimization map completely or not at all

---
 active_subspaces/optimizers.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/active_subspaces/optimizers.py b/active_subspaces/optimizers.py
index 0ac20a7..fe46089 100644
--- a/active_subspaces/optimizers.py
+++ b/active_subspaces/optimizers.py
@@ -59,10 +59,12 @@ class MinVariableMap(ActiveVariableMap):
         b = np.dot(W[:,:p], br)
         A = np.dot(W[:,:p], np.dot(Ar, W[:,:p].T))
 
+        bz = np.dot(W2.T, b)
+        zAy = np.dot(W2.T, np.dot(A, W1))
+        zAz = np.dot(W2.T, np.dot(A, W2)) + 0.01*np.eye(m-n)
+
         # some private attributes used in the regularize_z function
-        self._bz = np.dot(W2.T, b)
-        self._zAy = np.dot(W2.T, np.dot(A, W1))
-        self._zAz = np.dot(W2.T, np.dot(A, W2)) + 0.01*np.eye(m-n)
+        self._bz, self._zAy, self._zAz = bz, zAy, zAz
 
 class BoundedMinVariableMap(MinVariableMap):
     """This subclass is a MinVariableMap for bounded simulation inputs.
-- 
2.43.0


From 9a1c95907a2de0046b330bf2c782406d9c7f180c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:36 +0000
Subject: [PATCH 22/31] fix: treat repeated samples as rank deficient in the
 least-squares fits

With numpy's old default cut-off a singular value that is zero up to rounding
(two identical rows among the neighbours or in a bootstrap replicate) was often
inverted, and the coefficients were of the order 1e14.
---
 active_subspaces/gradients.py               | 2 +-
 active_subspaces/subspaces.py               | 2 +-
 active_subspaces/utils/response_surfaces.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/active_subspaces/gradients.py b/active_subspaces/gradients.py
index d1c1ff8..9ec3adb 100644
--- a/active_subspaces/gradients.py
+++ b/active_subspaces/gradients.py
@@ -58,7 +58,7 @@ def local_linear_gradients(X, f, p=None, weights=None):
         ind = ind[D2[ind] != 0][:p]
         A = np.hstack((np.ones((ind.size,1)), X[ind,:])) * np.sqrt(weights[ii])
         b = f[ind] * np.sqrt(weights[ii])
-        u = np.linalg.lstsq(A, b)[0]
+        u = np.linalg.lstsq(A, b, rcond=None)[0]
         df[i,:] = u[1:].T
     return df
 
diff --git a/active_subspaces/subspaces.py b/active_subspaces/subspaces.py
index b1527c8..8c89364 100644
--- a/active_subspaces/subspaces.py
+++ b/active_subspaces/subspaces.py
@@ -235,7 +235,7 @@ def ols_subspace(X, f, weights):
     # solve weighted least squares
     A = np.hstack((np.ones((M, 1)), X)) * np.sqrt(weights)
     b = f * np.sqrt(weights)
-    u = np.linalg.lstsq(A, b)[0]
+    u = np.linalg.lstsq(A, b, rcond=None)[0]
     w = u[1:].reshape((m, 1))
     
     # compute rank-1 C
diff --git a/active_subspaces/utils/response_surfaces.py b/active_subspaces/utils/response_surfaces.py
index 90aad29..1ebb848 100644
--- a/active_subspaces/utils/response_surfaces.py
+++ b/active_subspaces/utils/response_surfaces.py
@@ -102,7 +102,7 @@ class PolynomialApproximation(ResponseSurface):
         if weights is not None:
             B, f = weights*B, weights*f
 
-        poly_weights = np.linalg.lstsq(B, f)[0]
+        poly_weights = np.linalg.lstsq(B, f, rcond=None)[0]
         Rsqr = 1.0 - ( np.linalg.norm(np.dot(B, poly_weights) - f)**2 / (M*np.var(f)) )
 
         # organize linear and quadratic coefficients
-- 
2.43.0


From c3a17a2f5fd18e6b62135149db26a63fc038f296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:15 +0000
Subject: [PATCH 23/31] fix: use N points per active variable when N is an
 exact power

The floating-point root of 64, 125 or 216 is slightly less than the integer,
and floor dropped a whole layer of nodes in each active variable.
---
 active_subspaces/integrals.py         | 2 +-
 active_subspaces/response_surfaces.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/active_subspaces/integrals.py b/active_subspaces/integrals.py
index 9c23709..49584ba 100644
--- a/active_subspaces/integrals.py
+++ b/active_subspaces/integrals.py
@@ -201,7 +201,7 @@ def av_quadrature_rule(avmap, N):
     m, n = avmap.domain.subspaces.W1.shape
 
     if isinstance(avmap.domain, UnboundedActiveVariableDomain):
-        NN = [int(np.floor(np.power(N, 1.0/n))) for i in range(n)]
+        NN = [int(np.floor(np.power(N, 1.0/n) + 1e-9)) for i in range(n)]
         Yp, Yw = gq.gauss_hermite(NN)
 
     elif isinstance(avmap.domain, BoundedActiveVariableDomain):
diff --git a/active_subspaces/response_surfaces.py b/active_subspaces/response_surfaces.py
index b7e3e56..e9b8e70 100644
--- a/active_subspaces/response_surfaces.py
+++ b/active_subspaces/response_surfaces.py
@@ -279,7 +279,7 @@ def av_design(avmap, N, NMC=10):
     m, n = avmap.domain.subspaces.W1.shape
 
     if isinstance(avmap.domain, UnboundedActiveVariableDomain):
-        NN = [int(np.floor(np.power(N, 1.0/n))) for i in range(n)]
+        NN = [int(np.floor(np.power(N, 1.0/n) + 1e-9)) for i in range(n)]
         Y = dn.gauss_hermite_design(NN)
 
     elif isinstance(avmap.domain, BoundedActiveVariableDomain):
-- 
2.43.0


From da2b0fb094c6fc8e5322dff41c53f6b6ce0220c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:49 +0000
Subject: [PATCH 24/31] fix: move maximin design points that SLSQP left outside
 the polytope back inside

---
 active_subspaces/utils/designs.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/active_subspaces/utils/designs.py b/active_subspaces/utils/designs.py
index 1fdce31..9546b92 100644
--- a/active_subspaces/utils/designs.py
+++ b/active_subspaces/utils/designs.py
@@ -82,6 +82,16 @@ def maximin_design(vert, N):
             minres = res
 
     design = minres.x.reshape((N, n))
+
+    # SLSQP keeps the constraints only up to its tolerance. move points that are
+    # outside back to the boundary of the polytope, toward its center
+    center = np.mean(vert, axis=0)
+    inside = -np.dot(C.equations[:,:n], center) - C.equations[:,n]
+    for i in range(N):
+        outside = np.maximum(np.dot(C.equations[:,:n], design[i,:]) + C.equations[:,n], 0.0)
+        t = np.amax(outside / (outside + inside))
+        if t > 0:
+            design[i,:] += t*(center - design[i,:])
     return design
 
 def gauss_hermite_design(N):
-- 
2.43.0


From 304fe264451b3f8c2c9692cddd40062c3a0699a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:54 +0000
Subject: [PATCH 25/31] fix: quadratic programs with a matrix that is not
 symmetric

The gradient given to SciPy's optimizers was c + 2 Q' x, which is the gradient
of c'x + x'Qx only when Q is symmetric. With any other Q the optimizers stopped
away from the minimum.
---
 active_subspaces/utils/qp_solver.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/active_subspaces/utils/qp_solver.py b/active_subspaces/utils/qp_solver.py
index 3bb50ed..7976238 100644
--- a/active_subspaces/utils/qp_solver.py
+++ b/active_subspaces/utils/qp_solver.py
@@ -245,7 +245,7 @@ def _scipy_quadratic_program_bnd(c, Q, lb, ub):
         return f[0]
 
     def jac(x):
-        j = c.T + 2.0*np.dot(x, Q)
+        j = c.T + np.dot(x, Q + Q.T)
         return j[0]
 
     # make bounds
@@ -277,7 +277,7 @@ def _scipy_quadratic_program_ineq(c, Q, A, b):
         return f[0]
 
     def jac(x):
-        j = c.T + 2.0*np.dot(x, Q)
+        j = c.T + np.dot(x, Q + Q.T)
         return j[0]
 
     # inequality constraints
-- 
2.43.0


From d4bb73c42621b6cea1d1dc09277f7030a437598a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:13 +0000
Subject: [PATCH 26/31] fix: quadratic programs with small coefficients stop
 short of the minimum

SciPy's optimizers stop by absolute tolerances. With coefficients of 1e-2 and
less the answer was far from the minimizer.
---
 active_subspaces/utils/qp_solver.py | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/active_subspaces/utils/qp_solver.py b/active_subspaces/utils/qp_solver.py
index 7976238..dd6064b 100644
--- a/active_subspaces/utils/qp_solver.py
+++ b/active_subspaces/utils/qp_solver.py
@@ -237,8 +237,23 @@ def _scipy_linear_program_ineq(c, A, b):
         raise Exception('Scipy did not solve the LP. Blame Scipy.')
         return None
 
+def _scaled_objective(c, Q):
+    """Scale a quadratic objective to coefficients of order one.
+
+    The minimizer does not change, but the tolerances of SciPy's optimizers are
+    absolute: an objective with small coefficients would count as minimized
+    long before it is.
+    """
+    size = max(np.max(np.abs(c)), np.max(np.abs(Q)))
+    if not 0.0 < size < np.inf:
+        return c, Q
+    return c/size, Q/size
+
 def _scipy_quadratic_program_bnd(c, Q, lb, ub):
 
+    c0, Q0 = c, Q
+    c, Q = _scaled_objective(c, Q)
+
     # define the objective and gradient
     def fun(x):
         f = np.dot(x, c) + np.dot(x, np.dot(Q, x.T))
@@ -263,12 +278,14 @@ def _scipy_quadratic_program_bnd(c, Q, lb, ub):
             xstar = np.array([[xstar]])
         return xstar.reshape((c.size,1))
     else:
-        _dump_program('scipy_qp_bnd', c=c, Q=Q, lb=lb, ub=ub, res=res)
+        _dump_program('scipy_qp_bnd', c=c0, Q=Q0, lb=lb, ub=ub, res=res)
         raise Exception('Scipy did not solve the LP. Blame Scipy.')
         return None
 
 def _scipy_quadratic_program_ineq(c, Q, A, b):
 
+    c0, Q0 = c, Q
+    c, Q = _scaled_objective(c, Q)
     b = b.reshape((b.size,))
 
     # define the objective and gradient
@@ -295,7 +312,7 @@ def _scipy_quadratic_program_ineq(c, Q, A, b):
             xstar = np.array([[xstar]])
         return xstar.reshape((c.size,1))
     else:
-        _dump_program('scipy_qp_ineq', c=c, Q=Q, A=A, b=b, res=res)
+        _dump_program('scipy_qp_ineq', c=c0, Q=Q0, A=A, b=b, res=res)
         raise Exception('Scipy did not solve the LP. Blame Scipy.')
         return None
 
-- 
2.43.0


From a6a8e54bc7c91064ec83f9440137df088e66c2b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:13 +0000
Subject: [PATCH 27/31] fix: an answer for quadratic programs that are
 unbounded

SLSQP and L-BFGS-B report success after running off to 1e15 and beyond.
---
 active_subspaces/utils/qp_solver.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/active_subspaces/utils/qp_solver.py b/active_subspaces/utils/qp_solver.py
index dd6064b..914dcf2 100644
--- a/active_subspaces/utils/qp_solver.py
+++ b/active_subspaces/utils/qp_solver.py
@@ -249,6 +249,14 @@ def _scaled_objective(c, Q):
         return c, Q
     return c/size, Q/size
 
+def _is_minimizer(res):
+    """Tell whether SciPy's optimizer stopped at a minimizer.
+
+    When a quadratic program is unbounded, the optimizers run off until the
+    objective changes by less than its rounding error, and call that success.
+    """
+    return res.success and np.max(np.abs(res.x)) < 1e12
+
 def _scipy_quadratic_program_bnd(c, Q, lb, ub):
 
     c0, Q0 = c, Q
@@ -272,7 +280,7 @@ def _scipy_quadratic_program_bnd(c, Q, lb, ub):
     res = minimize(fun, x0, method='L-BFGS-B', jac=jac,
                     bounds=bounds, options={"disp": False})
 
-    if res.success:
+    if _is_minimizer(res):
         xstar = res.x
         if isinstance(xstar, float):
             xstar = np.array([[xstar]])
@@ -306,7 +314,7 @@ def _scipy_quadratic_program_ineq(c, Q, A, b):
     res = minimize(fun, x0, method='SLSQP', jac=jac,
                     constraints=cons, options={"disp": False})
 
-    if res.success:
+    if _is_minimizer(res):
         xstar = res.x
         if isinstance(xstar, float):
             xstar = np.array([[xstar]])
-- 
2.43.0


From 418cae14fa849240efd049e24039d9757bd6309a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:13 +0000
Subject: [PATCH 28/31] fix: L-BFGS-B's answer to a quadratic program may be no
 minimizer

After a step cut short by the bounds it may report success away from the
minimum. Start again from there, and report the failure if that does not help.
---
 active_subspaces/utils/qp_solver.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/active_subspaces/utils/qp_solver.py b/active_subspaces/utils/qp_solver.py
index 914dcf2..1ac0020 100644
--- a/active_subspaces/utils/qp_solver.py
+++ b/active_subspaces/utils/qp_solver.py
@@ -276,11 +276,18 @@ def _scipy_quadratic_program_bnd(c, Q, lb, ub):
     for i in range(lb.size):
         bounds.append((lb[i,0],ub[i,0]))
 
+    # L-BFGS-B may stop early after a step that the bounds cut short. Starting
+    # again from there goes on to the minimizer.
     x0 = np.zeros((c.size,))
-    res = minimize(fun, x0, method='L-BFGS-B', jac=jac,
+    for i in range(20):
+        res = minimize(fun, x0, method='L-BFGS-B', jac=jac,
                     bounds=bounds, options={"disp": False})
+        x0 = res.x
+        step = np.clip(x0 - jac(x0), lb.flatten(), ub.flatten()) - x0
+        if not res.success or np.max(np.abs(step)) <= 1e-5:
+            break
 
-    if _is_minimizer(res):
+    if _is_minimizer(res) and np.max(np.abs(step)) <= 1e-3:
         xstar = res.x
         if isinstance(xstar, float):
             xstar = np.array([[xstar]])
-- 
2.43.0


From c0417d100a64c2f27ec4fff2f8b08f998f623a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:39 +0000
Subject: [PATCH 29/31] fix: minimizers on the boundary of the domain could not
 be mapped back

On vertices and edges the feasible set of the quadratic program has no interior,
or is empty up to rounding: SLSQP failed in one case of ten, and sometimes
returned a point that is not the minimizer. Relax the bounds by 1e-7.
---
 active_subspaces/optimizers.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/active_subspaces/optimizers.py b/active_subspaces/optimizers.py
index fe46089..1135b69 100644
--- a/active_subspaces/optimizers.py
+++ b/active_subspaces/optimizers.py
@@ -111,10 +111,13 @@ class BoundedMinVariableMap(MinVariableMap):
         A_ineq = np.vstack((W2, -W2))
         for y in Y:
             c = self._bz.reshape((m-n, 1)) + np.dot(self._zAy, y).reshape((m-n, 1))
+            # Minimizers are often on the boundary of the domain, where the
+            # feasible set has no interior, or is empty up to rounding. SLSQP
+            # fails there or stops short, so leave it a little room.
             b_ineq = np.vstack((
                 -1-np.dot(W1, y).reshape((m, 1)),
                 -1+np.dot(W1, y).reshape((m, 1))
-                ))
+                )) - 1e-7
             z = qps.quadratic_program_ineq(c, 0.5*self._zAz, A_ineq, b_ineq)
             Zlist.append(z)
         Z = np.array(Zlist).reshape((NY, m-n, N))
-- 
2.43.0


From 97db09f1328a2775ac1e9cdefad048a218bc3d03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:38 +0000
Subject: [PATCH 30/31] fix: refuse outputs that do not match the inputs of
 local linear models

---
 active_subspaces/gradients.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/active_subspaces/gradients.py b/active_subspaces/gradients.py
index 9ec3adb..a7b6594 100644
--- a/active_subspaces/gradients.py
+++ b/active_subspaces/gradients.py
@@ -37,6 +37,9 @@ def local_linear_gradients(X, f, p=None, weights=None):
     X, M, m = process_inputs(X)
     if M<=m: raise Exception('Not enough samples for local linear models.')
 
+    if f.shape[0] != M:
+        raise Exception('Different number of inputs and outputs.')
+
     if p is None:
         p = int(np.minimum(np.floor(1.7*m), M))
     elif not isinstance(p, int):
-- 
2.43.0


From 52eaadf45753dfe999818f247e044677345b400d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:55 +0000
Subject: [PATCH 31/31] fix: eigenvalues outside the ranges of their replicates
 were not in view

---
 active_subspaces/utils/plotters.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/active_subspaces/utils/plotters.py b/active_subspaces/utils/plotters.py
index 868987a..f71424f 100644
--- a/active_subspaces/utils/plotters.py
+++ b/active_subspaces/utils/plotters.py
@@ -86,7 +86,10 @@ def eigenvalues(e, e_br=None, out_label=None, opts=None):
     if e_br is None:
         plt.axis([0, k+1, 0.1*np.amin(e), 10*np.amax(e)])
     else:
-        plt.axis([0, k+1, 0.1*np.amin(e_br[:,0]), 10*np.amax(e_br[:,1])])
+        # an eigenvalue may be outside of the range of its replicates
+        emin = np.minimum(np.amin(e), np.amin(e_br[:,0]))
+        emax = np.maximum(np.amax(e), np.amax(e_br[:,1]))
+        plt.axis([0, k+1, 0.1*emin, 10*emax])
 
     if opts['savefigs']:
         figname = 'figs/evals_' + out_label + opts['figtype']
-- 
2.43.0

