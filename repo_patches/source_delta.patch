From 9eaff43c6f23c6548e690a46519123cc583e4383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:30 +0000
Subject: [PATCH 01/21] fix: use the whole sampled path (from 0) in the area
 coefficient of get_approx_and_brownian

---
 bayesian_sde_solver/foster_polynomial.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bayesian_sde_solver/foster_polynomial.py b/bayesian_sde_solver/foster_polynomial.py
index ef58d22..afcd960 100644
--- a/bayesian_sde_solver/foster_polynomial.py
+++ b/bayesian_sde_solver/foster_polynomial.py
@@ -37,8 +37,9 @@ def get_approx_and_brownian(dim=1, N=1000):
         incs = jax.random.normal(key, shape=(N, dim))
         bm = jnp.cumsum(incs, axis=0)
         bm *= jnp.sqrt(dt / N)
+        bm = jnp.concatenate([jnp.zeros((1, dim)), bm], axis=0)  # the path starts at 0
 
-        _is = jnp.arange(1, N + 1)
+        _is = jnp.arange(0, N + 1)
 
         eps_0 = bm.at[-1].get()
 
-- 
2.43.0


From 837d1cf4e7f311efb7b29cea60afd74e2782b7f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:54 +0000
Subject: [PATCH 02/21] fix: elementwise Ito-Taylor terms for state-dependent
 diagonal noise in diag_15_scheme

---
 bayesian_sde_solver/sde_solvers/diag_15_scheme.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/bayesian_sde_solver/sde_solvers/diag_15_scheme.py b/bayesian_sde_solver/sde_solvers/diag_15_scheme.py
index fdb0a0c..8395769 100644
--- a/bayesian_sde_solver/sde_solvers/diag_15_scheme.py
+++ b/bayesian_sde_solver/sde_solvers/diag_15_scheme.py
@@ -59,11 +59,12 @@ def solver(key, init, drift, sigma, h, N):
                 * partialxsigma(x)
                 @ sigma(x)
                 @ (jnp.square(eta_k) - h * jnp.ones(dim))
-                + partialxsigma(x) @ drift(x) @ (h * eta_k - zeta_k)
-                + 0.5 * laplacesigma(x) @ (h * eta_k - zeta_k)
+                + partialxsigma(x) @ drift(x) * (h * eta_k - zeta_k)
+                + 0.5 * laplacesigma(x) * (h * eta_k - zeta_k)
                 + 0.5
-                * (partialxsigma(x) @ partialxsigma(x) @ sigma(x) + laplacesigma(x))
-                @ (1 / 3 * eta_k @ eta_k.T - h * jnp.ones(dim))
+                * (partialxsigma(x) @ partialxsigma(x) @ diagSigma(x) + laplacesigma(x))
+                * (1 / 3 * jnp.square(eta_k) - h * jnp.ones(dim))
+                * eta_k
         )
         return out, out
 
-- 
2.43.0


From 660f87ddc315a33c226475087803b43c6bd8e136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:28 +0000
Subject: [PATCH 03/21] fix: ekf0 and ekf1 accept the default prior=None
 (integrated Brownian motion)

---
 bayesian_sde_solver/ode_solvers/ekf0.py | 2 +-
 bayesian_sde_solver/ode_solvers/ekf1.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/bayesian_sde_solver/ode_solvers/ekf0.py b/bayesian_sde_solver/ode_solvers/ekf0.py
index 17b3f43..d0635dd 100644
--- a/bayesian_sde_solver/ode_solvers/ekf0.py
+++ b/bayesian_sde_solver/ode_solvers/ekf0.py
@@ -11,7 +11,7 @@ def solver(key, init, vector_field, h, N, sqrt=False, prior=None, noise=None):
     Wrapper for EKF0 with new prior at each step.
     Algorithm 2.
     """
-    n_states = int(prior[2].shape[0] / init.shape[
+    n_states = 2 if prior is None else int(prior[2].shape[0] / init.shape[
         0])  # assuming same order for each dimension... not general, but good enough. You can pad otherwise.
     dim = init.shape[0]
     # the first two cases are exact initialization
diff --git a/bayesian_sde_solver/ode_solvers/ekf1.py b/bayesian_sde_solver/ode_solvers/ekf1.py
index 20a4f5a..8fa3054 100644
--- a/bayesian_sde_solver/ode_solvers/ekf1.py
+++ b/bayesian_sde_solver/ode_solvers/ekf1.py
@@ -10,7 +10,7 @@ def solver(key, init, vector_field, h, N, sqrt=True, prior=None, noise=None):
     """
     Wrapper for EKF1 with new prior at each step.
     """
-    n_states = int(prior[2].shape[0] / init.shape[0])
+    n_states = 2 if prior is None else int(prior[2].shape[0] / init.shape[0])
     dim = init.shape[0]
     if n_states == 2:
         # Zero initial variance
-- 
2.43.0


From ab49bf351591fdaf1bc7d8b608b8596562497736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:28 +0000
Subject: [PATCH 04/21] fix: initial covariance of ekf0/ekf1 with four or more
 states per coordinate

---
 bayesian_sde_solver/ode_solvers/ekf0.py | 4 ++--
 bayesian_sde_solver/ode_solvers/ekf1.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/bayesian_sde_solver/ode_solvers/ekf0.py b/bayesian_sde_solver/ode_solvers/ekf0.py
index d0635dd..65d253c 100644
--- a/bayesian_sde_solver/ode_solvers/ekf0.py
+++ b/bayesian_sde_solver/ode_solvers/ekf0.py
@@ -31,9 +31,9 @@ def solver(key, init, vector_field, h, N, sqrt=False, prior=None, noise=None):
         # The three first states are exactly initialized, otherwise set to 0 with unit variance. This is arbitrary.
         init = (
             interlace((init, vector_field(init, 0.0),
-                       jax.jacfwd(vector_field, argnums=(0,))(init, 0.0) @ vector_field(init, 0.0),
+                       jax.jacfwd(vector_field)(init, 0.0) @ vector_field(init, 0.0),
                        *(jnp.zeros(dim) for _ in range(n_states - 3)))),
-            jnp.kron(jnp.eye(dim), jnp.identity(n_states).at[:3, :3]).set(0)
+            jnp.kron(jnp.eye(dim), jnp.identity(n_states).at[:3, :3].set(0))
         )
     filtered = _solver(init, vector_field, h, N, sqrt, EKF0=True, prior=prior, noise=noise, n_states=n_states)
     m, P = filtered
diff --git a/bayesian_sde_solver/ode_solvers/ekf1.py b/bayesian_sde_solver/ode_solvers/ekf1.py
index 8fa3054..7ab0553 100644
--- a/bayesian_sde_solver/ode_solvers/ekf1.py
+++ b/bayesian_sde_solver/ode_solvers/ekf1.py
@@ -29,7 +29,7 @@ def solver(key, init, vector_field, h, N, sqrt=True, prior=None, noise=None):
         init = (
             interlace((init, vector_field(init, 0.0), jax.jacfwd(vector_field)(init, 0.0) @ vector_field(init, 0.0),
                        *(jnp.zeros(dim) for _ in range(n_states - 3)))),
-            jnp.eye(n_states * dim).at[:3 * dim, :3 * dim].set(0.0)
+            jnp.kron(jnp.eye(dim), jnp.identity(n_states).at[:3, :3].set(0))
         )
     filtered = _solver(init, vector_field, h, N, sqrt, EKF0=False, prior=prior, noise=noise, n_states=n_states)
     m, P = filtered
-- 
2.43.0


From 2f64a1aacceb5024e266aa5dfc92c7e3e206e5d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:28 +0000
Subject: [PATCH 05/21] fix: exact initialization of the second derivative for
 time-dependent vector fields

---
 bayesian_sde_solver/ode_solvers/ekf0.py | 6 ++++--
 bayesian_sde_solver/ode_solvers/ekf1.py | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/bayesian_sde_solver/ode_solvers/ekf0.py b/bayesian_sde_solver/ode_solvers/ekf0.py
index 65d253c..b94f0e5 100644
--- a/bayesian_sde_solver/ode_solvers/ekf0.py
+++ b/bayesian_sde_solver/ode_solvers/ekf0.py
@@ -14,6 +14,8 @@ def solver(key, init, vector_field, h, N, sqrt=False, prior=None, noise=None):
     n_states = 2 if prior is None else int(prior[2].shape[0] / init.shape[
         0])  # assuming same order for each dimension... not general, but good enough. You can pad otherwise.
     dim = init.shape[0]
+    # second derivative of the solution at time 0, including the explicit time dependence of the field
+    _, second_derivative = jax.jvp(vector_field, (init, 0.0), (vector_field(init, 0.0), 1.0))
     # the first two cases are exact initialization
     if n_states == 2:
         # Zero initial variance
@@ -24,14 +26,14 @@ def solver(key, init, vector_field, h, N, sqrt=False, prior=None, noise=None):
     elif n_states == 3:
         # Zero initial variance
         init = (
-            interlace((init, vector_field(init, 0.0), jax.jacfwd(vector_field)(init, 0.0) @ vector_field(init, 0.0))),
+            interlace((init, vector_field(init, 0.0), second_derivative)),
             jnp.zeros((n_states * dim, n_states * dim))
         )
     else:
         # The three first states are exactly initialized, otherwise set to 0 with unit variance. This is arbitrary.
         init = (
             interlace((init, vector_field(init, 0.0),
-                       jax.jacfwd(vector_field)(init, 0.0) @ vector_field(init, 0.0),
+                       second_derivative,
                        *(jnp.zeros(dim) for _ in range(n_states - 3)))),
             jnp.kron(jnp.eye(dim), jnp.identity(n_states).at[:3, :3].set(0))
         )
diff --git a/bayesian_sde_solver/ode_solvers/ekf1.py b/bayesian_sde_solver/ode_solvers/ekf1.py
index 7ab0553..606944e 100644
--- a/bayesian_sde_solver/ode_solvers/ekf1.py
+++ b/bayesian_sde_solver/ode_solvers/ekf1.py
@@ -12,6 +12,8 @@ def solver(key, init, vector_field, h, N, sqrt=True, prior=None, noise=None):
     """
     n_states = 2 if prior is None else int(prior[2].shape[0] / init.shape[0])
     dim = init.shape[0]
+    # second derivative of the solution at time 0, including the explicit time dependence of the field
+    _, second_derivative = jax.jvp(vector_field, (init, 0.0), (vector_field(init, 0.0), 1.0))
     if n_states == 2:
         # Zero initial variance
         init = (
@@ -21,13 +23,13 @@ def solver(key, init, vector_field, h, N, sqrt=True, prior=None, noise=None):
     elif n_states == 3:
         # Zero initial variance
         init = (
-            interlace((init, vector_field(init, 0.0), jax.jacfwd(vector_field)(init, 0.0) @ vector_field(init, 0.0))),
+            interlace((init, vector_field(init, 0.0), second_derivative)),
             jnp.zeros((n_states * dim, n_states * dim))
         )
     else:
         # The three first states are exactly initialized, otherwise set to 0 with unit variance. This is arbitrary.
         init = (
-            interlace((init, vector_field(init, 0.0), jax.jacfwd(vector_field)(init, 0.0) @ vector_field(init, 0.0),
+            interlace((init, vector_field(init, 0.0), second_derivative,
                        *(jnp.zeros(dim) for _ in range(n_states - 3)))),
             jnp.kron(jnp.eye(dim), jnp.identity(n_states).at[:3, :3].set(0))
         )
-- 
2.43.0


From 7df31eae141a16988fe8ea9dfaf4bdb1abd04c0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:28 +0000
Subject: [PATCH 06/21] fix: observation noise covariance is factored in the
 square-root ODE filters

---
 bayesian_sde_solver/ode_solvers/ekf.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bayesian_sde_solver/ode_solvers/ekf.py b/bayesian_sde_solver/ode_solvers/ekf.py
index 490af4e..580b6bd 100644
--- a/bayesian_sde_solver/ode_solvers/ekf.py
+++ b/bayesian_sde_solver/ode_solvers/ekf.py
@@ -1,5 +1,6 @@
 import jax
 import jax.numpy as jnp
+import jax.scipy.linalg as linalg
 
 from bayesian_sde_solver.ode_solvers.probnum import IOUP_transition_function
 from bayesian_sde_solver.ode_solvers.probnum import ekf
@@ -22,6 +23,8 @@ def _solver(init, vector_field, h, N, sqrt=False, EKF0=False, prior=None, noise=
         noise = jnp.zeros((dim, dim))
     else:
         assert noise.shape == (dim, dim)
+        if sqrt:
+            noise = jnp.real(linalg.sqrtm(noise))  # noise is a covariance, like the transition covariance
 
     if EKF0:
         def observation_function(x, t):
-- 
2.43.0


From f4d2110d22a04f03f86ba86d522b10678b7d47a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:17 +0000
Subject: [PATCH 07/21] fix: generic LTI transition uses a trapezoid rule
 available in the supported JAX versions

---
 .../ode_solvers/probnum/transition_function.py               | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bayesian_sde_solver/ode_solvers/probnum/transition_function.py b/bayesian_sde_solver/ode_solvers/probnum/transition_function.py
index 60b0c10..ea1366b 100644
--- a/bayesian_sde_solver/ode_solvers/probnum/transition_function.py
+++ b/bayesian_sde_solver/ode_solvers/probnum/transition_function.py
@@ -3,6 +3,7 @@ from typing import Tuple
 import jax
 import jax.numpy as jnp
 import jax.scipy.linalg as linalg
+from jax.scipy.integrate import trapezoid
 from numpy.typing import ArrayLike
 
 
@@ -27,7 +28,7 @@ def transition_function(F: jnp.array, u: jnp.array, L: jnp.array, h: float, n_li
         return linalg.expm(F * s) @ u
 
     integrand_xi_values = integrand_xi(linspace)
-    xi = jnp.trapezoid(integrand_xi_values, linspace, axis=0)
+    xi = trapezoid(integrand_xi_values, linspace, axis=0)
 
     @jax.vmap
     def integrand_Q(s):
@@ -35,7 +36,7 @@ def transition_function(F: jnp.array, u: jnp.array, L: jnp.array, h: float, n_li
         return B @ B.T
 
     integrand_Q_values = integrand_Q(linspace)
-    Q = jnp.trapezoid(integrand_Q_values, linspace, axis=0)
+    Q = trapezoid(integrand_Q_values, linspace, axis=0)
 
     return xi, Q, A
 
-- 
2.43.0


From 9cf44aaa6eaa0f01bbc60fae776f18b3e0d71cfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:52 +0000
Subject: [PATCH 08/21] fix: sign of the powers of lambda in the general Matern
 drift matrix

---
 bayesian_sde_solver/ode_solvers/probnum/matern.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayesian_sde_solver/ode_solvers/probnum/matern.py b/bayesian_sde_solver/ode_solvers/probnum/matern.py
index e2675e4..d3b99a6 100644
--- a/bayesian_sde_solver/ode_solvers/probnum/matern.py
+++ b/bayesian_sde_solver/ode_solvers/probnum/matern.py
@@ -62,7 +62,7 @@ ArrayLike]:
     else:
         F = jnp.block(
             [[jnp.zeros(k).reshape((k, 1)), jnp.diag(jnp.ones(k))],
-             [jnp.array([-comb(k + 1, i) * lambda_param ** (i - (k + 1)) for i in range(k + 1)]).reshape((1, k + 1))]]
+             [jnp.array([-comb(k + 1, i) * lambda_param ** (k + 1 - i) for i in range(k + 1)]).reshape((1, k + 1))]]
         )
         L = jnp.append(jnp.array([0. for _ in range(k)]), jnp.array([magnitude])).reshape(k + 1, 1)
         m, Q, A = compute_transition_function(F, jnp.zeros(k + 1), L, dt)
-- 
2.43.0


From 1ddc9603795bdb371c417897020ad575fd45a5e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:46 +0000
Subject: [PATCH 09/21] fix: Brownian-parabola filter passes the transition
 increment to the Kalman filter

---
 bayesian_sde_solver/ssm_parabola/ekf.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/bayesian_sde_solver/ssm_parabola/ekf.py b/bayesian_sde_solver/ssm_parabola/ekf.py
index 49f5e6a..caf41c7 100644
--- a/bayesian_sde_solver/ssm_parabola/ekf.py
+++ b/bayesian_sde_solver/ssm_parabola/ekf.py
@@ -64,13 +64,13 @@ def _solver(init, drift, diffusion, delta, h, N, sqrt=True, EKF0=False, prior=No
             return x[1::4] - extended_vector_field(x, t)
     if prior is None:
         (
-            _,
+            one_block_transition_incr,
             one_block_transition_covariance,
             one_block_transition_matrix
         ) = IOUP_transition_function(theta=0.0, sigma=1.0, q=1, dt=h, dim=1)
     else:
         (
-            _,
+            one_block_transition_incr,
             one_block_transition_covariance,
             one_block_transition_matrix
         ) = prior
@@ -80,6 +80,7 @@ def _solver(init, drift, diffusion, delta, h, N, sqrt=True, EKF0=False, prior=No
         var = jnp.real(linalg.sqrtm(var))  # should be LDL.T, Cholesky
     init = (mean, var)
 
+    one_block_transition_incr = jnp.concatenate([one_block_transition_incr, jnp.zeros((2,))])
     one_block_transition_matrix = jnp.block(
         [[one_block_transition_matrix, jnp.zeros((2, 2))],
          [jnp.zeros((2, 2)), jnp.eye(2)]]
@@ -89,10 +90,11 @@ def _solver(init, drift, diffusion, delta, h, N, sqrt=True, EKF0=False, prior=No
          [jnp.zeros((2, 2)), jnp.zeros((2, 2))]]
     )
 
+    transition_incr = jnp.tile(one_block_transition_incr, dim)
     transition_matrix = jnp.kron(jnp.eye(dim), one_block_transition_matrix)
     transition_covariance = jnp.kron(jnp.eye(dim), one_block_transition_covariance)
 
     filtered = ekf(init=init, observation_function=observation_function, A=transition_matrix,
-                   Q_or_cholQ=transition_covariance, R_or_cholR=noise, params=(ts,), lower_sqrt=sqrt)
+                   Q_or_cholQ=transition_covariance, xi=transition_incr, R_or_cholR=noise, params=(ts,), lower_sqrt=sqrt)
 
     return filtered
-- 
2.43.0


From 3242d9896ae9b2b201bc95bd76cfc6f3624fa95a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:24 +0000
Subject: [PATCH 10/21] fix: observation noise covariance is factored in the
 square-root Brownian-parabola filter

---
 bayesian_sde_solver/ssm_parabola/ekf.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bayesian_sde_solver/ssm_parabola/ekf.py b/bayesian_sde_solver/ssm_parabola/ekf.py
index caf41c7..950b6d9 100644
--- a/bayesian_sde_solver/ssm_parabola/ekf.py
+++ b/bayesian_sde_solver/ssm_parabola/ekf.py
@@ -25,6 +25,8 @@ def _solver(init, drift, diffusion, delta, h, N, sqrt=True, EKF0=False, prior=No
         noise = jnp.zeros((dim, dim))
     else:
         assert noise.shape == (dim, dim)
+        if sqrt:
+            noise = jnp.real(linalg.sqrtm(noise))  # noise is a covariance, like the transition covariance
 
     mean = interlace((init, drift(init, 0.0), jnp.zeros((dim,)), jnp.zeros((dim,))))
 
-- 
2.43.0


From 146bdc3bda6fcdc5358ddb185f9bbe77151191a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:03 +0000
Subject: [PATCH 11/21] fix: random_linear_sde draws the drift and the
 diffusion matrices independently

---
 bayesian_sde_solver/utils/ivp.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/bayesian_sde_solver/utils/ivp.py b/bayesian_sde_solver/utils/ivp.py
index fedc79d..45cb572 100644
--- a/bayesian_sde_solver/utils/ivp.py
+++ b/bayesian_sde_solver/utils/ivp.py
@@ -131,9 +131,11 @@ def random_linear_sde(key=jax.random.PRNGKey(1337), dim=1, std1=None, std2=None)
 
     x0 = jnp.ones((dim,))
 
-    drift_matrix = jax.random.normal(key, shape=(dim, dim))
+    drift_key, sigma_key = jax.random.split(key)
 
-    sigma_matrix = jax.random.normal(key, shape=(dim, dim))
+    drift_matrix = jax.random.normal(drift_key, shape=(dim, dim))
+
+    sigma_matrix = jax.random.normal(sigma_key, shape=(dim, dim))
 
     def drift(x, t):
         return std1 @ drift_matrix @ x
-- 
2.43.0


From ba6c41aa10dca63fb71a1765b72112e7637d4f77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:45 +0000
Subject: [PATCH 12/21] fix: second-order mean expansion of FitzHugh-Nagumo
 (sign of alpha)

---
 bayesian_sde_solver/utils/ivp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayesian_sde_solver/utils/ivp.py b/bayesian_sde_solver/utils/ivp.py
index 45cb572..983ecfe 100644
--- a/bayesian_sde_solver/utils/ivp.py
+++ b/bayesian_sde_solver/utils/ivp.py
@@ -40,7 +40,7 @@ def fhn():
         return x0 + t * jnp.array(
             [1 / eps * (x0[0] - x0[0] ** 3 - x0[1] + s) + t / 2 * 1 / eps * (
                     1 / eps * (1 - 3 * x0[0] ** 2) * (x0[0] - x0[0] ** 3 - x0[1] + s)
-                    - (gamma * x0[0] - x0[1] - alpha)),
+                    - (gamma * x0[0] - x0[1] + alpha)),
              gamma * x0[0] - x0[1] + alpha + t / 2 * (
                      gamma / eps * (x0[0] - x0[0] ** 3 - x0[1] + s) - (gamma * x0[0] - x0[1] + alpha))])
 
-- 
2.43.0


From d2fa05a27101779b9104f21bf45fd1768933398d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:45 +0000
Subject: [PATCH 13/21] fix: second-order mean expansion of the synaptic
 conductance model (membrane potential component)

---
 bayesian_sde_solver/utils/ivp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayesian_sde_solver/utils/ivp.py b/bayesian_sde_solver/utils/ivp.py
index 983ecfe..00725cc 100644
--- a/bayesian_sde_solver/utils/ivp.py
+++ b/bayesian_sde_solver/utils/ivp.py
@@ -331,7 +331,7 @@ def synaptic_conductance():
 
     def theoretical_mean_up_to_order_2(t):
         return (x0 + t * drift(x0) + t ** 2 / 2 * jnp.array(
-            [-1.0 / C * (drift(x0)[0] * (G_L + x0[1] + x0[2]) + drift(x0)[1] * (x0[1] - V_E) + drift(x0)[2] * (
+            [-1.0 / C * (drift(x0)[0] * (G_L + x0[1] + x0[2]) + drift(x0)[1] * (x0[0] - V_E) + drift(x0)[2] * (
                     x0[0] - V_I)),
              -1.0 / tau_E * drift(x0)[1],
              -1.0 / tau_I * drift(x0)[2]])
-- 
2.43.0


From cae0f99f7f15bdc5534ff659f4dd3a6b00d176bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:45 +0000
Subject: [PATCH 14/21] fix: component indices of the reduced synaptic
 conductance model

---
 bayesian_sde_solver/utils/ivp.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bayesian_sde_solver/utils/ivp.py b/bayesian_sde_solver/utils/ivp.py
index 00725cc..d706ce9 100644
--- a/bayesian_sde_solver/utils/ivp.py
+++ b/bayesian_sde_solver/utils/ivp.py
@@ -165,16 +165,16 @@ def synaptic_conductance_reduced():
 
     def drift(x):
         return jnp.array(
-            [-1.0 / tau_E * (x[1] - gbar_E), -1.0 / tau_I * (x[2] - gbar_I)]
+            [-1.0 / tau_E * (x[0] - gbar_E), -1.0 / tau_I * (x[1] - gbar_I)]
         )
 
     def sigma(x):
         return jnp.array(
-            [[sig_E * x[1] ** 0.5, 0.0], [0.0, sig_I * x[2] ** 0.5]]
+            [[sig_E * x[0] ** 0.5, 0.0], [0.0, sig_I * x[1] ** 0.5]]
         )
 
     def theoretical_mean_up_to_order_2(t):
-        return x0 + t * drift(x0) + t ** 2 / 2 * jnp.array([-1.0 / tau_E * drift(x0)[1], -1.0 / tau_I * drift(x0)[2]])
+        return x0 + t * drift(x0) + t ** 2 / 2 * jnp.array([-1.0 / tau_E * drift(x0)[0], -1.0 / tau_I * drift(x0)[1]])
 
     return x0, drift, sigma, theoretical_mean_up_to_order_2
 
-- 
2.43.0


From a4ba2076dd4d43f85dc9d7b7e1ab735b286f8693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:59 +0000
Subject: [PATCH 15/21] fix: fine reference of the Algorithm 3 experiments
 keeps every sample

---
 scripts/EKF0_FHN/pathwise_convergence_experiment_2_RAM_2.py | 1 -
 scripts/EKF0_IBM/pathwise_convergence_experiment_2_RAM_2.py | 1 -
 scripts/EKF1_IBM/pathwise_convergence_experiment_2_RAM_2.py | 1 -
 scripts/pathwise_convergence_experiment_2_RAM_2.py          | 1 -
 4 files changed, 4 deletions(-)

diff --git a/scripts/EKF0_FHN/pathwise_convergence_experiment_2_RAM_2.py b/scripts/EKF0_FHN/pathwise_convergence_experiment_2_RAM_2.py
index de0eeb1..b5be4c3 100644
--- a/scripts/EKF0_FHN/pathwise_convergence_experiment_2_RAM_2.py
+++ b/scripts/EKF0_FHN/pathwise_convergence_experiment_2_RAM_2.py
@@ -115,7 +115,6 @@ def experiment(delta, N, M, fine):
     linspaces, sols, sol2 = wrapped_filter_parabola(keys)
     if _solver in [ekf0_2, ekf1_2]:
         sols = sols[0]
-        sol2 = sol2[0]
 
     return sols, sol2
 
diff --git a/scripts/EKF0_IBM/pathwise_convergence_experiment_2_RAM_2.py b/scripts/EKF0_IBM/pathwise_convergence_experiment_2_RAM_2.py
index b23762b..7e6a723 100644
--- a/scripts/EKF0_IBM/pathwise_convergence_experiment_2_RAM_2.py
+++ b/scripts/EKF0_IBM/pathwise_convergence_experiment_2_RAM_2.py
@@ -117,7 +117,6 @@ def experiment(delta, N, M, fine):
     linspaces, sols, sol2 = wrapped_filter_parabola(keys)
     if _solver in [ekf0_2, ekf1_2]:
         sols = sols[0]
-        sol2 = sol2[0]
 
     return sols, sol2
 
diff --git a/scripts/EKF1_IBM/pathwise_convergence_experiment_2_RAM_2.py b/scripts/EKF1_IBM/pathwise_convergence_experiment_2_RAM_2.py
index e46bf60..3054129 100644
--- a/scripts/EKF1_IBM/pathwise_convergence_experiment_2_RAM_2.py
+++ b/scripts/EKF1_IBM/pathwise_convergence_experiment_2_RAM_2.py
@@ -118,7 +118,6 @@ def experiment(delta, N, M, fine):
     linspaces, sols, sol2 = wrapped_filter_parabola(keys)
     if _solver in [ekf0_2, ekf1_2]:
         sols = sols[0]
-        sol2 = sol2[0]
 
     return sols, sol2
 
diff --git a/scripts/pathwise_convergence_experiment_2_RAM_2.py b/scripts/pathwise_convergence_experiment_2_RAM_2.py
index 83f5ad2..d9ce46d 100644
--- a/scripts/pathwise_convergence_experiment_2_RAM_2.py
+++ b/scripts/pathwise_convergence_experiment_2_RAM_2.py
@@ -121,7 +121,6 @@ def experiment(delta, N, M, fine):
     linspaces, sols, sol2 = wrapped_filter_parabola(keys)
     if _solver in [ekf0_2, ekf1_2]:
         sols = sols[0]
-        sol2 = sol2[0]
 
     return sols, sol2
 
-- 
2.43.0


From eddade33a33b03414ddba47a293eadbe85bafebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:59 +0000
Subject: [PATCH 16/21] fix: pathwise_convergence_experiment_2 passes an
 observation noise the filter accepts

---
 scripts/pathwise_convergence_experiment_2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/pathwise_convergence_experiment_2.py b/scripts/pathwise_convergence_experiment_2.py
index d01054c..4593fae 100644
--- a/scripts/pathwise_convergence_experiment_2.py
+++ b/scripts/pathwise_convergence_experiment_2.py
@@ -36,7 +36,7 @@ def experiment(delta, N, M, fine):
     keys = jax.random.split(JAX_KEY, 1_0000)
 
     prior = IOUP_transition_function(theta=0.0, sigma=1.0, dt=delta / M, q=1, dim=x0.shape[0])
-    solver = partial(_solver, prior=prior, noise=jnp.array([[0.0]]))
+    solver = partial(_solver, prior=prior, noise=None)
 
     def wrapped(_key, init, vector_field, T):
         return solver(_key, init=init, vector_field=vector_field, h=T / M, N=M)
-- 
2.43.0


From c5b9381fb33d048902af0c44fdc46f5a8f21d0d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:59 +0000
Subject: [PATCH 17/21] fix: strong_convergence_parabola_ode uses the progress
 bar that exists

---
 scripts/strong_convergence_parabola_ode.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scripts/strong_convergence_parabola_ode.py b/scripts/strong_convergence_parabola_ode.py
index edbac5d..27ab15e 100644
--- a/scripts/strong_convergence_parabola_ode.py
+++ b/scripts/strong_convergence_parabola_ode.py
@@ -1,5 +1,5 @@
 from functools import partial
-from bayesian_sde_solver.utils.progress_bar import progress_bar_scan
+from bayesian_sde_solver.utils.progress_bar import progress_bar
 
 import jax
 import jax.numpy as jnp
@@ -44,7 +44,7 @@ def experiment(delta, N, M, fine):
         init = x0
         get_coeffs, eval_fn = bm()
 
-        @progress_bar_scan(num_samples=N, message=f"N={N}")
+        @progress_bar(num_samples=N, message=f"N={N}")
         def body(x, inp):
             x1, x2 = x
             _, key_k, t_k = inp
-- 
2.43.0


From f3730d7a9327643ddf401093f69e1b351841aa7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:59 +0000
Subject: [PATCH 18/21] fix: fine time grid of the closed-form reference in
 breaking_multidimensionnal

---
 scripts/breaking_multidimensionnal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/breaking_multidimensionnal.py b/scripts/breaking_multidimensionnal.py
index 2512dce..52a49e8 100644
--- a/scripts/breaking_multidimensionnal.py
+++ b/scripts/breaking_multidimensionnal.py
@@ -36,7 +36,7 @@ def experiment(delta, N, M, fine, dim):
     sigma_matrix = sigma(jnp.identity(n=dim), 0.0)
     transition_matrix = jlinalg.expm(drift_matrix * delta)
     init = x0
-    fine_ts = jnp.arange(0, delta, M)
+    fine_ts = jnp.arange(fine) * delta / fine
     def sde_solver(
             key,
             drift: Callable,
-- 
2.43.0


From 405c1f188d4b661ce46e4d4d72c75f9ec333c595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:59 +0000
Subject: [PATCH 19/21] fix: posterior samples use the lower Cholesky factor of
 the posterior covariance

---
 .../pathwise_sampling_from_posterior.py                         | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/sampling_from_posterior_alg3/pathwise_sampling_from_posterior.py b/scripts/sampling_from_posterior_alg3/pathwise_sampling_from_posterior.py
index 0d234a8..98d57c5 100644
--- a/scripts/sampling_from_posterior_alg3/pathwise_sampling_from_posterior.py
+++ b/scripts/sampling_from_posterior_alg3/pathwise_sampling_from_posterior.py
@@ -108,7 +108,7 @@ def experiment(delta, N, M, fine, no_samples):
 
     @partial(jnp.vectorize, signature='(n)->(m)')
     def sample(key_sample):
-        return mean + jlinalg.cholesky(var) @ jax.random.normal(key_sample, shape=mean.shape)
+        return mean + jlinalg.cholesky(var, lower=True) @ jax.random.normal(key_sample, shape=mean.shape)
 
     KEY_SAMPLES = jax.random.split(JAX_KEY, no_samples)
     sampled_sols = sample(KEY_SAMPLES) # samples from PN posteriors
-- 
2.43.0


From d23e59e479ca996d81bff676c06e28f3ce1ecaa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:22:15 +0000
Subject: [PATCH 20/21] fix: local order experiment drives Euler-Maruyama with
 the increments themselves

---
 scripts/local_order_experiment_from_scratch.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/scripts/local_order_experiment_from_scratch.py b/scripts/local_order_experiment_from_scratch.py
index 11bc76f..035292b 100644
--- a/scripts/local_order_experiment_from_scratch.py
+++ b/scripts/local_order_experiment_from_scratch.py
@@ -75,7 +75,6 @@ def experiment(delta, N):
         fine_incs = fine_incs.reshape((fine_N, 1))
         BM = jnp.cumsum(fine_incs, axis=0)  # computing the corresponding BM
 
-        fine_incs *= jnp.sqrt(1 / fine_delta)  # normalizing them to var. 1, needed for euler_maruyama_pathwise
         _, X_DELTA_EULER = euler_maruyama_pathwise(fine_incs, init=init_x0, drift=drift, sigma=sigma, h=fine_delta,
                                                    N=fine_N)  # solving using EM scheme this path
         X_DELTA_EULER = X_DELTA_EULER[-1]  # taking last value, corresponding to X^{eu}_{delta} with h = fine_delta
-- 
2.43.0


From 43afa37c982108611920c79a62521f73107faa17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:22:15 +0000
Subject: [PATCH 21/21] fix: calibrated prior is the uncalibrated one rescaled
 by the estimate

---
 scripts/sampling_from_posterior_alg3/uncertainty_calibration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/sampling_from_posterior_alg3/uncertainty_calibration.py b/scripts/sampling_from_posterior_alg3/uncertainty_calibration.py
index 0468d61..157ae78 100644
--- a/scripts/sampling_from_posterior_alg3/uncertainty_calibration.py
+++ b/scripts/sampling_from_posterior_alg3/uncertainty_calibration.py
@@ -182,7 +182,7 @@ for n in range(len(Ndeltas)):
     problem_name = "FHN_calibrated"
     prefix = f"{solver_name}_{problem_name}"
     mean, var, s_fine, s_em, s_parabola_ode, fine_incs, \
-        incs, parabola_coeffs, mle_diffusion_coeff = experiment(delta, N, M, fine, sigma_prior=mle_diffusion_coeff**0.5)
+        incs, parabola_coeffs, mle_diffusion_coeff = experiment(delta, N, M, fine, sigma_prior=(10 * mle_diffusion_coeff)**0.5)
     # jnp.save(f'{folder}/{prefix}_sampled_sols_{N}_{M}', sampled_sols)
     jnp.save(f'{folder}/{prefix}_mean_pn_{N}_{M}', mean)
     jnp.save(f'{folder}/{prefix}_var_pn_{N}_{M}', var)
-- 
2.43.0

