From 518762614fd324f09e70778d59621da57da63dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:35 +0000
Subject: [PATCH 01/80] fix: augmented matrix propagator gradient for Qobj
 operators

---
 src/qutip_qtrl/propcomp.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/qutip_qtrl/propcomp.py b/src/qutip_qtrl/propcomp.py
index ee422fd..c4c0096 100644
--- a/src/qutip_qtrl/propcomp.py
+++ b/src/qutip_qtrl/propcomp.py
@@ -18,7 +18,6 @@ See Machnes et.al., arXiv.1011.4874
 import warnings
 import numpy as np
 import scipy.linalg as la
-import scipy.sparse as sp
 
 # QuTiP
 from qutip import Qobj
@@ -336,10 +335,10 @@ class PropCompAugMat(PropagatorComputer):
         dg = dyn._get_phased_dyn_gen(k)
 
         if dyn.oper_dtype == Qobj:
-            A = dg.data * dyn.tau[k]
-            E = dyn._get_phased_ctrl_dyn_gen(k, j).data * dyn.tau[k]
-            Z = sp.csr_matrix(dg.data.shape)
-            aug = Qobj(sp.vstack([sp.hstack([A, E]), sp.hstack([Z, A])]))
+            A = dg.full() * dyn.tau[k]
+            E = dyn._get_phased_ctrl_dyn_gen(k, j).full() * dyn.tau[k]
+            Z = np.zeros(dg.shape)
+            aug = Qobj(np.vstack([np.hstack([A, E]), np.hstack([Z, A])]))
         else:
             A = dg * dyn.tau[k]
             E = dyn._get_phased_ctrl_dyn_gen(k, j) * dyn.tau[k]
-- 
2.43.0


From 64f0bfd0fd3f750424d270ba12cf8ae31199f361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:10 +0000
Subject: [PATCH 02/80] fix: choose the operator data type before creating the
 symplectic phase

---
 src/qutip_qtrl/dynamics.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/qutip_qtrl/dynamics.py b/src/qutip_qtrl/dynamics.py
index f48b916..f14bc5d 100644
--- a/src/qutip_qtrl/dynamics.py
+++ b/src/qutip_qtrl/dynamics.py
@@ -734,10 +734,11 @@ class Dynamics(object):
         self.refresh_drift_attribs()
         self.sys_dims = self.initial.dims
         self.sys_shape = self.initial.shape
+        # The operator data type must be known before the phase is created
+        self._set_memory_optimizations()
         # Set the phase application method
         self._init_phase()
 
-        self._set_memory_optimizations()
         if self.sparse_eigen_decomp and self.sys_shape[0] <= 2:
             raise ValueError(
                 "Single qubit pulse optimization dynamics cannot use sparse"
-- 
2.43.0


From 94255db53d64410469e62499a420117a09fc8b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:00 +0000
Subject: [PATCH 03/80] fix: phase sensitive fidelity of state problems with
 ndarray operators

---
 src/qutip_qtrl/fidcomp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qutip_qtrl/fidcomp.py b/src/qutip_qtrl/fidcomp.py
index 9b776a0..206c80b 100644
--- a/src/qutip_qtrl/fidcomp.py
+++ b/src/qutip_qtrl/fidcomp.py
@@ -378,7 +378,7 @@ class FidCompUnitary(FidelityComputer):
                 norm = _trace(A)
             else:
                 raise TypeError("Cannot compute trace (not square)")
-        except AttributeError:
+        except (AttributeError, IndexError):
             # assume input is already scalar and hence assumed
             # to be the prenormalised scalar value, e.g. fidelity
             norm = A
-- 
2.43.0


From 5ef885b9741514ea9e113bdb3fe00225ed41d12f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:00 +0000
Subject: [PATCH 04/80] fix: multiplication order in the finite difference
 fidelity gradient

---
 src/qutip_qtrl/fidcomp.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/qutip_qtrl/fidcomp.py b/src/qutip_qtrl/fidcomp.py
index 206c80b..b59fcdd 100644
--- a/src/qutip_qtrl/fidcomp.py
+++ b/src/qutip_qtrl/fidcomp.py
@@ -766,9 +766,9 @@ class FidCompTraceDiffApprox(FidCompTraceDiff):
                 fwd_evo = dyn._fwd_evo[k]
                 prop_eps = prop_comp._compute_diff_prop(k, j, self.epsilon)
                 if dyn.oper_dtype == Qobj:
-                    evo_final_eps = fwd_evo * prop_eps
+                    evo_final_eps = prop_eps * fwd_evo
                     if k + 1 < n_ts:
-                        evo_final_eps = evo_final_eps * dyn._onwd_evo[k + 1]
+                        evo_final_eps = dyn._onwd_evo[k + 1] * evo_final_eps
                     evo_f_diff_eps = dyn._target - evo_final_eps
                     # Note that the value should have not imagnary part, so
                     # using np.real, just avoids the complex casting warning
@@ -776,9 +776,9 @@ class FidCompTraceDiffApprox(FidCompTraceDiff):
                         (evo_f_diff_eps.dag() * evo_f_diff_eps).tr()
                     )
                 else:
-                    evo_final_eps = fwd_evo.dot(prop_eps)
+                    evo_final_eps = prop_eps.dot(fwd_evo)
                     if k + 1 < n_ts:
-                        evo_final_eps = evo_final_eps.dot(dyn._onwd_evo[k + 1])
+                        evo_final_eps = dyn._onwd_evo[k + 1].dot(evo_final_eps)
                     evo_f_diff_eps = dyn._target - evo_final_eps
                     fid_err_eps = self.scale_factor * np.real(
                         _trace(evo_f_diff_eps.conj().T.dot(evo_f_diff_eps))
-- 
2.43.0


From 601e5a8b1e5ffec33e7aca57c19b8166688463da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:34 +0000
Subject: [PATCH 05/80] fix: trace difference fidelity of states with Qobj
 operators

---
 src/qutip_qtrl/fidcomp.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/qutip_qtrl/fidcomp.py b/src/qutip_qtrl/fidcomp.py
index b59fcdd..71bb6ca 100644
--- a/src/qutip_qtrl/fidcomp.py
+++ b/src/qutip_qtrl/fidcomp.py
@@ -64,6 +64,9 @@ def _trace(A):
     # input is an operator (Qobj, array, sparse etc), so
     if isinstance(A, Qobj):
         return A.tr()
+    elif np.isscalar(A):
+        # product of a bra and a ket, which Qobj gives as a number
+        return A
     else:
         return np.trace(A)
 
@@ -614,7 +617,7 @@ class FidCompTraceDiff(FidelityComputer):
             # np.real, just avoids the complex casting warning
             if dyn.oper_dtype == Qobj:
                 self.fid_err = self.scale_factor * np.real(
-                    (evo_f_diff.dag() * evo_f_diff).tr()
+                    _trace(evo_f_diff.dag() * evo_f_diff)
                 )
             else:
                 self.fid_err = self.scale_factor * np.real(
@@ -695,7 +698,7 @@ class FidCompTraceDiff(FidelityComputer):
                     g = (
                         -2
                         * self.scale_factor
-                        * np.real((evo_f_diff.dag() * evo_grad).tr())
+                        * np.real(_trace(evo_f_diff.dag() * evo_grad))
                     )
                 else:
                     evo_grad = dyn._get_prop_grad(k, j).dot(fwd_evo)
@@ -773,7 +776,7 @@ class FidCompTraceDiffApprox(FidCompTraceDiff):
                     # Note that the value should have not imagnary part, so
                     # using np.real, just avoids the complex casting warning
                     fid_err_eps = self.scale_factor * np.real(
-                        (evo_f_diff_eps.dag() * evo_f_diff_eps).tr()
+                        _trace(evo_f_diff_eps.dag() * evo_f_diff_eps)
                     )
                 else:
                     evo_final_eps = prop_eps.dot(fwd_evo)
-- 
2.43.0


From bbc71cfeaaea310c55b92ee99d50ec20b77c06ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:36 +0000
Subject: [PATCH 06/80] fix: onwd_evo returns the onward evolution, for states
 too

---
 src/qutip_qtrl/dynamics.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qutip_qtrl/dynamics.py b/src/qutip_qtrl/dynamics.py
index f14bc5d..0f35a4b 100644
--- a/src/qutip_qtrl/dynamics.py
+++ b/src/qutip_qtrl/dynamics.py
@@ -1386,10 +1386,10 @@ class Dynamics(object):
         if self._onwd_evo is not None:
             if self._onwd_evo_qobj is None:
                 if self.oper_dtype == Qobj:
-                    self._onwd_evo_qobj = self._fwd_evo
+                    self._onwd_evo_qobj = self._onwd_evo
                 else:
                     self._onwd_evo_qobj = [
-                        Qobj(dg, dims=self.sys_dims) for dg in self._onwd_evo
+                        Qobj(dg, dims=self.dyn_dims) for dg in self._onwd_evo
                     ]
         return self._onwd_evo_qobj
 
-- 
2.43.0


From 98f056310afc178de00f5af194fc27b25c964e5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:36 +0000
Subject: [PATCH 07/80] fix: dimensions of onto_evo for state problems

---
 src/qutip_qtrl/dynamics.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/qutip_qtrl/dynamics.py b/src/qutip_qtrl/dynamics.py
index 0f35a4b..3983b16 100644
--- a/src/qutip_qtrl/dynamics.py
+++ b/src/qutip_qtrl/dynamics.py
@@ -1410,9 +1410,10 @@ class Dynamics(object):
                     self._onto_evo_qobj = self._onto_evo
                 else:
                     self._onto_evo_qobj = []
+                    rev_dims = [self.sys_dims[1], self.sys_dims[0]]
                     for k in range(0, self.num_tslots):
                         self._onto_evo_qobj.append(
-                            Qobj(self._onto_evo[k], dims=self.sys_dims)
+                            Qobj(self._onto_evo[k], dims=rev_dims)
                         )
                     self._onto_evo_qobj.append(self.onto_evo_target)
 
-- 
2.43.0


From 5cb11eaa7084ce44f41c072aa4848482380ecdbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:04 +0000
Subject: [PATCH 08/80] fix: unitarity checking for dynamics other than unitary

---
 src/qutip_qtrl/dynamics.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/qutip_qtrl/dynamics.py b/src/qutip_qtrl/dynamics.py
index 3983b16..467bde5 100644
--- a/src/qutip_qtrl/dynamics.py
+++ b/src/qutip_qtrl/dynamics.py
@@ -1489,7 +1489,7 @@ class Dynamics(object):
 
         return err
 
-    def unitarity_check(self):
+    def check_unitarity(self):
         """
         Checks whether all propagators are unitary
         """
@@ -1499,6 +1499,12 @@ class Dynamics(object):
                     "Progator of timeslot {} is not unitary".format(k)
                 )
 
+    def unitarity_check(self):
+        """
+        Checks whether all propagators are unitary
+        """
+        self.check_unitarity()
+
 
 class DynamicsGenMat(Dynamics):
     """
-- 
2.43.0


From ce081b50016ec88a7dbe20e351ff4707dd716bee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:05 +0000
Subject: [PATCH 09/80] fix: unitarity checking with propagator computers that
 do not diagonalise

---
 src/qutip_qtrl/dynamics.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/qutip_qtrl/dynamics.py b/src/qutip_qtrl/dynamics.py
index 467bde5..7cbf71b 100644
--- a/src/qutip_qtrl/dynamics.py
+++ b/src/qutip_qtrl/dynamics.py
@@ -1718,9 +1718,18 @@ class DynamicsUnitary(Dynamics):
                 else:
                     diff = np.abs(H.T.conj() - H)
                     herm = np.all(diff < settings.core["atol"])
-                eigval_unit = self._is_unitary(self._prop_eigen[k])
-                eigvec_unit = self._is_unitary(self._dyn_gen_eigenvectors[k])
-                if self._dyn_gen_eigenvectors_adj is not None:
+                # The eigen basis is only known if it was used for the prop
+                eigval_unit = None
+                eigvec_unit = None
+                if self._decomp_curr is not None and self._decomp_curr[k]:
+                    eigval_unit = self._is_unitary(self._prop_eigen[k])
+                    eigvec_unit = self._is_unitary(
+                        self._dyn_gen_eigenvectors[k]
+                    )
+                if (
+                    eigvec_unit is not None
+                    and self._dyn_gen_eigenvectors_adj is not None
+                ):
                     eigvecadj_unit = self._is_unitary(
                         self._dyn_gen_eigenvectors_adj[k]
                     )
-- 
2.43.0


From ffe0e19c360b22ae61026a803f742009c2fa9db7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:25 +0000
Subject: [PATCH 10/80] fix: recalculate the number of controls when
 initialising the controls

---
 src/qutip_qtrl/dynamics.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/qutip_qtrl/dynamics.py b/src/qutip_qtrl/dynamics.py
index 7cbf71b..c8bda4a 100644
--- a/src/qutip_qtrl/dynamics.py
+++ b/src/qutip_qtrl/dynamics.py
@@ -722,8 +722,9 @@ class Dynamics(object):
         # check evolution operators
         if not self._drift_dyn_gen_checked:
             _check_drift_dyn_gen(self.drift_dyn_gen)
-        if not self._ctrl_dyn_gen_checked:
-            self.ctrl_dyn_gen = _check_ctrls_container(self.ctrl_dyn_gen)
+        # The controls may have changed since the last initialisation
+        self._ctrl_dyn_gen_checked = False
+        self._num_ctrls = self._get_num_ctrls()
 
         if not isinstance(self.initial, Qobj):
             raise TypeError("initial must be a Qobj")
@@ -1136,6 +1137,7 @@ class Dynamics(object):
             self.time_depend_ctrl_dyn_gen = True
         else:
             self._num_ctrls = len(self.ctrl_dyn_gen)
+            self.time_depend_ctrl_dyn_gen = False
 
         return self._num_ctrls
 
-- 
2.43.0


From e8fab0f54865cc3693a9ec2d91f017782bd15571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:26 +0000
Subject: [PATCH 11/80] fix: renew the onto evolution target when initialising
 the controls

---
 src/qutip_qtrl/dynamics.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/qutip_qtrl/dynamics.py b/src/qutip_qtrl/dynamics.py
index c8bda4a..85b2981 100644
--- a/src/qutip_qtrl/dynamics.py
+++ b/src/qutip_qtrl/dynamics.py
@@ -748,6 +748,10 @@ class Dynamics(object):
                 " or increase the size of the system."
             )
 
+        # The target may have changed since the last initialisation
+        self._onto_evo_target = None
+        self._onto_evo_target_qobj = None
+
         n_ts = self.num_tslots
         n_ctrls = self.num_ctrls
         if self.oper_dtype == Qobj:
-- 
2.43.0


From 7cff7fc489802b9d76aef043d3a9959e67b33e88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:38 +0000
Subject: [PATCH 12/80] fix: method options built for one run no longer
 override the termination conditions of later runs

---
 src/qutip_qtrl/optimizer.py | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/qutip_qtrl/optimizer.py b/src/qutip_qtrl/optimizer.py
index dae2e93..e846c57 100644
--- a/src/qutip_qtrl/optimizer.py
+++ b/src/qutip_qtrl/optimizer.py
@@ -443,9 +443,9 @@ class Optimizer(object):
         These values will NOT be overridden
         """
         tc = self.termination_conditions
-        if self.method_options is None:
-            self.method_options = {}
-        mo = self.method_options
+        # Build a new dictionary each time, so that the termination conditions
+        # used here do not override those of any later run
+        mo = dict(self.method_options or {})
 
         if "max_metric_corr" in mo and "maxcor" not in mo:
             mo["maxcor"] = mo["max_metric_corr"]
@@ -561,7 +561,7 @@ class Optimizer(object):
         if self.bounds is None:
             self._build_bounds_list()
 
-        self._build_method_options()
+        method_options = self._build_method_options()
 
         result = self._create_result()
 
@@ -585,7 +585,7 @@ class Optimizer(object):
                 method=self.method,
                 jac=jac,
                 bounds=self.bounds,
-                options=self.method_options,
+                options=method_options,
                 callback=self.iter_step_callback_func,
             )
 
@@ -960,7 +960,7 @@ class OptimizerLBFGSB(Optimizer):
         dyn = self.dynamics
         cfg = self.config
         self.optim_var_vals = self._get_optim_var_vals()
-        self._build_method_options()
+        method_options = self._build_method_options()
 
         st_time = timeit.default_timer()
         self.wall_time_optimize_start = st_time
@@ -978,19 +978,19 @@ class OptimizerLBFGSB(Optimizer):
         else:
             fprime = self.fid_err_grad_wrapper
 
-        if "accuracy_factor" in self.method_options:
-            factr = self.method_options["accuracy_factor"]
-        elif "ftol" in self.method_options:
-            factr = self.method_options["ftol"]
+        if "accuracy_factor" in method_options:
+            factr = method_options["accuracy_factor"]
+        elif "ftol" in method_options:
+            factr = method_options["ftol"]
         elif hasattr(term_conds, "accuracy_factor"):
             factr = term_conds.accuracy_factor
         else:
             factr = 1e7
 
-        if "max_metric_corr" in self.method_options:
-            m = self.method_options["max_metric_corr"]
-        elif "maxcor" in self.method_options:
-            m = self.method_options["maxcor"]
+        if "max_metric_corr" in method_options:
+            m = method_options["max_metric_corr"]
+        elif "maxcor" in method_options:
+            m = method_options["maxcor"]
         elif hasattr(self, "max_metric_corr"):
             m = self.max_metric_corr
         else:
-- 
2.43.0


From 6ad4105af184ef8a8cc3a156c53a960ada7778c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:52 +0000
Subject: [PATCH 13/80] fix: obey the bounds attribute in L-BFGS-B, and rebuild
 bounds that were not set for each run

---
 src/qutip_qtrl/optimizer.py | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/qutip_qtrl/optimizer.py b/src/qutip_qtrl/optimizer.py
index e846c57..29ec794 100644
--- a/src/qutip_qtrl/optimizer.py
+++ b/src/qutip_qtrl/optimizer.py
@@ -496,10 +496,13 @@ class Optimizer(object):
                     self.method_options.update(unused_params)
 
     def _build_bounds_list(self):
-        cfg = self.config
+        """
+        Returns the list of bounds for the parameters built based on the
+        amp_lbound and amp_ubound attributes
+        """
         dyn = self.dynamics
         n_ctrls = dyn.num_ctrls
-        self.bounds = []
+        bounds = []
         for t in range(dyn.num_tslots):
             for c in range(n_ctrls):
                 if isinstance(self.amp_lbound, list):
@@ -516,7 +519,8 @@ class Optimizer(object):
                 if ub is not None and np.isinf(ub):
                     ub = None
 
-                self.bounds.append((lb, ub))
+                bounds.append((lb, ub))
+        return bounds
 
     def run_optimization(self, term_conds=None):
         """
@@ -558,8 +562,9 @@ class Optimizer(object):
             self.stats.wall_time_optim_end = 0.0
             self.stats.num_iter = 0
 
-        if self.bounds is None:
-            self._build_bounds_list()
+        bounds = self.bounds
+        if bounds is None:
+            bounds = self._build_bounds_list()
 
         method_options = self._build_method_options()
 
@@ -584,7 +589,7 @@ class Optimizer(object):
                 self.optim_var_vals,
                 method=self.method,
                 jac=jac,
-                bounds=self.bounds,
+                bounds=bounds,
                 options=method_options,
                 callback=self.iter_step_callback_func,
             )
@@ -970,7 +975,9 @@ class OptimizerLBFGSB(Optimizer):
             self.stats.wall_time_optim_end = 0.0
             self.stats.num_iter = 1
 
-        bounds = self._build_bounds_list()
+        bounds = self.bounds
+        if bounds is None:
+            bounds = self._build_bounds_list()
         result = self._create_result()
 
         if self.approx_grad:
@@ -1010,7 +1017,7 @@ class OptimizerLBFGSB(Optimizer):
                 fprime=fprime,
                 approx_grad=self.approx_grad,
                 callback=self.iter_step_callback_func,
-                bounds=self.bounds,
+                bounds=bounds,
                 m=m,
                 factr=factr,
                 pgtol=term_conds.min_gradient_norm,
-- 
2.43.0


From 415bee1f61976b2a15faaae3a46c51261f7ac6eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:52 +0000
Subject: [PATCH 14/80] fix: termination reasons of the BFGS optimizer

---
 src/qutip_qtrl/optimizer.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/qutip_qtrl/optimizer.py b/src/qutip_qtrl/optimizer.py
index 29ec794..c102979 100644
--- a/src/qutip_qtrl/optimizer.py
+++ b/src/qutip_qtrl/optimizer.py
@@ -879,12 +879,18 @@ class OptimizerBFGS(Optimizer):
 
             amps = self._get_ctrl_amps(optim_var_vals)
             dyn.update_ctrl_amps(amps)
-            if warn == 1:
+            if warn == 0:
+                result.grad_norm_min_reached = True
+                result.termination_reason = "Gradient normal minimum reached"
+            elif warn == 1:
                 result.max_iter_exceeded = True
                 result.termination_reason = "Iteration count limit reached"
             elif warn == 2:
-                result.grad_norm_min_reached = True
-                result.termination_reason = "Gradient normal minimum reached"
+                result.termination_reason = (
+                    "Gradient and/or function calls not changing"
+                )
+            else:
+                result.termination_reason = "Unknown (warn={})".format(warn)
 
         except errors.OptimizationTerminate as except_term:
             self._interpret_term_exception(except_term, result)
-- 
2.43.0


From 075d1168abd074d00a9616a11ef04a22fdce814a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:06 +0000
Subject: [PATCH 15/80] fix: only report the gradient minimum as reached by
 L-BFGS-B when it was

---
 src/qutip_qtrl/optimizer.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/qutip_qtrl/optimizer.py b/src/qutip_qtrl/optimizer.py
index c102979..2f23291 100644
--- a/src/qutip_qtrl/optimizer.py
+++ b/src/qutip_qtrl/optimizer.py
@@ -1035,7 +1035,11 @@ class OptimizerLBFGSB(Optimizer):
             dyn.update_ctrl_amps(amps)
             warn = res_dict["warnflag"]
             if warn == 0:
-                result.grad_norm_min_reached = True
+                # The method also converges when the reduction of the
+                # function value is small enough
+                result.grad_norm_min_reached = "GRADIENT" in str(
+                    res_dict["task"]
+                )
                 result.termination_reason = "function converged"
             elif warn == 1:
                 result.max_iter_exceeded = True
-- 
2.43.0


From 600d739037833d25e736dc70afd3564da46cc5be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:06 +0000
Subject: [PATCH 16/80] fix: number of iterations in the statistics is that of
 the result

---
 src/qutip_qtrl/optimizer.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/qutip_qtrl/optimizer.py b/src/qutip_qtrl/optimizer.py
index 2f23291..4a59d31 100644
--- a/src/qutip_qtrl/optimizer.py
+++ b/src/qutip_qtrl/optimizer.py
@@ -753,15 +753,15 @@ class Optimizer(object):
         if self.dump and self.dump.dump_summary:
             self.dump.add_iter_summary()
 
+        # *** update stats ***
+        if self.stats is not None:
+            self.stats.num_iter = self.num_iter
+
         tc = self.termination_conditions
 
         if wall_time > tc.max_wall_time:
             raise errors.MaxWallTimeTerminate()
 
-        # *** update stats ***
-        if self.stats is not None:
-            self.stats.num_iter = self.num_iter
-
     def _interpret_term_exception(self, except_term, result):
         """
         Update the result object based on the exception that occurred
@@ -841,7 +841,7 @@ class OptimizerBFGS(Optimizer):
         if self.stats is not None:
             self.stats.wall_time_optim_start = st_time
             self.stats.wall_time_optim_end = 0.0
-            self.stats.num_iter = 1
+            self.stats.num_iter = 0
 
         if self.approx_grad:
             fprime = None
@@ -979,7 +979,7 @@ class OptimizerLBFGSB(Optimizer):
         if self.stats is not None:
             self.stats.wall_time_optim_start = st_time
             self.stats.wall_time_optim_end = 0.0
-            self.stats.num_iter = 1
+            self.stats.num_iter = 0
 
         bounds = self.bounds
         if bounds is None:
@@ -1246,7 +1246,7 @@ class OptimizerCrabFmin(OptimizerCrab):
         if self.stats is not None:
             self.stats.wall_time_optim_start = st_time
             self.stats.wall_time_optim_end = 0.0
-            self.stats.num_iter = 1
+            self.stats.num_iter = 0
 
         result = self._create_result()
 
-- 
2.43.0


From 67430e6f69a8319d987d6eb4717065412f2baada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:35 +0000
Subject: [PATCH 17/80] fix: set the flag of the limit that stopped a
 scipy.optimize.minimize method

---
 src/qutip_qtrl/optimizer.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/qutip_qtrl/optimizer.py b/src/qutip_qtrl/optimizer.py
index 4a59d31..57a00d8 100644
--- a/src/qutip_qtrl/optimizer.py
+++ b/src/qutip_qtrl/optimizer.py
@@ -597,6 +597,12 @@ class Optimizer(object):
             amps = self._get_ctrl_amps(opt_res.x)
             dyn.update_ctrl_amps(amps)
             result.termination_reason = opt_res.message
+            if not opt_res.success:
+                msg = str(opt_res.message).lower()
+                if "evaluations" in msg:
+                    result.max_fid_func_exceeded = True
+                elif "iteration" in msg:
+                    result.max_iter_exceeded = True
             # Note the iterations are counted in this object as well
             # so there are compared here for interest sake only
             if self.num_iter != opt_res.nit:
-- 
2.43.0


From 7670eb7cb98995db0abc98ddc3e6623ae0d517e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:35 +0000
Subject: [PATCH 18/80] fix: keep a copy of the control amplitudes, so that
 changes of the array passed are recognised

---
 src/qutip_qtrl/tslotcomp.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/qutip_qtrl/tslotcomp.py b/src/qutip_qtrl/tslotcomp.py
index 18c1473..4631ae4 100644
--- a/src/qutip_qtrl/tslotcomp.py
+++ b/src/qutip_qtrl/tslotcomp.py
@@ -216,7 +216,8 @@ class TSlotCompUpdateAll(TimeslotComputer):
             dyn.stats.num_timeslot_changes += ecs.num_timeslots_changed
 
         if changed:
-            dyn.ctrl_amps = new_amps
+            # A copy, as changes made to new_amps later must be recognised
+            dyn.ctrl_amps = new_amps.copy()
             dyn.flag_system_changed()
             return False
         else:
-- 
2.43.0


From 72fce7a1a3fe71a5d01fb5fbba4320fbdd0862c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:42 +0000
Subject: [PATCH 19/80] fix: final amplitudes of a result are a copy

---
 src/qutip_qtrl/optimizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qutip_qtrl/optimizer.py b/src/qutip_qtrl/optimizer.py
index 57a00d8..e52cf66 100644
--- a/src/qutip_qtrl/optimizer.py
+++ b/src/qutip_qtrl/optimizer.py
@@ -794,7 +794,7 @@ class Optimizer(object):
         result.wall_time = end_time - st_time
         result.fid_err = dyn.fid_computer.get_fid_err()
         result.grad_norm_final = dyn.fid_computer.grad_norm
-        result.final_amps = dyn.ctrl_amps
+        result.final_amps = dyn.ctrl_amps.copy()
         final_evo = dyn.full_evo
         if isinstance(final_evo, Qobj):
             result.evo_full_final = final_evo
-- 
2.43.0


From d59bd89232433a45327101374f14cb93924ca98e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:42 +0000
Subject: [PATCH 20/80] fix: keep a copy of the timeslot durations

---
 src/qutip_qtrl/dynamics.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/qutip_qtrl/dynamics.py b/src/qutip_qtrl/dynamics.py
index 85b2981..86ca0b5 100644
--- a/src/qutip_qtrl/dynamics.py
+++ b/src/qutip_qtrl/dynamics.py
@@ -575,7 +575,8 @@ class Dynamics(object):
 
     @tau.setter
     def tau(self, value):
-        self._tau = value
+        # A copy, as the array passed may be changed later
+        self._tau = None if value is None else np.array(value)
         self.init_timeslots()
 
     def init_timeslots(self):
-- 
2.43.0


From 5a60005afcf6d5cf8f44cf578926548e3e26e321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:17 +0000
Subject: [PATCH 21/80] fix: set the fidelity of the result

---
 src/qutip_qtrl/optimizer.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/qutip_qtrl/optimizer.py b/src/qutip_qtrl/optimizer.py
index e52cf66..9060831 100644
--- a/src/qutip_qtrl/optimizer.py
+++ b/src/qutip_qtrl/optimizer.py
@@ -793,6 +793,10 @@ class Optimizer(object):
         result.num_fid_func_calls = self.num_fid_func_calls
         result.wall_time = end_time - st_time
         result.fid_err = dyn.fid_computer.get_fid_err()
+        if hasattr(dyn.fid_computer, "get_fidelity"):
+            result.fidelity = dyn.fid_computer.get_fidelity()
+        else:
+            result.fidelity = 1 - result.fid_err
         result.grad_norm_final = dyn.fid_computer.grad_norm
         result.final_amps = dyn.ctrl_amps.copy()
         final_evo = dyn.full_evo
-- 
2.43.0


From b01e6915f2bc33b647ad3a9738521569e356fd96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:17 +0000
Subject: [PATCH 22/80] fix: amplitude bounds of zero for CRAB pulses

---
 src/qutip_qtrl/pulseoptim.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qutip_qtrl/pulseoptim.py b/src/qutip_qtrl/pulseoptim.py
index b7d3555..0fd37e0 100644
--- a/src/qutip_qtrl/pulseoptim.py
+++ b/src/qutip_qtrl/pulseoptim.py
@@ -2054,7 +2054,7 @@ def create_pulse_optimizer(
                 crab_pgen.apply_params(crab_pulse_params)
 
             lb = None
-            if amp_lbound:
+            if amp_lbound is not None:
                 if isinstance(amp_lbound, list):
                     try:
                         lb = amp_lbound[j]
@@ -2063,7 +2063,7 @@ def create_pulse_optimizer(
                 else:
                     lb = amp_lbound
             ub = None
-            if amp_ubound:
+            if amp_ubound is not None:
                 if isinstance(amp_ubound, list):
                     try:
                         ub = amp_ubound[j]
-- 
2.43.0


From c7912733abf19d8d98df3cb88282aa72847f546c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:17 +0000
Subject: [PATCH 23/80] fix: infinite bounds of flat and random pulses

---
 src/qutip_qtrl/pulsegen.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/qutip_qtrl/pulsegen.py b/src/qutip_qtrl/pulsegen.py
index d52d738..9fc6e9c 100644
--- a/src/qutip_qtrl/pulsegen.py
+++ b/src/qutip_qtrl/pulsegen.py
@@ -306,6 +306,9 @@ class PulseGenZero(PulseGen):
         The value will be zero, unless the offset is not zero,
         in which case it will be the offset
         """
+        if not self._pulse_initialised:
+            self.init_pulse()
+
         pulse = np.zeros(self.num_tslots)
         return self._apply_bounds_and_offset(pulse)
 
@@ -327,6 +330,9 @@ class PulseGenRandom(PulseGen):
         and shifted using the offset property
         Returns the pulse as an array of vales for each timeslot
         """
+        if not self._pulse_initialised:
+            self.init_pulse()
+
         pulse = (2 * np.random.random(self.num_tslots) - 1) * self.scaling
 
         return self._apply_bounds_and_offset(pulse)
-- 
2.43.0


From d9baa6c9ba2e6b77c3f246a589fb124891ac628b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:17 +0000
Subject: [PATCH 24/80] fix: number of waves of periodic pulses given by
 wavelength or frequency

---
 src/qutip_qtrl/pulsegen.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qutip_qtrl/pulsegen.py b/src/qutip_qtrl/pulsegen.py
index 9fc6e9c..d9ea9e4 100644
--- a/src/qutip_qtrl/pulsegen.py
+++ b/src/qutip_qtrl/pulsegen.py
@@ -741,10 +741,10 @@ class PulseGenPeriodic(PulseGen):
             self.wavelen = 1.0 / self.freq
         elif self.wavelen is not None:
             self.freq = 1.0 / self.wavelen
-            self.num_waves = self.wavelen * self.pulse_time
+            self.num_waves = self.freq * self.pulse_time
         else:
             self.wavelen = 1.0 / self.freq
-            self.num_waves = self.wavelen * self.pulse_time
+            self.num_waves = self.freq * self.pulse_time
 
 
 class PulseGenSine(PulseGenPeriodic):
-- 
2.43.0


From 491b16b56b466fdb9cf4af3f938691f6521e0608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:17 +0000
Subject: [PATCH 25/80] fix: initial pulses with bounds for each control

---
 src/qutip_qtrl/pulseoptim.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/qutip_qtrl/pulseoptim.py b/src/qutip_qtrl/pulseoptim.py
index 0fd37e0..c4ff144 100644
--- a/src/qutip_qtrl/pulseoptim.py
+++ b/src/qutip_qtrl/pulseoptim.py
@@ -93,6 +93,19 @@ def _upper_safe(s):
     return s
 
 
+def _ctrl_bound(bound, j):
+    """
+    The amplitude bound of control j, where bounds may be given as
+    a list of bounds for each control, or one bound for all controls
+    """
+    if isinstance(bound, list):
+        try:
+            return bound[j]
+        except IndexError:
+            return bound[-1]
+    return bound
+
+
 def optimize_pulse(
     drift,
     ctrls,
@@ -477,6 +490,10 @@ def optimize_pulse(
     else:
         pgen = optim.pulse_generator
         for j in range(dyn.num_ctrls):
+            if isinstance(amp_lbound, list) or isinstance(amp_ubound, list):
+                pgen.lbound = _ctrl_bound(amp_lbound, j)
+                pgen.ubound = _ctrl_bound(amp_ubound, j)
+                pgen.init_pulse()
             init_amps[:, j] = pgen.gen_pulse()
 
     # Initialise the starting amplitudes
-- 
2.43.0


From ebbcce5f9e41b138617e9b74662052dada2537dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:30 +0000
Subject: [PATCH 26/80] fix: pass on the timeslot computer parameters

---
 src/qutip_qtrl/pulseoptim.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/qutip_qtrl/pulseoptim.py b/src/qutip_qtrl/pulseoptim.py
index c4ff144..a44c6d8 100644
--- a/src/qutip_qtrl/pulseoptim.py
+++ b/src/qutip_qtrl/pulseoptim.py
@@ -466,6 +466,8 @@ def optimize_pulse(
         prop_params=prop_params,
         fid_type=fid_type,
         fid_params=fid_params,
+        tslot_type=tslot_type,
+        tslot_params=tslot_params,
         init_pulse_type=init_pulse_type,
         init_pulse_params=init_pulse_params,
         pulse_scaling=pulse_scaling,
@@ -858,6 +860,8 @@ def optimize_pulse_unitary(
         dyn_params=dyn_params,
         prop_params=prop_params,
         fid_params=fid_params,
+        tslot_type=tslot_type,
+        tslot_params=tslot_params,
         init_pulse_type=init_pulse_type,
         init_pulse_params=init_pulse_params,
         pulse_scaling=pulse_scaling,
-- 
2.43.0


From 54b0fbdf17333a094a7606ca23e8ac20161db44a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:30 +0000
Subject: [PATCH 27/80] fix: algorithm names in lower case

---
 src/qutip_qtrl/pulseoptim.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qutip_qtrl/pulseoptim.py b/src/qutip_qtrl/pulseoptim.py
index a44c6d8..08111f3 100644
--- a/src/qutip_qtrl/pulseoptim.py
+++ b/src/qutip_qtrl/pulseoptim.py
@@ -484,7 +484,7 @@ def optimize_pulse(
     # Generate initial pulses for each control
     init_amps = np.zeros([dyn.num_tslots, dyn.num_ctrls])
 
-    if alg == "CRAB":
+    if _upper_safe(alg) == "CRAB":
         for j in range(dyn.num_ctrls):
             pgen = optim.pulse_generator[j]
             pgen.init_pulse()
@@ -1976,7 +1976,7 @@ def create_pulse_optimizer(
         else:
             optim = optimizer.Optimizer(cfg, dyn)
 
-    optim.alg = alg
+    optim.alg = alg_up
     optim.method = optim_method
     optim.amp_lbound = amp_lbound
     optim.amp_ubound = amp_ubound
-- 
2.43.0


From ae0b77a6adb7d1384c169b0a7a94455aabde576c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:30 +0000
Subject: [PATCH 28/80] fix: deprecated fid_err_scale_factor does not override
 scale_factor

---
 src/qutip_qtrl/pulseoptim.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qutip_qtrl/pulseoptim.py b/src/qutip_qtrl/pulseoptim.py
index 08111f3..2a028b7 100644
--- a/src/qutip_qtrl/pulseoptim.py
+++ b/src/qutip_qtrl/pulseoptim.py
@@ -420,7 +420,7 @@ def optimize_pulse(
     # fid_err_scale_factor
     if fid_err_scale_factor is not None:
         if isinstance(fid_params, dict):
-            if "fid_err_scale_factor" not in fid_params:
+            if "scale_factor" not in fid_params:
                 fid_params["scale_factor"] = fid_err_scale_factor
         else:
             fid_params = {"scale_factor": fid_err_scale_factor}
@@ -1829,7 +1829,7 @@ def create_pulse_optimizer(
     # fid_err_scale_factor
     if fid_err_scale_factor is not None:
         if isinstance(fid_params, dict):
-            if "fid_err_scale_factor" not in fid_params:
+            if "scale_factor" not in fid_params:
                 fid_params["scale_factor"] = fid_err_scale_factor
         else:
             fid_params = {"scale_factor": fid_err_scale_factor}
-- 
2.43.0


From be030fc349783680e9f238e647c1446f63d97d5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:42 +0000
Subject: [PATCH 29/80] fix: parameter dictionaries of the caller are not
 changed

---
 src/qutip_qtrl/pulseoptim.py | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/qutip_qtrl/pulseoptim.py b/src/qutip_qtrl/pulseoptim.py
index 2a028b7..12ab42b 100644
--- a/src/qutip_qtrl/pulseoptim.py
+++ b/src/qutip_qtrl/pulseoptim.py
@@ -385,6 +385,7 @@ def optimize_pulse(
 
     if max_metric_corr is not None:
         if isinstance(method_params, dict):
+            method_params = dict(method_params)
             if "max_metric_corr" not in method_params:
                 method_params["max_metric_corr"] = max_metric_corr
         else:
@@ -396,6 +397,7 @@ def optimize_pulse(
 
     if accuracy_factor is not None:
         if isinstance(method_params, dict):
+            method_params = dict(method_params)
             if "accuracy_factor" not in method_params:
                 method_params["accuracy_factor"] = accuracy_factor
         else:
@@ -408,6 +410,7 @@ def optimize_pulse(
     # phase_option
     if phase_option is not None:
         if isinstance(fid_params, dict):
+            fid_params = dict(fid_params)
             if "phase_option" not in fid_params:
                 fid_params["phase_option"] = phase_option
         else:
@@ -420,6 +423,7 @@ def optimize_pulse(
     # fid_err_scale_factor
     if fid_err_scale_factor is not None:
         if isinstance(fid_params, dict):
+            fid_params = dict(fid_params)
             if "scale_factor" not in fid_params:
                 fid_params["scale_factor"] = fid_err_scale_factor
         else:
@@ -796,6 +800,7 @@ def optimize_pulse_unitary(
 
     if max_metric_corr is not None:
         if isinstance(method_params, dict):
+            method_params = dict(method_params)
             if "max_metric_corr" not in method_params:
                 method_params["max_metric_corr"] = max_metric_corr
         else:
@@ -807,6 +812,7 @@ def optimize_pulse_unitary(
 
     if accuracy_factor is not None:
         if isinstance(method_params, dict):
+            method_params = dict(method_params)
             if "accuracy_factor" not in method_params:
                 method_params["accuracy_factor"] = accuracy_factor
         else:
@@ -835,7 +841,7 @@ def optimize_pulse_unitary(
             fid_params = {"phase_option": phase_option}
         else:
             if "phase_option" not in fid_params:
-                fid_params["phase_option"] = phase_option
+                fid_params = dict(fid_params, phase_option=phase_option)
 
     return optimize_pulse(
         drift=H_d,
@@ -1129,6 +1135,7 @@ def opt_pulse_crab(
             "init_coeff_scaling": init_coeff_scaling,
         }
     else:
+        alg_params = dict(alg_params)
         if num_coeffs is not None and "num_coeffs" not in alg_params:
             alg_params["num_coeffs"] = num_coeffs
         if (
@@ -1143,6 +1150,8 @@ def opt_pulse_crab(
     if guess_pulse_type:
         if not isinstance(guess_pulse_params, dict):
             guess_pulse_params = {}
+        else:
+            guess_pulse_params = dict(guess_pulse_params)
         if (
             guess_pulse_scaling is not None
             and "scaling" not in guess_pulse_params
@@ -1442,6 +1451,7 @@ def opt_pulse_crab_unitary(
             "init_coeff_scaling": init_coeff_scaling,
         }
     else:
+        alg_params = dict(alg_params)
         if num_coeffs is not None and "num_coeffs" not in alg_params:
             alg_params["num_coeffs"] = num_coeffs
         if (
@@ -1456,6 +1466,8 @@ def opt_pulse_crab_unitary(
     if guess_pulse_type:
         if not isinstance(guess_pulse_params, dict):
             guess_pulse_params = {}
+        else:
+            guess_pulse_params = dict(guess_pulse_params)
         if (
             guess_pulse_scaling is not None
             and "scaling" not in guess_pulse_params
@@ -1794,6 +1806,7 @@ def create_pulse_optimizer(
 
     if max_metric_corr is not None:
         if isinstance(method_params, dict):
+            method_params = dict(method_params)
             if "max_metric_corr" not in method_params:
                 method_params["max_metric_corr"] = max_metric_corr
         else:
@@ -1805,6 +1818,7 @@ def create_pulse_optimizer(
 
     if accuracy_factor is not None:
         if isinstance(method_params, dict):
+            method_params = dict(method_params)
             if "accuracy_factor" not in method_params:
                 method_params["accuracy_factor"] = accuracy_factor
         else:
@@ -1817,6 +1831,7 @@ def create_pulse_optimizer(
     # phase_option
     if phase_option is not None:
         if isinstance(fid_params, dict):
+            fid_params = dict(fid_params)
             if "phase_option" not in fid_params:
                 fid_params["phase_option"] = phase_option
         else:
@@ -1829,6 +1844,7 @@ def create_pulse_optimizer(
     # fid_err_scale_factor
     if fid_err_scale_factor is not None:
         if isinstance(fid_params, dict):
+            fid_params = dict(fid_params)
             if "scale_factor" not in fid_params:
                 fid_params["scale_factor"] = fid_err_scale_factor
         else:
-- 
2.43.0


From 2bc3852b32ef18da4dc44008f2590ce143e46394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:38 +0000
Subject: [PATCH 30/80] fix: infinite bounds of the guess pulses of later
 controls

---
 src/qutip_qtrl/pulseoptim.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/qutip_qtrl/pulseoptim.py b/src/qutip_qtrl/pulseoptim.py
index 12ab42b..6e06703 100644
--- a/src/qutip_qtrl/pulseoptim.py
+++ b/src/qutip_qtrl/pulseoptim.py
@@ -2114,6 +2114,7 @@ def create_pulse_optimizer(
             if guess_pulse_type:
                 guess_pgen.lbound = lb
                 guess_pgen.ubound = ub
+                guess_pgen.init_pulse()
                 crab_pgen.guess_pulse = guess_pgen.gen_pulse()
                 if guess_pulse_action:
                     crab_pgen.guess_pulse_action = guess_pulse_action
-- 
2.43.0


From ce87c17aeef7d745e91cbea4aaf814962af0f4fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:34 +0000
Subject: [PATCH 31/80] fix: linear pulse of one timeslot

---
 src/qutip_qtrl/pulsegen.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/qutip_qtrl/pulsegen.py b/src/qutip_qtrl/pulsegen.py
index d9ea9e4..ea2fe88 100644
--- a/src/qutip_qtrl/pulsegen.py
+++ b/src/qutip_qtrl/pulsegen.py
@@ -649,9 +649,13 @@ class PulseGenLinear(PulseGen):
             self.end_val = end_val
 
         if self.start_val is not None and self.end_val is not None:
-            self.gradient = float(self.end_val - self.start_val) / (
-                self.pulse_time - self.tau[-1]
-            )
+            if self.num_tslots > 1:
+                self.gradient = float(self.end_val - self.start_val) / (
+                    self.pulse_time - self.tau[-1]
+                )
+            else:
+                # only the start value is used
+                self.gradient = 0.0
 
     def gen_pulse(self, gradient=None, start_val=None, end_val=None):
         """
-- 
2.43.0


From 562a9ff06acce9cf85f26d63fd8def0445d10782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:34 +0000
Subject: [PATCH 32/80] fix: gradient, start and end value given for a linear
 pulse

---
 src/qutip_qtrl/pulsegen.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/qutip_qtrl/pulsegen.py b/src/qutip_qtrl/pulsegen.py
index ea2fe88..dae43ad 100644
--- a/src/qutip_qtrl/pulsegen.py
+++ b/src/qutip_qtrl/pulsegen.py
@@ -644,9 +644,14 @@ class PulseGenLinear(PulseGen):
         end point values
         """
         PulseGen.init_pulse(self)
-        if start_val is not None and end_val is not None:
+        if start_val is not None:
             self.start_val = start_val
+        if end_val is not None:
             self.end_val = end_val
+        elif gradient is not None:
+            # the end value follows from the gradient
+            self.gradient = gradient
+            self.end_val = None
 
         if self.start_val is not None and self.end_val is not None:
             if self.num_tslots > 1:
-- 
2.43.0


From 5113f9fc94bd708792f511838d3072e13909faac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:21 +0000
Subject: [PATCH 33/80] fix: generating a random walk pulse prints nothing

---
 src/qutip_qtrl/pulsegen.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/qutip_qtrl/pulsegen.py b/src/qutip_qtrl/pulsegen.py
index dae43ad..9f3d064 100644
--- a/src/qutip_qtrl/pulsegen.py
+++ b/src/qutip_qtrl/pulsegen.py
@@ -596,9 +596,7 @@ class PulseGenRndWalk2(PulseGen):
 
         walk = np.zeros(self.tau.shape)
         amp = self.scaling * (np.random.rand() * 2 - 1)
-        print("Start amp {}".format(amp))
         grad = 0.0
-        print("Start grad {}".format(grad))
         for k in range(len(walk)):
             walk[k] = amp
             grad += (np.random.rand() * 2 - 1) * max_d2_amp
-- 
2.43.0


From 2234a0e37b7e3c2029dd681f604dcb21fb6121eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:21 +0000
Subject: [PATCH 34/80] fix: scaling of the second order random walk

---
 src/qutip_qtrl/pulsegen.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qutip_qtrl/pulsegen.py b/src/qutip_qtrl/pulsegen.py
index 9f3d064..aa70d31 100644
--- a/src/qutip_qtrl/pulsegen.py
+++ b/src/qutip_qtrl/pulsegen.py
@@ -589,7 +589,7 @@ class PulseGenRndWalk2(PulseGen):
         if max_d2_amp is not None:
             self.max_d2_amp = max_d2_amp
 
-        max_d2_amp = self.max_d2_amp
+        max_d2_amp = self.max_d2_amp * self.scaling
 
         if not self._pulse_initialised:
             self.init_pulse()
-- 
2.43.0


From c26850f90f58dcdce57034811d4638840b27177d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:21 +0000
Subject: [PATCH 35/80] fix: Gaussian pulse with mean zero

---
 src/qutip_qtrl/pulsegen.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qutip_qtrl/pulsegen.py b/src/qutip_qtrl/pulsegen.py
index aa70d31..49c84da 100644
--- a/src/qutip_qtrl/pulsegen.py
+++ b/src/qutip_qtrl/pulsegen.py
@@ -912,7 +912,7 @@ class PulseGenGaussian(PulseGen):
         if not self._pulse_initialised:
             self.init_pulse()
 
-        if mean:
+        if mean is not None:
             Tm = mean
         else:
             Tm = self.mean
-- 
2.43.0


From 326c571e12adc56a8814d2f1f8cd084f8e1490b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:40 +0000
Subject: [PATCH 36/80] fix: pulse generators used independently with timeslot
 durations

---
 src/qutip_qtrl/pulsegen.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/qutip_qtrl/pulsegen.py b/src/qutip_qtrl/pulsegen.py
index 49c84da..7570d6a 100644
--- a/src/qutip_qtrl/pulsegen.py
+++ b/src/qutip_qtrl/pulsegen.py
@@ -183,6 +183,18 @@ class PulseGen:
         self.ramping_pulse = None
 
         self.apply_params()
+        self._derive_time_from_tau()
+
+    def _derive_time_from_tau(self):
+        """
+        If used independently with the durations of the timeslots given,
+        then number of timeslots and total duration follow from these
+        """
+        if self.tau is not None and not isinstance(
+            self.parent, dynamics.Dynamics
+        ):
+            self.num_tslots = len(self.tau)
+            self.pulse_time = float(np.sum(self.tau))
 
     def apply_params(self, params=None):
         """
@@ -232,6 +244,8 @@ class PulseGen:
                 * self.pulse_time
                 / self.num_tslots
             )
+        else:
+            self._derive_time_from_tau()
 
         if self._uses_time:
             self.time = np.zeros(self.num_tslots, dtype=float)
-- 
2.43.0


From c28c5c11fb214ac9fc373f0fb96c1c618ed44272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:40 +0000
Subject: [PATCH 37/80] fix: generate CRAB pulse with given array of
 coefficients

---
 src/qutip_qtrl/pulsegen.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qutip_qtrl/pulsegen.py b/src/qutip_qtrl/pulsegen.py
index 7570d6a..7f79263 100644
--- a/src/qutip_qtrl/pulsegen.py
+++ b/src/qutip_qtrl/pulsegen.py
@@ -1325,7 +1325,7 @@ class PulseGenCrabFourier(PulseGenCrab):
             If given this overides the default and sets the attribute
             of the same name.
         """
-        if coeffs:
+        if coeffs is not None:
             self.coeffs = coeffs
 
         if not self._pulse_initialised:
-- 
2.43.0


From b06eaeb10ffbf4ac4d5343622b0eb44ae9b55536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:40 +0000
Subject: [PATCH 38/80] fix: warnings about guess pulse actions

---
 src/qutip_qtrl/pulsegen.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qutip_qtrl/pulsegen.py b/src/qutip_qtrl/pulsegen.py
index 7f79263..73bb923 100644
--- a/src/qutip_qtrl/pulsegen.py
+++ b/src/qutip_qtrl/pulsegen.py
@@ -1166,13 +1166,13 @@ class PulseGenCrab(PulseGen):
     def init_guess_pulse(self):
         self.guess_pulse_func = None
         if not self.guess_pulse_action:
-            logger.WARN("No guess pulse action given, hence ignored.")
+            logger.warning("No guess pulse action given, hence ignored.")
         elif self.guess_pulse_action.upper() == "MODULATE":
             self.guess_pulse_func = self.guess_pulse_modulate
         elif self.guess_pulse_action.upper() == "ADD":
             self.guess_pulse_func = self.guess_pulse_add
         else:
-            logger.WARN(
+            logger.warning(
                 "No option for guess pulse action '{}' "
                 ", hence ignored.".format(self.guess_pulse_action)
             )
-- 
2.43.0


From d92a87a0cbd0e987dc862bc014957b1d397f0e4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:40 +0000
Subject: [PATCH 39/80] fix: keep a copy of the CRAB coefficients, which may be
 given as list

---
 src/qutip_qtrl/pulsegen.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qutip_qtrl/pulsegen.py b/src/qutip_qtrl/pulsegen.py
index 73bb923..84b6a44 100644
--- a/src/qutip_qtrl/pulsegen.py
+++ b/src/qutip_qtrl/pulsegen.py
@@ -1159,7 +1159,7 @@ class PulseGenCrab(PulseGen):
         self.set_coeffs(param_vals)
 
     def set_coeffs(self, param_vals):
-        self.coeffs = param_vals.reshape(
+        self.coeffs = np.array(param_vals, dtype=float).reshape(
             [self.num_coeffs, self.num_basis_funcs]
         )
 
-- 
2.43.0


From 6aa3425cb54a0c7719ae290f073fb9ba67a094e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:40 +0000
Subject: [PATCH 40/80] fix: parameters and resetting of CRAB Fourier pulse
 generators

---
 src/qutip_qtrl/pulsegen.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/qutip_qtrl/pulsegen.py b/src/qutip_qtrl/pulsegen.py
index 84b6a44..2cbdc2d 100644
--- a/src/qutip_qtrl/pulsegen.py
+++ b/src/qutip_qtrl/pulsegen.py
@@ -1275,11 +1275,8 @@ class PulseGenCrabFourier(PulseGenCrab):
     """
 
     def __init__(self, dyn=None, num_coeffs=None, params=None, fix_freqs=True):
-        PulseGenCrab.__init__(self, dyn, num_coeffs, params)
         self.fix_freqs = fix_freqs
-        if not self.fix_freqs:
-            # additional parameter for the frequency
-            self.num_basis_funcs += 1
+        PulseGenCrab.__init__(self, dyn, num_coeffs, params)
 
     def reset(self):
         """
@@ -1288,6 +1285,10 @@ class PulseGenCrabFourier(PulseGenCrab):
         PulseGenCrab.reset(self)
         self.freqs = None
         self.randomize_freqs = True
+        self.apply_params()
+        if not self.fix_freqs:
+            # additional parameter for the frequency
+            self.num_basis_funcs += 1
 
     def init_pulse(self, num_coeffs=None, init_coeffs=None):
         """
-- 
2.43.0


From 6bca64b6e9a7acdcd469a80106f41058c5901cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:36 +0000
Subject: [PATCH 41/80] fix: averages of statistics when nothing was counted

---
 src/qutip_qtrl/stats.py | 49 ++++++++++++++++++++---------------------
 1 file changed, 24 insertions(+), 25 deletions(-)

diff --git a/src/qutip_qtrl/stats.py b/src/qutip_qtrl/stats.py
index c628539..ce47881 100644
--- a/src/qutip_qtrl/stats.py
+++ b/src/qutip_qtrl/stats.py
@@ -342,38 +342,37 @@ class StatsDynTsUpdate(Stats):
 
     def calculate(self):
         Stats.calculate(self)
-        self.mean_num_dyn_gen_computes_per_update = (
-            self.num_dyn_gen_computes / float(self.num_ctrl_amp_updates)
-        )
 
-        self.mean_wall_time_dyn_gen_compute = (
-            self.wall_time_dyn_gen_compute / float(self.num_dyn_gen_computes)
-        )
+        def mean(total, num):
+            try:
+                return total / float(num)
+            except ZeroDivisionError:
+                return np.nan
 
-        self.mean_num_prop_computes_per_update = (
-            self.num_prop_computes / float(self.num_ctrl_amp_updates)
+        self.mean_num_dyn_gen_computes_per_update = mean(
+            self.num_dyn_gen_computes, self.num_ctrl_amp_updates
         )
-
-        self.mean_wall_time_prop_compute = self.wall_time_prop_compute / float(
-            self.num_prop_computes
+        self.mean_wall_time_dyn_gen_compute = mean(
+            self.wall_time_dyn_gen_compute, self.num_dyn_gen_computes
         )
-
-        self.mean_num_fwd_prop_step_computes_per_update = (
-            self.num_fwd_prop_step_computes / float(self.num_ctrl_amp_updates)
+        self.mean_num_prop_computes_per_update = mean(
+            self.num_prop_computes, self.num_ctrl_amp_updates
         )
-
-        self.mean_wall_time_fwd_prop_compute = (
-            self.wall_time_fwd_prop_compute
-            / float(self.num_fwd_prop_step_computes)
+        self.mean_wall_time_prop_compute = mean(
+            self.wall_time_prop_compute, self.num_prop_computes
         )
-
-        self.mean_num_onwd_prop_step_computes_per_update = (
-            self.num_onwd_prop_step_computes / float(self.num_ctrl_amp_updates)
+        self.mean_num_fwd_prop_step_computes_per_update = mean(
+            self.num_fwd_prop_step_computes, self.num_ctrl_amp_updates
         )
-
-        self.mean_wall_time_onwd_prop_compute = (
-            self.wall_time_onwd_prop_compute
-            / float(self.num_onwd_prop_step_computes)
+        self.mean_wall_time_fwd_prop_compute = mean(
+            self.wall_time_fwd_prop_compute, self.num_fwd_prop_step_computes
+        )
+        self.mean_num_onwd_prop_step_computes_per_update = mean(
+            self.num_onwd_prop_step_computes, self.num_ctrl_amp_updates
+        )
+        self.mean_wall_time_onwd_prop_compute = mean(
+            self.wall_time_onwd_prop_compute,
+            self.num_onwd_prop_step_computes,
         )
 
     def report(self):
-- 
2.43.0


From 35529153b9c7630ed543d5be1a3e352b7095869a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:36 +0000
Subject: [PATCH 42/80] fix: clear the statistics of the timeslot computations

---
 src/qutip_qtrl/stats.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qutip_qtrl/stats.py b/src/qutip_qtrl/stats.py
index ce47881..5327b46 100644
--- a/src/qutip_qtrl/stats.py
+++ b/src/qutip_qtrl/stats.py
@@ -321,8 +321,8 @@ class StatsDynTsUpdate(Stats):
     def __init__(self):
         self.reset()
 
-    def reset(self):
-        Stats.reset(self)
+    def clear(self):
+        Stats.clear(self)
         # Dynamics generators (Hamiltonians)
         self.num_dyn_gen_computes = 0
         self.mean_num_dyn_gen_computes_per_update = 0.0
-- 
2.43.0


From f6bad41396f4c2be05742d2da26c1882a1cbf8b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:13 +0000
Subject: [PATCH 43/80] fix: logging of the propagators

---
 src/qutip_qtrl/tslotcomp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qutip_qtrl/tslotcomp.py b/src/qutip_qtrl/tslotcomp.py
index 4631ae4..6fdd854 100644
--- a/src/qutip_qtrl/tslotcomp.py
+++ b/src/qutip_qtrl/tslotcomp.py
@@ -282,8 +282,8 @@ class TSlotCompUpdateAll(TimeslotComputer):
                         if self.log_level <= logging.DEBUG_INTENSE:
                             logger.log(
                                 logging.DEBUG_INTENSE,
-                                "propagator {}:\n{:10.3g}".format(
-                                    k, self._prop[k]
+                                "propagator {}:\n{}".format(
+                                    k, dyn._prop[k]
                                 ),
                             )
                     else:
-- 
2.43.0


From 7102c26fbbe5634d8244162f10d88378ceec5a36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:13 +0000
Subject: [PATCH 44/80] fix: logging of time dependent controls

---
 src/qutip_qtrl/pulseoptim.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/qutip_qtrl/pulseoptim.py b/src/qutip_qtrl/pulseoptim.py
index 6e06703..223fbbf 100644
--- a/src/qutip_qtrl/pulseoptim.py
+++ b/src/qutip_qtrl/pulseoptim.py
@@ -518,7 +518,10 @@ def optimize_pulse(
             msg += str(dyn.drift_dyn_gen)
         for j in range(dyn.num_ctrls):
             msg += "\nControl {} {}:\n".format(j + 1, dg_name)
-            msg += str(dyn.ctrl_dyn_gen[j])
+            if dyn.time_depend_ctrl_dyn_gen:
+                msg += str(dyn.ctrl_dyn_gen[0, j])
+            else:
+                msg += str(dyn.ctrl_dyn_gen[j])
         msg += "\nInitial state / operator:\n"
         msg += str(dyn.initial)
         msg += "\nTarget state / operator:\n"
-- 
2.43.0


From 635fa1b3f953125353b3ac2ba812e749ecfc800b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:13 +0000
Subject: [PATCH 45/80] fix: deprecated get_timeslot_for_fidelity_calc returns
 the timeslot

---
 src/qutip_qtrl/tslotcomp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qutip_qtrl/tslotcomp.py b/src/qutip_qtrl/tslotcomp.py
index 6fdd854..4bc11bd 100644
--- a/src/qutip_qtrl/tslotcomp.py
+++ b/src/qutip_qtrl/tslotcomp.py
@@ -362,7 +362,7 @@ class TSlotCompUpdateAll(TimeslotComputer):
             "'get_timeslot_for_fidelity_calc' is deprecated. "
             "Use '_get_timeslot_for_fidelity_calc'"
         )
-        return self._get_timeslot_for_fidelity_calc
+        return self._get_timeslot_for_fidelity_calc()
 
     def _get_timeslot_for_fidelity_calc(self):
         """
-- 
2.43.0


From 7ad0554f1793a1ecb92d1e9d40b7d12685e41593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:24 +0000
Subject: [PATCH 46/80] fix: arguments of the deprecated compute_prop_grad

---
 src/qutip_qtrl/propcomp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qutip_qtrl/propcomp.py b/src/qutip_qtrl/propcomp.py
index c4c0096..48516e1 100644
--- a/src/qutip_qtrl/propcomp.py
+++ b/src/qutip_qtrl/propcomp.py
@@ -157,7 +157,7 @@ class PropagatorComputer:
         _func_deprecation(
             "'compute_prop_grad' has been replaced " "by '_compute_prop_grad'"
         )
-        return self._compute_prop_grad(self, k, j, compute_prop=compute_prop)
+        return self._compute_prop_grad(k, j, compute_prop=compute_prop)
 
     def _compute_prop_grad(self, k, j, compute_prop=True):
         """
-- 
2.43.0


From 0dfb54d1ac2923256398b98e2fa64f78130570ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:24 +0000
Subject: [PATCH 47/80] fix: deprecated combine_dyn_gen returns the generator

---
 src/qutip_qtrl/dynamics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qutip_qtrl/dynamics.py b/src/qutip_qtrl/dynamics.py
index 86ca0b5..7ce1224 100644
--- a/src/qutip_qtrl/dynamics.py
+++ b/src/qutip_qtrl/dynamics.py
@@ -1219,7 +1219,7 @@ class Dynamics(object):
             "'combine_dyn_gen' has been replaced by " "'_combine_dyn_gen'"
         )
         self._combine_dyn_gen(k)
-        return self._dyn_gen(k)
+        return self._dyn_gen[k]
 
     def _combine_dyn_gen(self, k):
         """
-- 
2.43.0


From 9b23c7cb802213109260807172f75e71e60d7d9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:24 +0000
Subject: [PATCH 48/80] fix: accept the documented fidelity type TD_APPROX

---
 src/qutip_qtrl/pulseoptim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qutip_qtrl/pulseoptim.py b/src/qutip_qtrl/pulseoptim.py
index 223fbbf..2d09712 100644
--- a/src/qutip_qtrl/pulseoptim.py
+++ b/src/qutip_qtrl/pulseoptim.py
@@ -1948,7 +1948,7 @@ def create_pulse_optimizer(
     if fid_type_up == "DEF" or fid_type_up is None or fid_type_up == "":
         # None given, use the default for the Dynamics
         pass
-    elif fid_type_up == "TDAPPROX":
+    elif fid_type_up in ("TDAPPROX", "TD_APPROX"):
         if not isinstance(dyn.fid_computer, fidcomp.FidCompTraceDiffApprox):
             dyn.fid_computer = fidcomp.FidCompTraceDiffApprox(dyn)
     elif fid_type_up == "TRACEDIFF":
-- 
2.43.0


From 80f587410d03b22ba39189a9a1e5e7885518d36c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:05 +0000
Subject: [PATCH 49/80] fix: fmin_bfgs only displays its convergence message
 when asked to

---
 src/qutip_qtrl/optimizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qutip_qtrl/optimizer.py b/src/qutip_qtrl/optimizer.py
index 9060831..9a1264e 100644
--- a/src/qutip_qtrl/optimizer.py
+++ b/src/qutip_qtrl/optimizer.py
@@ -884,7 +884,7 @@ class OptimizerBFGS(Optimizer):
                 gtol=term_conds.min_gradient_norm,
                 maxiter=term_conds.max_iterations,
                 full_output=True,
-                disp=True,
+                disp=self.disp_conv_msg,
             )
 
             amps = self._get_ctrl_amps(optim_var_vals)
-- 
2.43.0


From 924af253f1e851c9281d1221d1d210b8e33d1082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:50 +0000
Subject: [PATCH 50/80] fix: GRAPE accepts arrays of initial pulses with limits

---
 src/qutip_qtrl/grape.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/qutip_qtrl/grape.py b/src/qutip_qtrl/grape.py
index 6c4b5e2..3dd102c 100644
--- a/src/qutip_qtrl/grape.py
+++ b/src/qutip_qtrl/grape.py
@@ -157,9 +157,9 @@ def grape_unitary(
     if u_limits:
         warnings.warn("Caution: Using experimental feature u_limits")
 
-    if u_limits and u_start:
+    if u_limits and u_start is not None:
         # make sure that no values in u0 violates the u_limits conditions
-        u_start = np.array(u_start)
+        u_start = np.array(u_start, dtype=float)
         u_start[u_start < u_limits[0]] = u_limits[0]
         u_start[u_start > u_limits[1]] = u_limits[1]
 
@@ -333,9 +333,9 @@ def cy_grape_unitary(
     if u_limits:
         warnings.warn("Causion: Using experimental feature u_limits")
 
-    if u_limits and u_start:
+    if u_limits and u_start is not None:
         # make sure that no values in u0 violates the u_limits conditions
-        u_start = np.array(u_start)
+        u_start = np.array(u_start, dtype=float)
         u_start[u_start < u_limits[0]] = u_limits[0]
         u_start[u_start > u_limits[1]] = u_limits[1]
 
@@ -523,9 +523,9 @@ def grape_unitary_adaptive(
     if u_limits:
         warnings.warn("Causion: Using experimental feature u_limits")
 
-    if u_limits and u_start:
+    if u_limits and u_start is not None:
         # make sure that no values in u0 violates the u_limits conditions
-        u_start = np.array(u_start)
+        u_start = np.array(u_start, dtype=float)
         u_start[u_start < u_limits[0]] = u_limits[0]
         u_start[u_start > u_limits[1]] = u_limits[1]
 
-- 
2.43.0


From a95944a395279cab549951716221b86d4316129b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:00 +0000
Subject: [PATCH 51/80] fix: GRAPE returns the propagator of the final pulse

---
 src/qutip_qtrl/grape.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/qutip_qtrl/grape.py b/src/qutip_qtrl/grape.py
index 3dd102c..f402e6d 100644
--- a/src/qutip_qtrl/grape.py
+++ b/src/qutip_qtrl/grape.py
@@ -15,7 +15,7 @@ import time
 import numpy as np
 from scipy.interpolate import interp1d
 
-from qutip import Qobj, qeye
+from qutip import qeye
 from qutip.core import data as _data
 from qutip.ui.progressbar import BaseProgressBar
 from qutip_qtrl.cy_grape import cy_overlap, cy_grape_inner
@@ -242,6 +242,12 @@ def grape_unitary(
 
             u[r + 1, j, -1] = u[r + 1, j, -2]
 
+    # the final propagator is that of the final pulse
+    U_f = qeye(U.dims[0])
+    for idx in range(M - 1):
+        H_idx = H0 + sum([u[-1, j, idx] * H_ops[j] for j in range(J)])
+        U_f = (-1j * H_idx * (times[1] - times[0])).expm() @ U_f
+
     if use_interp:
         ip_funcs = [
             interp1d(
@@ -262,8 +268,8 @@ def grape_unitary(
 
     progress_bar.finished()
 
-    # return U_f_list[-1], H_td_func, u
-    return GRAPEResult(u=u, U_f=U_f_list[-1], H_t=H_td_func)
+    # return U_f, H_td_func, u
+    return GRAPEResult(u=u, U_f=U_f, H_t=H_td_func)
 
 
 def cy_grape_unitary(
@@ -425,6 +431,12 @@ def cy_grape_unitary(
             u_max,
         )
 
+    # the final propagator is that of the final pulse
+    U_f = qeye(U.dims[0])
+    for idx in range(M - 1):
+        H_idx = H0 + sum([u[-1, j, idx] * H_ops[j] for j in range(J)])
+        U_f = (-1j * H_idx * (times[1] - times[0])).expm() @ U_f
+
     if use_interp:
         ip_funcs = [
             interp1d(
@@ -445,7 +457,7 @@ def cy_grape_unitary(
 
     progress_bar.finished()
 
-    return GRAPEResult(u=u, U_f=Qobj(U_f_list[-1], dims=U.dims), H_t=H_td_func)
+    return GRAPEResult(u=u, U_f=U_f, H_t=H_td_func)
 
 
 def grape_unitary_adaptive(
-- 
2.43.0


From 098fd8275b1a8d1988e1d7925779bb4e6df4862f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:00 +0000
Subject: [PATCH 52/80] fix: same late signal penalty in all GRAPE variants

---
 src/qutip_qtrl/grape.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qutip_qtrl/grape.py b/src/qutip_qtrl/grape.py
index f402e6d..d2b1e05 100644
--- a/src/qutip_qtrl/grape.py
+++ b/src/qutip_qtrl/grape.py
@@ -230,7 +230,7 @@ def grape_unitary(
 
                 if beta:
                     # penalty term for late control signals u
-                    du += -2 * beta * m * u[r, j, m] * dt
+                    du += -2 * beta * m**2 * u[r, j, m] * dt
 
                 u[r + 1, j, m] = u[r, j, m] + eps * du.real
 
-- 
2.43.0


From f843cef097b2d14ca179f7872e225cd98e3a15ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:00 +0000
Subject: [PATCH 53/80] fix: late signal penalty in adaptive GRAPE

---
 src/qutip_qtrl/grape.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qutip_qtrl/grape.py b/src/qutip_qtrl/grape.py
index d2b1e05..5baf25c 100644
--- a/src/qutip_qtrl/grape.py
+++ b/src/qutip_qtrl/grape.py
@@ -643,7 +643,7 @@ def grape_unitary_adaptive(
 
                 if beta:
                     # penalty term for late control signals u
-                    du += -2 * beta * k**2 * u[r, j, k] * dt
+                    du += -2 * beta * m**2 * u[r, j, m, best_k] * dt
 
                 for k, eps_val in enumerate(eps_vec):
                     u[r + 1, j, m, k] = u[r, j, m, k] + eps_val * du.real
-- 
2.43.0


From 3362df5bfbb74230143803039e18ad4b1d4223f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:29 +0000
Subject: [PATCH 54/80] fix: adaptive GRAPE continues from the best candidate

---
 src/qutip_qtrl/grape.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/qutip_qtrl/grape.py b/src/qutip_qtrl/grape.py
index 5baf25c..c3541eb 100644
--- a/src/qutip_qtrl/grape.py
+++ b/src/qutip_qtrl/grape.py
@@ -620,6 +620,12 @@ def grape_unitary_adaptive(
             U_b_list.insert(0, U_b)
             U_b = U_list[M - 2 - m].dag() * U_b
 
+        if r == 0:
+            Uf_best = U_f
+            _prev_overlap = _fidelity_function(
+                cy_overlap(U_f.data, U.data)
+            ).real
+
         logger.debug("Time 2: %fs" % (time.time() - _t0))
         _t0 = time.time()
 
@@ -688,12 +694,15 @@ def grape_unitary_adaptive(
             elif best_k == 2:
                 eps_vec *= 2
 
+            # continue from the best candidate
+            u[r + 1, :, :, :] = u[r + 1, :, :, best_k, np.newaxis]
+            Uf_best = Uf[best_k]
             _prev_overlap = _k_overlap[best_k]
 
-        overlap_log[r] = _k_overlap[best_k]
+        overlap_log[r] = _prev_overlap
 
         if overlap_terminate < 1.0:
-            if _k_overlap[best_k] > overlap_terminate:
+            if _prev_overlap > overlap_terminate:
                 logger.info("Reached target fidelity, terminating.")
                 break
 
@@ -720,7 +729,7 @@ def grape_unitary_adaptive(
 
     progress_bar.finished()
 
-    result = GRAPEResult(u=u[:_r, :, :, best_k], U_f=Uf[best_k], H_t=H_td_func)
+    result = GRAPEResult(u=u[:_r, :, :, best_k], U_f=Uf_best, H_t=H_td_func)
 
     result.eps = eps_log
     result.overlap = overlap_log
-- 
2.43.0


From 5a8a646be38c10edfe84a6a80a164e11b8d6c2d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:42 +0000
Subject: [PATCH 55/80] fix: adaptive GRAPE returns the final pulse

---
 src/qutip_qtrl/grape.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/qutip_qtrl/grape.py b/src/qutip_qtrl/grape.py
index c3541eb..5741459 100644
--- a/src/qutip_qtrl/grape.py
+++ b/src/qutip_qtrl/grape.py
@@ -713,10 +713,10 @@ def grape_unitary_adaptive(
         ip_funcs = [
             interp1d(
                 times,
-                u[_r, j, :, best_k],
+                u[_r + 1, j, :, best_k],
                 kind=interp_kind,
                 bounds_error=False,
-                fill_value=u[R - 1, j, -1],
+                fill_value=u[_r + 1, j, -1, best_k],
             )
             for j in range(J)
         ]
@@ -725,11 +725,16 @@ def grape_unitary_adaptive(
             [H_ops[j], lambda t, args, j=j: ip_funcs[j](t)] for j in range(J)
         ]
     else:
-        H_td_func = [H0] + [[H_ops[j], u[_r, j, :, best_k]] for j in range(J)]
+        H_td_func = [H0] + [
+            [H_ops[j], u[_r + 1, j, :, best_k]] for j in range(J)
+        ]
 
     progress_bar.finished()
 
-    result = GRAPEResult(u=u[:_r, :, :, best_k], U_f=Uf_best, H_t=H_td_func)
+    # all iterates up to the final one, which H_t and U_f describe
+    result = GRAPEResult(
+        u=u[: _r + 2, :, :, best_k], U_f=Uf_best, H_t=H_td_func
+    )
 
     result.eps = eps_log
     result.overlap = overlap_log
-- 
2.43.0


From f83c3767cbdf1ed3d9adab47d04dc846024bdc4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:57 +0000
Subject: [PATCH 56/80] fix: interpolated GRAPE Hamiltonian can be used by
 QuTiP

---
 src/qutip_qtrl/grape.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/qutip_qtrl/grape.py b/src/qutip_qtrl/grape.py
index 5741459..b25eaba 100644
--- a/src/qutip_qtrl/grape.py
+++ b/src/qutip_qtrl/grape.py
@@ -261,7 +261,8 @@ def grape_unitary(
         ]
 
         H_td_func = [H0] + [
-            [H_ops[j], lambda t, args, j=j: ip_funcs[j](t)] for j in range(J)
+            [H_ops[j], lambda t, args=None, j=j: float(ip_funcs[j](t))]
+            for j in range(J)
         ]
     else:
         H_td_func = [H0] + [[H_ops[j], u[-1, j, :]] for j in range(J)]
@@ -450,7 +451,8 @@ def cy_grape_unitary(
         ]
 
         H_td_func = [H0] + [
-            [H_ops[j], lambda t, args, j=j: ip_funcs[j](t)] for j in range(J)
+            [H_ops[j], lambda t, args=None, j=j: float(ip_funcs[j](t))]
+            for j in range(J)
         ]
     else:
         H_td_func = [H0] + [[H_ops[j], u[-1, j, :]] for j in range(J)]
@@ -722,7 +724,8 @@ def grape_unitary_adaptive(
         ]
 
         H_td_func = [H0] + [
-            [H_ops[j], lambda t, args, j=j: ip_funcs[j](t)] for j in range(J)
+            [H_ops[j], lambda t, args=None, j=j: float(ip_funcs[j](t))]
+            for j in range(J)
         ]
     else:
         H_td_func = [H0] + [
-- 
2.43.0


From 821c8534b69725b36c7c841fe2c7a3700c61c07d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:34 +0000
Subject: [PATCH 57/80] fix: text parameters loaded from a file stay text

---
 src/qutip_qtrl/loadparams.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/qutip_qtrl/loadparams.py b/src/qutip_qtrl/loadparams.py
index 988278b..811df1e 100644
--- a/src/qutip_qtrl/loadparams.py
+++ b/src/qutip_qtrl/loadparams.py
@@ -218,6 +218,8 @@ def set_param(parser, section, option, obj, attrib_name):
                 " in parameter file [{}].{}".format(val, section, option)
             )
         setattr(obj, attrib_name, b)
+    elif dtype == str:
+        setattr(obj, attrib_name, val)
     else:
         try:
             val = parser.getfloat(section, attrib_name)
-- 
2.43.0


From c42535452967748e25914b30c7f28c450ecc8310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:34 +0000
Subject: [PATCH 58/80] fix: whole numbers loaded from a file for unset
 parameters

---
 src/qutip_qtrl/loadparams.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/qutip_qtrl/loadparams.py b/src/qutip_qtrl/loadparams.py
index 811df1e..ddba657 100644
--- a/src/qutip_qtrl/loadparams.py
+++ b/src/qutip_qtrl/loadparams.py
@@ -221,12 +221,11 @@ def set_param(parser, section, option, obj, attrib_name):
     elif dtype == str:
         setattr(obj, attrib_name, val)
     else:
-        try:
-            val = parser.getfloat(section, attrib_name)
-        except:
+        for get in (parser.getint, parser.getfloat, parser.getboolean):
             try:
-                val = parser.getboolean(section, attrib_name)
-            except:
+                val = get(section, attrib_name)
+                break
+            except ValueError:
                 pass
 
         setattr(obj, attrib_name, val)
-- 
2.43.0


From 6368f7170c130dc6320dda7e48b18e6e08c28fe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:19 +0000
Subject: [PATCH 59/80] fix: expressions loaded from a file for float
 parameters give floats

---
 src/qutip_qtrl/loadparams.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qutip_qtrl/loadparams.py b/src/qutip_qtrl/loadparams.py
index ddba657..5d455e7 100644
--- a/src/qutip_qtrl/loadparams.py
+++ b/src/qutip_qtrl/loadparams.py
@@ -182,7 +182,7 @@ def set_param(parser, section, option, obj, attrib_name):
             f = parser.getfloat(section, attrib_name)
         except:
             try:
-                f = eval(val)
+                f = float(eval(val))
             except:
                 raise ValueError(
                     "Value '{}' cannot be cast or evaluated as a "
-- 
2.43.0


From 2b709ac47d059a656c60b83ae503a880de143fa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:46 +0000
Subject: [PATCH 60/80] fix: dumping level CUSTOM

---
 src/qutip_qtrl/dump.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/qutip_qtrl/dump.py b/src/qutip_qtrl/dump.py
index f86d900..d60ef3f 100644
--- a/src/qutip_qtrl/dump.py
+++ b/src/qutip_qtrl/dump.py
@@ -137,8 +137,8 @@ class Dump:
 
     @level.setter
     def level(self, value):
-        self._level = value
-        self._apply_level()
+        self._apply_level(value)
+        self._level = value.upper()
 
     @property
     def dump_any(self):
@@ -256,8 +256,9 @@ class OptimDump(Dump):
         if not isinstance(optim, Optimizer):
             raise TypeError("Must instantiate with {} type".format(Optimizer))
         self.parent = optim
-        self._level = level
+        self._level = "SUMMARY"
         self.reset()
+        self.level = level
 
     def reset(self):
         Dump.reset(self)
@@ -295,10 +296,9 @@ class OptimDump(Dump):
         if level == "CUSTOM":
             if self._level == "CUSTOM":
                 # dumping level has not changed keep the same specific config
-                pass
-            else:
-                # Switching to custom, start from SUMMARY
-                level = "SUMMARY"
+                return
+            # Switching to custom, start from SUMMARY
+            level = "SUMMARY"
 
         if level == "SUMMARY":
             self.dump_summary = True
@@ -534,8 +534,9 @@ class DynamicsDump(Dump):
         if not isinstance(dynamics, Dynamics):
             raise TypeError("Must instantiate with {} type".format(Dynamics))
         self.parent = dynamics
-        self._level = level
+        self._level = "SUMMARY"
         self.reset()
+        self.level = level
 
     def reset(self):
         Dump.reset(self)
@@ -590,10 +591,9 @@ class DynamicsDump(Dump):
         if level == "CUSTOM":
             if self._level == "CUSTOM":
                 # dumping level has not changed keep the same specific config
-                pass
-            else:
-                # Switching to custom, start from SUMMARY
-                level = "SUMMARY"
+                return
+            # Switching to custom, start from SUMMARY
+            level = "SUMMARY"
 
         if level == "SUMMARY":
             self.dump_summary = True
-- 
2.43.0


From 1da2f678f070bc2ed63697283b275c7961d4ab86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:46 +0000
Subject: [PATCH 61/80] fix: dumping level FULL records all evolution operators
 used

---
 src/qutip_qtrl/dump.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/qutip_qtrl/dump.py b/src/qutip_qtrl/dump.py
index d60ef3f..80695b7 100644
--- a/src/qutip_qtrl/dump.py
+++ b/src/qutip_qtrl/dump.py
@@ -575,13 +575,12 @@ class DynamicsDump(Dump):
                 self.dump_prop,
                 self.dump_prop_grad,
                 self.dump_fwd_evo,
-                self.dump_onwd_evo == dyn.fid_computer.uses_onwd_evo,
-                self.dump_onto_evo == dyn.fid_computer.uses_onto_evo,
+                self.dump_onwd_evo or not dyn.fid_computer.uses_onwd_evo,
+                self.dump_onto_evo or not dyn.fid_computer.uses_onto_evo,
             ]
         )
 
     def _apply_level(self, level=None):
-        dyn = self.parent
         if level is None:
             level = self._level
 
@@ -611,8 +610,10 @@ class DynamicsDump(Dump):
             self.dump_prop = True
             self.dump_prop_grad = True
             self.dump_fwd_evo = True
-            self.dump_onwd_evo = dyn.fid_computer.uses_onwd_evo
-            self.dump_onto_evo = dyn.fid_computer.uses_onto_evo
+            # recorded only if used by the fidelity computer, which may not
+            # be the final one yet
+            self.dump_onwd_evo = True
+            self.dump_onto_evo = True
         else:
             raise ValueError("No option for dumping level '{}'".format(level))
 
-- 
2.43.0


From 02fd8f06129bf2105e2a859d0f796504f4eba0bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:46 +0000
Subject: [PATCH 62/80] fix: dump files contain the operators recorded

---
 src/qutip_qtrl/dump.py | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/src/qutip_qtrl/dump.py b/src/qutip_qtrl/dump.py
index 80695b7..0e3aaf2 100644
--- a/src/qutip_qtrl/dump.py
+++ b/src/qutip_qtrl/dump.py
@@ -12,6 +12,8 @@ import os
 import copy
 import numpy as np
 
+from qutip import Qobj
+
 # QuTiP control modules
 import qutip_qtrl.io as qtrlio
 
@@ -746,6 +748,11 @@ class DynamicsDump(Dump):
                 logger.info("Dynamics dump saved to {}".format(self.dump_dir))
 
 
+def _oper_array(oper):
+    """The operator as an array that can be saved as text"""
+    return oper.full() if isinstance(oper, Qobj) else oper
+
+
 class DumpItem:
     """
     An item in a dump list
@@ -842,7 +849,7 @@ class EvoCompDumpItem(DumpItem):
                         "dynamics generator for timeslot {}\n".format(k)
                     )
                 )
-                np.savetxt(f, self.dyn_gen[k], delimiter=dump.data_sep)
+                np.savetxt(f, _oper_array(dg), delimiter=dump.data_sep)
                 k += 1
             if closef:
                 f.close()
@@ -857,9 +864,9 @@ class EvoCompDumpItem(DumpItem):
                 fname = "{}-prop.{}".format(fnbase, dump.dump_file_ext)
                 f = open(os.path.join(dump.dump_dir, fname), "wb")
                 closef = True
-            for dg in self.dyn_gen:
+            for prop in self.prop:
                 f.write(str.encode("Propagator for timeslot {}\n".format(k)))
-                np.savetxt(f, self.prop[k], delimiter=dump.data_sep)
+                np.savetxt(f, _oper_array(prop), delimiter=dump.data_sep)
                 k += 1
             if closef:
                 f.close()
@@ -883,7 +890,9 @@ class EvoCompDumpItem(DumpItem):
                         )
                     )
                     np.savetxt(
-                        f, self.prop_grad[k, j], delimiter=dump.data_sep
+                        f,
+                        _oper_array(self.prop_grad[k, j]),
+                        delimiter=dump.data_sep,
                     )
             if closef:
                 f.close()
@@ -898,9 +907,9 @@ class EvoCompDumpItem(DumpItem):
                 fname = "{}-fwd_evo.{}".format(fnbase, dump.dump_file_ext)
                 f = open(os.path.join(dump.dump_dir, fname), "wb")
                 closef = True
-            for dg in self.dyn_gen:
+            for evo in self.fwd_evo:
                 f.write(str.encode("Evolution from 0 to {}\n".format(k)))
-                np.savetxt(f, self.fwd_evo[k], delimiter=dump.data_sep)
+                np.savetxt(f, _oper_array(evo), delimiter=dump.data_sep)
                 k += 1
             if closef:
                 f.close()
@@ -915,9 +924,9 @@ class EvoCompDumpItem(DumpItem):
                 fname = "{}-onwd_evo.{}".format(fnbase, dump.dump_file_ext)
                 f = open(os.path.join(dump.dump_dir, fname), "wb")
                 closef = True
-            for dg in self.dyn_gen:
+            for evo in self.onwd_evo:
                 f.write(str.encode("Evolution from {} to end\n".format(k)))
-                np.savetxt(f, self.fwd_evo[k], delimiter=dump.data_sep)
+                np.savetxt(f, _oper_array(evo), delimiter=dump.data_sep)
                 k += 1
             if closef:
                 f.close()
@@ -932,11 +941,11 @@ class EvoCompDumpItem(DumpItem):
                 fname = "{}-onto_evo.{}".format(fnbase, dump.dump_file_ext)
                 f = open(os.path.join(dump.dump_dir, fname), "wb")
                 closef = True
-            for dg in self.dyn_gen:
+            for evo in self.onto_evo:
                 f.write(
                     str.encode("Evolution from {} onto target\n".format(k))
                 )
-                np.savetxt(f, self.fwd_evo[k], delimiter=dump.data_sep)
+                np.savetxt(f, _oper_array(evo), delimiter=dump.data_sep)
                 k += 1
             if closef:
                 f.close()
-- 
2.43.0


From 43883d20f50f1e860ca133afbaf6b0224809cd4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:46 +0000
Subject: [PATCH 63/80] fix: relative paths of dump summary files

---
 src/qutip_qtrl/dump.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qutip_qtrl/dump.py b/src/qutip_qtrl/dump.py
index 0e3aaf2..82b1c2c 100644
--- a/src/qutip_qtrl/dump.py
+++ b/src/qutip_qtrl/dump.py
@@ -211,7 +211,7 @@ class Dump:
         if not isinstance(value, str):
             raise ValueError("File path must be a string")
         self._summary_file_specified = True
-        if os.path.abspath(value):
+        if os.path.isabs(value):
             self._summary_file_path = value
         elif "~" in value:
             self._summary_file_path = os.path.expanduser(value)
-- 
2.43.0


From 024b430fbfbd6f0041569b2aa425a9f671d2d8bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:26 +0000
Subject: [PATCH 64/80] fix: dump files follow a change of the dump directory

---
 src/qutip_qtrl/dump.py | 24 ++++++++++--------------
 1 file changed, 10 insertions(+), 14 deletions(-)

diff --git a/src/qutip_qtrl/dump.py b/src/qutip_qtrl/dump.py
index 82b1c2c..4494e32 100644
--- a/src/qutip_qtrl/dump.py
+++ b/src/qutip_qtrl/dump.py
@@ -165,6 +165,8 @@ class Dump:
     @dump_dir.setter
     def dump_dir(self, value):
         self._dump_dir = value
+        if not self._summary_file_specified:
+            self._summary_file_path = None
         if not self.create_dump_dir():
             self._dump_dir = None
 
@@ -270,8 +272,6 @@ class OptimDump(Dump):
         self.grad_norm_log = []
         self.grad_log = []
         self._fname_base = "optimdump"
-        self._fid_err_file = None
-        self._grad_norm_file = None
 
     def clear(self):
         del self.iter_summary[:]
@@ -341,12 +341,10 @@ class OptimDump(Dump):
 
     @property
     def fid_err_file(self):
-        if self._fid_err_file is None:
-            fname = "{}-fid_err_log.{}".format(
-                self.fname_base, self.dump_file_ext
-            )
-            self._fid_err_file = os.path.join(self.dump_dir, fname)
-        return self._fid_err_file
+        fname = "{}-fid_err_log.{}".format(
+            self.fname_base, self.dump_file_ext
+        )
+        return os.path.join(self.dump_dir, fname)
 
     def update_fid_err_log(self, fid_err):
         """add an entry to the fid_err log"""
@@ -362,12 +360,10 @@ class OptimDump(Dump):
 
     @property
     def grad_norm_file(self):
-        if self._grad_norm_file is None:
-            fname = "{}-grad_norm_log.{}".format(
-                self.fname_base, self.dump_file_ext
-            )
-            self._grad_norm_file = os.path.join(self.dump_dir, fname)
-        return self._grad_norm_file
+        fname = "{}-grad_norm_log.{}".format(
+            self.fname_base, self.dump_file_ext
+        )
+        return os.path.join(self.dump_dir, fname)
 
     def update_grad_norm_log(self, grad_norm):
         """add an entry to the grad_norm log"""
-- 
2.43.0


From 2e1f4243576ab79ae35934fde3faced5f6021a04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:49 +0000
Subject: [PATCH 65/80] fix: reject lists of controls of different lengths

---
 src/qutip_qtrl/dynamics.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/qutip_qtrl/dynamics.py b/src/qutip_qtrl/dynamics.py
index 7ce1224..0797b55 100644
--- a/src/qutip_qtrl/dynamics.py
+++ b/src/qutip_qtrl/dynamics.py
@@ -65,6 +65,12 @@ def _check_ctrls_container(ctrls):
             if isinstance(ctrls[0], (list, tuple)):
                 ctrls_ = np.empty((len(ctrls), len(ctrls[0])), dtype=object)
                 for i, ctrl in enumerate(ctrls):
+                    if not isinstance(ctrl, (list, tuple)) or len(
+                        ctrl
+                    ) != len(ctrls[0]):
+                        raise TypeError(
+                            "All lists of ctrl dyn gen must have equal length"
+                        )
                     ctrls_[i, :] = ctrl
                 ctrls = ctrls_
         except IndexError:
-- 
2.43.0


From f869219d176be1dc2d739fed0b340da3c9f3137b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:49 +0000
Subject: [PATCH 66/80] fix: rejected phase_option does not replace the one in
 force

---
 src/qutip_qtrl/fidcomp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qutip_qtrl/fidcomp.py b/src/qutip_qtrl/fidcomp.py
index 71bb6ca..126c7cf 100644
--- a/src/qutip_qtrl/fidcomp.py
+++ b/src/qutip_qtrl/fidcomp.py
@@ -321,7 +321,6 @@ class FidCompUnitary(FidelityComputer):
         self._init_phase_option(value)
 
     def _init_phase_option(self, value):
-        self._phase_option = value
         if value == "PSU":
             self.fid_norm_func = self.normalize_PSU
             self.grad_norm_func = self.normalize_gradient_PSU
@@ -337,6 +336,7 @@ class FidCompUnitary(FidelityComputer):
             raise errors.UsageError(
                 "No option for phase_option '{}'".format(value)
             )
+        self._phase_option = value
 
     def init_comp(self):
         """
-- 
2.43.0


From b50882324481bd66b0c5f1f86292d93bc1d8a16e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:21 +0000
Subject: [PATCH 67/80] fix: lists the settings no longer call for do not
 survive a re-initialisation

---
 src/qutip_qtrl/dynamics.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/qutip_qtrl/dynamics.py b/src/qutip_qtrl/dynamics.py
index 0797b55..8949cbc 100644
--- a/src/qutip_qtrl/dynamics.py
+++ b/src/qutip_qtrl/dynamics.py
@@ -759,6 +759,16 @@ class Dynamics(object):
         self._onto_evo_target = None
         self._onto_evo_target_qobj = None
 
+        # Lists that the present settings do not call for must not remain from
+        # an earlier initialisation
+        self._phased_dyn_gen = None
+        self._phased_ctrl_dyn_gen = None
+        self._prop_grad = None
+        self._onwd_evo = None
+        self._onto_evo = None
+        self._decomp_curr = None
+        self._dyn_gen_eigenvectors_adj = None
+
         n_ts = self.num_tslots
         n_ctrls = self.num_ctrls
         if self.oper_dtype == Qobj:
-- 
2.43.0


From c97c04df2e6c833cb1c04e8fcff0ceb8c57d4941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:21 +0000
Subject: [PATCH 68/80] fix: symplectic phase follows the phase application set
 after it was read

---
 src/qutip_qtrl/dynamics.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/qutip_qtrl/dynamics.py b/src/qutip_qtrl/dynamics.py
index 8949cbc..76394f9 100644
--- a/src/qutip_qtrl/dynamics.py
+++ b/src/qutip_qtrl/dynamics.py
@@ -1835,6 +1835,9 @@ class DynamicsSymplectic(Dynamics):
             phase = self._get_dyn_gen_phase()
             if phase is not None:
                 self._dyn_gen_phase = phase
+        elif self._phase_application != "custom":
+            # The phase may have been read before, for another application
+            self._dyn_gen_phase = None
 
     def _get_dyn_gen_phase(self):
         if self._phase_application == "postop":
-- 
2.43.0


From ce628941f08b144e875fa50d147ab23c4a3bf0c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:21 +0000
Subject: [PATCH 69/80] fix: phase application options are recognised in any
 case

---
 src/qutip_qtrl/dynamics.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/qutip_qtrl/dynamics.py b/src/qutip_qtrl/dynamics.py
index 76394f9..e017a23 100644
--- a/src/qutip_qtrl/dynamics.py
+++ b/src/qutip_qtrl/dynamics.py
@@ -891,7 +891,8 @@ class Dynamics(object):
 
     def _set_phase_application(self, value):
         self._config_phase_application(value)
-        self._phase_application = value
+        if value is not None:
+            self._phase_application = value.lower()
 
     def _config_phase_application(self, ph_app=None):
         """
-- 
2.43.0


From ab9e8e0e77bbda2a432f501f24c5f11bf9e1286b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:44 +0000
Subject: [PATCH 70/80] fix: symplectic phase follows a changed operator data
 type

---
 src/qutip_qtrl/dynamics.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/qutip_qtrl/dynamics.py b/src/qutip_qtrl/dynamics.py
index e017a23..c208ec0 100644
--- a/src/qutip_qtrl/dynamics.py
+++ b/src/qutip_qtrl/dynamics.py
@@ -1830,6 +1830,16 @@ class DynamicsSymplectic(Dynamics):
                 self._omega = omg
         return self._omega
 
+    def _init_phase(self):
+        # The operator data type may have changed since the phase was created
+        if self._omega is not None and (
+            isinstance(self._omega, Qobj) != (self.oper_dtype == Qobj)
+        ):
+            self._omega = None
+            if self._phase_application != "custom":
+                self._dyn_gen_phase = None
+        Dynamics._init_phase(self)
+
     def _set_phase_application(self, value):
         Dynamics._set_phase_application(self, value)
         if self._evo_initialized:
-- 
2.43.0


From 6e16084debba53dbba16ad7f87daf39bde512494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:25 +0000
Subject: [PATCH 71/80] fix: zero amplitude bounds given in the configuration
 are used

---
 src/qutip_qtrl/optimizer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qutip_qtrl/optimizer.py b/src/qutip_qtrl/optimizer.py
index 9a1264e..cfd9829 100644
--- a/src/qutip_qtrl/optimizer.py
+++ b/src/qutip_qtrl/optimizer.py
@@ -273,10 +273,10 @@ class Optimizer(object):
         # AJGP 2015-04-21:
         # These (copying from config) are here for backward compatibility
         if hasattr(self.config, "amp_lbound"):
-            if self.config.amp_lbound:
+            if self.config.amp_lbound is not None:
                 self.amp_lbound = self.config.amp_lbound
         if hasattr(self.config, "amp_ubound"):
-            if self.config.amp_ubound:
+            if self.config.amp_ubound is not None:
                 self.amp_ubound = self.config.amp_ubound
 
         self.apply_params()
-- 
2.43.0


From e3585d5b195c74b55c639997a47afa19c650c601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:17 +0000
Subject: [PATCH 72/80] fix: a changed fidelity goal is used by later runs

---
 src/qutip_qtrl/optimizer.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/qutip_qtrl/optimizer.py b/src/qutip_qtrl/optimizer.py
index cfd9829..c6efada 100644
--- a/src/qutip_qtrl/optimizer.py
+++ b/src/qutip_qtrl/optimizer.py
@@ -400,9 +400,8 @@ class Optimizer(object):
                 "error tolerance must be set"
             )
 
-        if term_conds.fid_err_targ is None:
-            term_conds.fid_err_targ = np.abs(1 - term_conds.fid_goal)
-
+        # the error target is not derived from the goal here, as the goal
+        # could be changed before a later run with the same conditions
         if term_conds.fid_goal is None:
             term_conds.fid_goal = 1 - term_conds.fid_err_targ
 
@@ -684,7 +683,11 @@ class Optimizer(object):
         if self.dump and self.dump.dump_fid_err:
             self.dump.update_fid_err_log(err)
 
-        if err <= tc.fid_err_targ:
+        fid_err_targ = tc.fid_err_targ
+        if fid_err_targ is None:
+            fid_err_targ = np.abs(1 - tc.fid_goal)
+
+        if err <= fid_err_targ:
             raise errors.GoalAchievedTerminate(err)
 
         if self.num_fid_func_calls > tc.max_fid_func_calls:
-- 
2.43.0


From 8db259938e445a244e71d81a2214052c2cb975ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:17 +0000
Subject: [PATCH 73/80] fix: missing termination conditions are reported as
 such

---
 src/qutip_qtrl/optimizer.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/qutip_qtrl/optimizer.py b/src/qutip_qtrl/optimizer.py
index c6efada..93fd54e 100644
--- a/src/qutip_qtrl/optimizer.py
+++ b/src/qutip_qtrl/optimizer.py
@@ -949,7 +949,10 @@ class OptimizerLBFGSB(Optimizer):
             if self.config.max_metric_corr:
                 self.max_metric_corr = self.config.max_metric_corr
         if hasattr(self.config, "accuracy_factor"):
-            if self.config.accuracy_factor:
+            # (anything but termination conditions is rejected below)
+            if self.config.accuracy_factor and isinstance(
+                term_conds, termcond.TerminationConditions
+            ):
                 term_conds.accuracy_factor = self.config.accuracy_factor
 
         Optimizer.init_optim(self, term_conds)
-- 
2.43.0


From d6446e817539bdbc1aef668049e54dbda28c7b55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:12 +0000
Subject: [PATCH 74/80] fix: Hamiltonians set anew are used by the next
 initialisation

---
 src/qutip_qtrl/dynamics.py | 37 +++++++++++++++----------------------
 1 file changed, 15 insertions(+), 22 deletions(-)

diff --git a/src/qutip_qtrl/dynamics.py b/src/qutip_qtrl/dynamics.py
index c208ec0..d78000e 100644
--- a/src/qutip_qtrl/dynamics.py
+++ b/src/qutip_qtrl/dynamics.py
@@ -426,7 +426,6 @@ class Dynamics(object):
         self.def_amps_fname = "ctrl_amps.txt"
         self.log_level = self.config.log_level
         # Internal flags
-        self._dyn_gen_mapped = False
         self._evo_initialized = False
         self._timeslots_initialized = False
         self._ctrls_initialized = False
@@ -1570,8 +1569,6 @@ class DynamicsUnitary(Dynamics):
     def reset(self):
         Dynamics.reset(self)
         self.id_text = "UNIT"
-        self.drift_ham = None
-        self.ctrl_ham = None
         self.H = None
         self._dyn_gen_phase = -1j
         self._phase_application = "preop"
@@ -1594,29 +1591,25 @@ class DynamicsUnitary(Dynamics):
         self.prop_computer = propcomp.PropCompDiag(self)
 
     def initialize_controls(self, amplitudes, init_tslots=True):
-        # Either the _dyn_gen or _ham names can be used
-        # This assumes that one or other has been set in the configuration
-        self._map_dyn_gen_to_ham()
         Dynamics.initialize_controls(self, amplitudes, init_tslots=init_tslots)
 
-    def _map_dyn_gen_to_ham(self):
-        if self.drift_dyn_gen is None:
-            self.drift_dyn_gen = self.drift_ham
-        else:
-            self.drift_ham = self.drift_dyn_gen
-        if self.ctrl_dyn_gen is None:
-            self.ctrl_dyn_gen = self.ctrl_ham
-        else:
-            self.ctrl_ham = self.ctrl_dyn_gen
-        self._dyn_gen_mapped = True
+    # Either the _dyn_gen or _ham names can be used
+    # The ones set last are used, whichever name was used to set them
+    @property
+    def drift_ham(self):
+        return self.drift_dyn_gen
+
+    @drift_ham.setter
+    def drift_ham(self, value):
+        self.drift_dyn_gen = value
 
     @property
-    def num_ctrls(self):
-        if not self._dyn_gen_mapped:
-            self._map_dyn_gen_to_ham()
-        if self._num_ctrls is None:
-            self._num_ctrls = self._get_num_ctrls()
-        return self._num_ctrls
+    def ctrl_ham(self):
+        return self.ctrl_dyn_gen
+
+    @ctrl_ham.setter
+    def ctrl_ham(self, value):
+        self.ctrl_dyn_gen = value
 
     def _get_onto_evo_target(self):
         """
-- 
2.43.0


From f4a98d5818b194224b978c2853cf204cf2be32e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:12 +0000
Subject: [PATCH 75/80] fix: combined Hamiltonians of the timeslots are
 available as H

---
 src/qutip_qtrl/dynamics.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/qutip_qtrl/dynamics.py b/src/qutip_qtrl/dynamics.py
index d78000e..db3f7b6 100644
--- a/src/qutip_qtrl/dynamics.py
+++ b/src/qutip_qtrl/dynamics.py
@@ -1569,7 +1569,6 @@ class DynamicsUnitary(Dynamics):
     def reset(self):
         Dynamics.reset(self)
         self.id_text = "UNIT"
-        self.H = None
         self._dyn_gen_phase = -1j
         self._phase_application = "preop"
         self.apply_params()
@@ -1611,6 +1610,10 @@ class DynamicsUnitary(Dynamics):
     def ctrl_ham(self, value):
         self.ctrl_dyn_gen = value
 
+    @property
+    def H(self):
+        return self.dyn_gen
+
     def _get_onto_evo_target(self):
         """
         Get the adjoint of the target.
-- 
2.43.0


From 135b7fcccd28d363cbdfb4ac57b0f139cf4097c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:28 +0000
Subject: [PATCH 76/80] fix: symplectic phase follows the dimension of the
 system

---
 src/qutip_qtrl/dynamics.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/qutip_qtrl/dynamics.py b/src/qutip_qtrl/dynamics.py
index db3f7b6..11d6648 100644
--- a/src/qutip_qtrl/dynamics.py
+++ b/src/qutip_qtrl/dynamics.py
@@ -1827,13 +1827,20 @@ class DynamicsSymplectic(Dynamics):
         return self._omega
 
     def _init_phase(self):
-        # The operator data type may have changed since the phase was created
+        # The operator data type or the dimensions of the system may have
+        # changed since the phase was created
         if self._omega is not None and (
             isinstance(self._omega, Qobj) != (self.oper_dtype == Qobj)
+            or self._omega.shape != tuple(self.dyn_shape)
+            or (
+                isinstance(self._omega, Qobj)
+                and self._omega.dims != self.dyn_dims
+            )
         ):
             self._omega = None
             if self._phase_application != "custom":
                 self._dyn_gen_phase = None
+        self._omega_qobj = None
         Dynamics._init_phase(self)
 
     def _set_phase_application(self, value):
-- 
2.43.0


From 9f6f6ef48c708dea4f32a03abfe80e3ce7866720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:02 +0000
Subject: [PATCH 77/80] fix: default scale factor of the trace difference
 follows the dimension

---
 src/qutip_qtrl/fidcomp.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/qutip_qtrl/fidcomp.py b/src/qutip_qtrl/fidcomp.py
index 126c7cf..7fda458 100644
--- a/src/qutip_qtrl/fidcomp.py
+++ b/src/qutip_qtrl/fidcomp.py
@@ -580,13 +580,25 @@ class FidCompTraceDiff(FidelityComputer):
             )
         self.apply_params()
 
+    @property
+    def scale_factor(self):
+        return self._scale_factor
+
+    @scale_factor.setter
+    def scale_factor(self, value):
+        self._scale_factor = value
+        # Whether this is the default for the dimension of the dynamics,
+        # which may change until the next initialisation
+        self._scale_factor_calculated = False
+
     def init_comp(self):
         """
         initialises the computer based on the configuration of the Dynamics
         Calculates the scale_factor is not already set
         """
-        if self.scale_factor is None:
-            self.scale_factor = 1.0 / (2.0 * self.parent.get_drift_dim())
+        if self._scale_factor is None or self._scale_factor_calculated:
+            self._scale_factor = 1.0 / (2.0 * self.parent.get_drift_dim())
+            self._scale_factor_calculated = True
             if self.log_level <= logging.DEBUG:
                 logger.debug(
                     "Scale factor calculated as {}".format(self.scale_factor)
-- 
2.43.0


From 14f31251006dc73a7a94b9c2f1b9f22d9c288d6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:53 +0000
Subject: [PATCH 78/80] fix: infinite pulse bounds set after the first pulse

---
 src/qutip_qtrl/pulsegen.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/qutip_qtrl/pulsegen.py b/src/qutip_qtrl/pulsegen.py
index 2cbdc2d..7d00746 100644
--- a/src/qutip_qtrl/pulsegen.py
+++ b/src/qutip_qtrl/pulsegen.py
@@ -271,6 +271,12 @@ class PulseGen:
         (after applying the offset)
         Assumes that pulses passed are centered around zero (on average)
         """
+        # The bounds may have been set since the pulse was initialised
+        if self.lbound is not None and np.isinf(self.lbound):
+            self.lbound = None
+        if self.ubound is not None and np.isinf(self.ubound):
+            self.ubound = None
+
         if self.lbound is None and self.ubound is None:
             return pulse + self.offset
 
-- 
2.43.0


From 529ba4c867c01787fa764b0ead9b3b912665bf0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:23 +0000
Subject: [PATCH 79/80] fix: parameters of the initial pulse are applied after
 the scaling and offset

---
 src/qutip_qtrl/pulseoptim.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/qutip_qtrl/pulseoptim.py b/src/qutip_qtrl/pulseoptim.py
index 2d09712..437290f 100644
--- a/src/qutip_qtrl/pulseoptim.py
+++ b/src/qutip_qtrl/pulseoptim.py
@@ -2136,8 +2136,12 @@ def create_pulse_optimizer(
         )
         pgen.scaling = pulse_scaling
         pgen.offset = pulse_offset
-        pgen.lbound = amp_lbound
-        pgen.ubound = amp_ubound
+        # The parameters specific to the pulse take precedence
+        pgen.apply_params(init_pulse_params)
+        if amp_lbound is not None:
+            pgen.lbound = amp_lbound
+        if amp_ubound is not None:
+            pgen.ubound = amp_ubound
 
         optim.pulse_generator = pgen
 
-- 
2.43.0


From ede13d967a7ec0099ab18c034c48cf48956e44ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:02 +0000
Subject: [PATCH 80/80] fix: coefficients given to an uninitialised CRAB pulse
 generator are lost

---
 src/qutip_qtrl/pulsegen.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/qutip_qtrl/pulsegen.py b/src/qutip_qtrl/pulsegen.py
index 7d00746..af0da75 100644
--- a/src/qutip_qtrl/pulsegen.py
+++ b/src/qutip_qtrl/pulsegen.py
@@ -1332,12 +1332,12 @@ class PulseGenCrabFourier(PulseGenCrab):
             If given this overides the default and sets the attribute
             of the same name.
         """
-        if coeffs is not None:
-            self.coeffs = coeffs
-
         if not self._pulse_initialised:
             self.init_pulse()
 
+        if coeffs is not None:
+            self.set_coeffs(coeffs)
+
         pulse = np.zeros(self.num_tslots)
 
         for i in range(self.num_coeffs):
-- 
2.43.0

