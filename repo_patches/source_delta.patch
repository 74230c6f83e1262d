From 2d34f6cea81fa870b73b4e18f9716629f6bae295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:09 +0000
Subject: [PATCH 01/37] fix: keep evaluation points inside the bounds exactly

Adding the base point back (or un-scaling) could round to one ulp outside
[lower, upper]. Clip in absolute coordinates, and choose the scaling factor so
that un-scaling 1 never exceeds the upper bound.
---
 dfols/model.py  | 10 ++++++----
 dfols/solver.py |  7 ++++++-
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/dfols/model.py b/dfols/model.py
index e10c5e0..83fca05 100644
--- a/dfols/model.py
+++ b/dfols/model.py
@@ -70,6 +70,8 @@ class Model(object):
         self.xbase = x0.copy()
         self.sl = xl - self.xbase  # lower bound w.r.t. xbase (require xpt >= sl)
         self.su = xu - self.xbase  # upper bound w.r.t. xbase (require xpt <= su)
+        self.xl = xl.copy()  # lower bound in absolute coordinates (does not change with xbase)
+        self.xu = xu.copy()  # upper bound in absolute coordinates (does not change with xbase)
         self.projections = projections
         self.points = np.zeros((npt, n))  # interpolation points w.r.t. xbase
 
@@ -139,9 +141,7 @@ class Model(object):
             return np.minimum(np.maximum(self.sl, self.points[k, :].copy()), self.su)
         else:
             # Apply bounds and convert back to absolute coordinates
-            if self.projections:
-                return dykstra(self.projections, self.xbase + self.points[k,:])
-            return self.xbase + np.minimum(np.maximum(self.sl, self.points[k, :]), self.su)
+            return self.as_absolute_coordinates(self.points[k, :])
 
     def rvec(self, k):
         assert 0 <= k < self.npt(), "Invalid index %g" % k
@@ -155,7 +155,9 @@ class Model(object):
         # If x were an interpolation point, get the absolute coordinates of x
         if self.projections:
             return dykstra(self.projections, self.xbase + x)
-        return self.xbase + np.minimum(np.maximum(self.sl, x), self.su)
+        # Adding xbase can round to just outside [xl, xu], so need to enforce the original bounds too
+        xabs = self.xbase + np.minimum(np.maximum(self.sl, x), self.su)
+        return np.minimum(np.maximum(self.xl, xabs), self.xu)
 
     def xpt_directions(self, include_kopt=True):
         if include_kopt:
diff --git a/dfols/solver.py b/dfols/solver.py
index f61d7da..a6ae057 100644
--- a/dfols/solver.py
+++ b/dfols/solver.py
@@ -1002,11 +1002,16 @@ def solve(objfun, x0, h=None, lh=None, prox_uh=None, argsf=(), argsh=(), argspro
     if scaling_within_bounds:
         shift = xl.copy()
         scale = xu - xl
+        # Rounding errors in (xu - xl) mean unscaling 1 may give something slightly larger than xu, so avoid this
+        idx = (shift + scale > xu)
+        while np.any(idx):
+            scale[idx] = np.nextafter(scale[idx], -np.inf)
+            idx = (shift + scale > xu)
         scaling_changes = (shift, scale)
 
     x0 = apply_scaling(x0, scaling_changes)
     xl = apply_scaling(xl, scaling_changes)
-    xu = apply_scaling(xu, scaling_changes)
+    xu = np.minimum(apply_scaling(xu, scaling_changes), 1.0) if scaling_within_bounds else xu
 
     exit_info = None
     # Input & parameter checks
-- 
2.43.0


From a14b02a84e40412c514095fa8d14a0b818852781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:09 +0000
Subject: [PATCH 02/37] fix: save the incumbent's own evaluation number before
 a soft restart

nsamples and eval_num were passed to save_point in the wrong order (and nx is
not the number of the incumbent).
---
 dfols/controller.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dfols/controller.py b/dfols/controller.py
index 4fee084..049503b 100644
--- a/dfols/controller.py
+++ b/dfols/controller.py
@@ -801,8 +801,8 @@ class Controller(object):
             assert rvec_to_save is not None, "Soft restart: specified x_to_save but not rvec_to_save"
             assert nsamples_to_save is not None, "Soft restart: specified x_to_save but not nsamples_to_save"
             self.model.save_point(x_in_abs_coords_to_save, rvec_to_save, nsamples_to_save, self.nx, x_in_abs_coords=True)
-        self.model.save_point(self.model.xopt(abs_coordinates=True), self.model.ropt(), self.nx,
-                              self.model.nsamples[self.model.kopt], x_in_abs_coords=True)
+        self.model.save_point(self.model.xopt(abs_coordinates=True), self.model.ropt(),
+                              self.model.nsamples[self.model.kopt], self.model.eval_num[self.model.kopt], x_in_abs_coords=True)
 
         if self.do_logging:
             module_logger.info("Soft restart [currently, f = %g after %g function evals]" % (self.model.objopt(), self.nf))
-- 
2.43.0


From 9e2436d6a30c86e4d7ee50c94b31fce24a135820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:36 +0000
Subject: [PATCH 03/37] fix: number the starting point of every run correctly

Exit at x0 reported evaluation point 0 and an objective without h(x0); hard
restarts relabelled their first point as evaluation 1; a budget exhausted while
sampling x0 counted the run twice.
---
 dfols/solver.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/dfols/solver.py b/dfols/solver.py
index a6ae057..c0e7116 100644
--- a/dfols/solver.py
+++ b/dfols/solver.py
@@ -150,7 +150,7 @@ class OptimResults(object):
 
 
 def solve_main(objfun, x0, argsf, xl, xu, projections, npt, rhobeg, rhoend, maxfun, nruns_so_far, nf_so_far, nx_so_far, nsamples, params,
-               diagnostic_info, scaling_changes, h=None, lh=None, argsh=(), prox_uh=None, argsprox=None, r0_avg_old=None, r0_nsamples_old=None, default_growing_method_set_by_user=None,
+               diagnostic_info, scaling_changes, h=None, lh=None, argsh=(), prox_uh=None, argsprox=None, r0_avg_old=None, r0_nsamples_old=None, x0_eval_num_old=None, default_growing_method_set_by_user=None,
                do_logging=True, print_progress=False):
     # Evaluate at x0 (keep nf, nx correct and check for f < 1e-12)
     # The hard bit is determining what m = len(r0) should be, and allocating memory appropriately
@@ -176,7 +176,6 @@ def solve_main(objfun, x0, argsf, xl, xu, projections, npt, rhobeg, rhoend, maxf
         for i in range(1, number_of_samples):  # skip first eval - already did this
             if nf >= maxfun:
                 exit_info = ExitInformation(EXIT_MAXFUN_WARNING, "Objective has been called MAXFUN times")
-                nruns_so_far += 1
                 break  # stop evaluating at x0
 
             nf += 1
@@ -189,23 +188,23 @@ def solve_main(objfun, x0, argsf, xl, xu, projections, npt, rhobeg, rhoend, maxf
 
         r0_avg = np.mean(rvec_list[:num_samples_run, :], axis=0)
         # NOTE: modify objvalue here
-        if h is None:
-            if sumsq(r0_avg) <= params("model.abs_tol"):
-                exit_info = ExitInformation(EXIT_SUCCESS, "Objective is sufficiently small")
-        else:
-            if sumsq(r0_avg) + h(remove_scaling(x0, scaling_changes), *argsh)<= params("model.abs_tol"):
-                exit_info = ExitInformation(EXIT_SUCCESS, "Objective is sufficiently small")
+        obj0_avg = sumsq(r0_avg)
+        if h is not None:
+            obj0_avg += h(remove_scaling(x0, scaling_changes), *argsh)
+        if obj0_avg <= params("model.abs_tol"):
+            exit_info = ExitInformation(EXIT_SUCCESS, "Objective is sufficiently small")
 
         if exit_info is not None:
-            xmin_eval_num = 0
-            jacmin_eval_nums = np.array([0], dtype=int)
-            return x0, r0_avg, sumsq(r0_avg), None, num_samples_run, nf, nx, nruns_so_far+1, exit_info, diagnostic_info, xmin_eval_num, jacmin_eval_nums
+            # No Jacobian, so no evaluations used to build it
+            return x0, r0_avg, obj0_avg, None, num_samples_run, nf, nx, nruns_so_far+1, exit_info, diagnostic_info, nx, None
+        x0_eval_num = nx
 
     else:  # have old r0 information (e.g. from previous restart), use this instead
 
         # m = len(r0_avg_old)
         r0_avg = r0_avg_old
         num_samples_run = r0_nsamples_old
+        x0_eval_num = x0_eval_num_old
         nf = nf_so_far
         nx = nx_so_far
     
@@ -224,6 +223,7 @@ def solve_main(objfun, x0, argsf, xl, xu, projections, npt, rhobeg, rhoend, maxf
     # Initialise controller
     control = Controller(objfun, argsf, x0, r0_avg, num_samples_run, xl, xu, projections, npt, rhobeg, rhoend, nf, nx, maxfun,
                          params, scaling_changes, do_logging, h=h, lh=lh, argsh=argsh,  prox_uh=prox_uh, argsprox=argsprox)
+    control.model.eval_num[0] = x0_eval_num  # not always 1, e.g. after a hard restart
 
     # Initialise interpolation set
     number_of_samples = max(nsamples(control.delta, control.rho, 0, nruns_so_far), 1)
@@ -1138,7 +1138,7 @@ def solve(objfun, x0, h=None, lh=None, prox_uh=None, argsf=(), argsh=(), argspro
         if params("restarts.hard.use_old_rk"):
             xmin2, rmin2, objmin2, jacmin2, nsamples2, nf, nx, nruns, exit_info, diagnostic_info, xmin_eval_num2, jacmin_eval_nums2 = \
                 solve_main(objfun, xmin, argsf, xl, xu, projections, npt, rhobeg, rhoend, maxfun, nruns, nf, nx, nsamples, params,
-                            diagnostic_info, scaling_changes, h, lh, argsh, prox_uh, argsprox, r0_avg_old=rmin, r0_nsamples_old=nsamples_min,
+                            diagnostic_info, scaling_changes, h, lh, argsh, prox_uh, argsprox, r0_avg_old=rmin, r0_nsamples_old=nsamples_min, x0_eval_num_old=xmin_eval_num,
                            do_logging=do_logging, print_progress=print_progress)
         else:
             xmin2, rmin2, objmin2, jacmin2, nsamples2, nf, nx, nruns, exit_info, diagnostic_info, xmin_eval_num2, jacmin_eval_nums2 = \
-- 
2.43.0


From edebec83dbcdaf0b6547eb80df5a6a88e6c92f25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:36 +0000
Subject: [PATCH 04/37] fix: evaluate the regulariser at the point that is
 actually evaluated

Stored objectives used h(xbase + x) without the bounds/projections that
as_absolute_coordinates applies to x.
---
 dfols/model.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dfols/model.py b/dfols/model.py
index 83fca05..e2b957e 100644
--- a/dfols/model.py
+++ b/dfols/model.py
@@ -193,7 +193,7 @@ class Model(object):
         self.fval_v[k, :] = rvec.copy()
         self.objval[k] = sumsq(rvec)
         if self.h is not None:
-            self.objval[k] += self.h(remove_scaling(self.xbase + x, self.scaling_changes), *self.argsh)
+            self.objval[k] += self.h(remove_scaling(self.as_absolute_coordinates(x), self.scaling_changes), *self.argsh)
         self.nsamples[k] = 1
         self.eval_num[k] = eval_num
         self.factorisation_current = False
@@ -222,7 +222,7 @@ class Model(object):
         # NOTE: how to sample when we have h? still at xpt(k), then add h(xpt(k)). Modify test if incorrect!
         self.objval[k] = sumsq(self.fval_v[k, :])
         if self.h is not None:
-            self.objval[k] += self.h(remove_scaling(self.xbase + self.points[k, :], self.scaling_changes), *self.argsh)
+            self.objval[k] += self.h(remove_scaling(self.xpt(k, abs_coordinates=True), self.scaling_changes), *self.argsh)
         self.nsamples[k] += 1
 
         self.kopt = np.argmin(self.objval[:self.npt()])  # make sure kopt is always the best value we have
@@ -233,7 +233,7 @@ class Model(object):
         self.fval_v = np.append(self.fval_v, rvec.reshape((1, self.m())), axis=0)  # append row to fval_v
         obj = sumsq(rvec)
         if self.h is not None:
-            obj += self.h(remove_scaling(self.xbase + x, self.scaling_changes), *self.argsh)
+            obj += self.h(remove_scaling(self.as_absolute_coordinates(x), self.scaling_changes), *self.argsh)
         self.objval = np.append(self.objval, obj)  # append entry to fval
         self.nsamples = np.append(self.nsamples, 1)  # add new sample number
         self.eval_num = np.append(self.eval_num, eval_num)  # add new evaluation number
-- 
2.43.0


From ea69a9016260aea87d3eb6ec0b5a5e7038509d03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:36 +0000
Subject: [PATCH 05/37] fix: regularised subproblems must use the bounds in
 absolute coordinates

ctrsbox_sfista is given xopt in absolute coordinates, but projected onto the
bounds relative to the base point.
---
 dfols/controller.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dfols/controller.py b/dfols/controller.py
index 049503b..793ae6b 100644
--- a/dfols/controller.py
+++ b/dfols/controller.py
@@ -494,7 +494,7 @@ class Controller(object):
                                 max_iters=params("func_tol.max_iters"), d_max_iters=params("dykstra.max_iters"), d_tol=params("dykstra.d_tol"),
                                 scaling_changes=self.scaling_changes, sfista_iters_scale=params("sfista.max_iters_scaling"))
         else:
-            proj = lambda x: pbox(x, self.model.sl, self.model.su)
+            proj = lambda x: pbox(x, self.model.xl, self.model.xu)  # in absolute coordinates, like xopt
             d, gnew, crvmin = ctrsbox_sfista(self.model.xopt(abs_coordinates=True), gopt, np.zeros(H.shape), [proj], 1,
                                 self.h, self.lh, self.prox_uh, argsh = self.argsh, argsprox=self.argsprox, func_tol=func_tol, 
                                 max_iters=params("func_tol.max_iters"), d_max_iters=params("dykstra.max_iters"), d_tol=params("dykstra.d_tol"),
@@ -541,7 +541,7 @@ class Controller(object):
             else:
                 # NOTE: alternative way if using trsbox
                 # d, gnew, crvmin = trsbox(self.model.xopt(), gopt, H, self.model.sl, self.model.su, self.delta)
-                proj = lambda x: pbox(x, self.model.sl, self.model.su)
+                proj = lambda x: pbox(x, self.model.xl, self.model.xu)  # in absolute coordinates, like xopt
                 d, gnew, crvmin = ctrsbox_sfista(self.model.xopt(abs_coordinates=True), gopt, H, [proj], self.delta,
                                       self.h, self.lh, self.prox_uh, argsh = self.argsh, argsprox=self.argsprox, func_tol=func_tol,
                                       max_iters=params("func_tol.max_iters"), d_max_iters=params("dykstra.max_iters"), d_tol=params("dykstra.d_tol"),
-- 
2.43.0


From 7851bf567cd91fc3e4dc83a740bb57b4437bd98c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:58 +0000
Subject: [PATCH 06/37] fix: S-FISTA raised TypeError whenever argsprox was not
 empty

---
 dfols/trust_region.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dfols/trust_region.py b/dfols/trust_region.py
index e9159ad..e7327ee 100644
--- a/dfols/trust_region.py
+++ b/dfols/trust_region.py
@@ -143,7 +143,7 @@ def ctrsbox_sfista(xopt, g, H, projections, delta, h, L_h, prox_uh, argsh=(), ar
         prev_d = d.copy()
         prev_t = t
         # gradient_Fu at y
-        g_Fu = gradient_Fu(xopt, g, H, u, prox_uh, d, *argsprox)
+        g_Fu = gradient_Fu(xopt, g, H, u, prox_uh, d)
 
         # main update step
         d = proj(y - g_Fu / l)
@@ -154,7 +154,7 @@ def ctrsbox_sfista(xopt, g, H, projections, delta, h, L_h, prox_uh, argsh=(), ar
 
         # update true gradient
         # gnew is the gradient of the smoothed function
-        gnew = gradient_Fu(xopt, g, H, u, prox_uh, d, *argsprox)
+        gnew = gradient_Fu(xopt, g, H, u, prox_uh, d)
 
         # update CRVMIN
         crv = d.dot(H).dot(d)/sumsq(d) if sumsq(d) >= ZERO_THRESH else crvmin
-- 
2.43.0


From c2fadc0a55b90aa17850f9d09538bd3abb7a4334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:28 +0000
Subject: [PATCH 07/37] fix: parallel initialisation keeps every evaluated
 point and its own number

---
 dfols/controller.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/dfols/controller.py b/dfols/controller.py
index 793ae6b..1290a75 100644
--- a/dfols/controller.py
+++ b/dfols/controller.py
@@ -374,22 +374,26 @@ class Controller(object):
 
                 # Evaluate objective
                 x = self.model.as_absolute_coordinates(new_point)
-                eval_obj_results.append(self.evaluate_objective(x, number_of_samples, params))
+                eval_obj_results.append(self.evaluate_objective(x, number_of_samples, params) + (self.nx,))
 
             for ndirns in range(num_directions):
                 new_point = xopt + dirns[ndirns, :]  # alway base move around best value so far
                 x = self.model.as_absolute_coordinates(new_point)
-                rvec_list, obj_list, num_samples_run, exit_info = eval_obj_results[ndirns]
+                rvec_list, obj_list, num_samples_run, exit_info, eval_num = eval_obj_results[ndirns]
                 # Handle exit conditions (f < min obj value or maxfun reached)
                 if exit_info is not None:
-                    if num_samples_run > 0:
-                        self.model.save_point(x, np.mean(rvec_list[:num_samples_run, :], axis=0), num_samples_run, self.nx,
-                                              x_in_abs_coords=True)
+                    # Save this point and all later ones (already evaluated, but never added to the model)
+                    for j in range(ndirns, num_directions):
+                        rvec_list, obj_list, num_samples_run, _, eval_num = eval_obj_results[j]
+                        if num_samples_run > 0:
+                            x = self.model.as_absolute_coordinates(xopt + dirns[j, :])
+                            self.model.save_point(x, np.mean(rvec_list[:num_samples_run, :], axis=0), num_samples_run, eval_num,
+                                                  x_in_abs_coords=True)
                     return exit_info  # return & quit
 
                 # Otherwise, add new results (increments model.npt_so_far)
                 self.model.change_point(1 + ndirns, x - self.model.xbase,
-                                        rvec_list[0, :], self.nx)  # expect step, not absolute x
+                                        rvec_list[0, :], eval_num)  # expect step, not absolute x
                 for i in range(1, num_samples_run):
                     self.model.add_new_sample(1 + ndirns, rvec_extra=rvec_list[i, :])
         else:
-- 
2.43.0


From 32d6d25db262a5874eca1edfff73f4b4098e88da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:32 +0000
Subject: [PATCH 08/37] fix: keep a trial point when the run ends right after
 evaluating it

The trial point was dropped when the trust-region step gave a model increase,
or when choosing the point to replace failed.
---
 dfols/controller.py | 3 +++
 dfols/solver.py     | 6 ++++++
 2 files changed, 9 insertions(+)

diff --git a/dfols/controller.py b/dfols/controller.py
index 1290a75..2462a6e 100644
--- a/dfols/controller.py
+++ b/dfols/controller.py
@@ -454,6 +454,9 @@ class Controller(object):
                 kmin, linalg_error = self.choose_point_to_replace(xnew - self.model.xopt(), skip_kopt=True)
 
                 if linalg_error:
+                    # Not adding this point to the model, but don't forget it
+                    self.model.save_point(x, np.mean(rvec_list[:num_samples_run, :], axis=0), num_samples_run, self.nx,
+                                          x_in_abs_coords=True)
                     exit_info = ExitInformation(EXIT_LINALG_ERROR, "Singular matrix when finding kmin (in main loop)")
                     return exit_info  # return & quit
 
diff --git a/dfols/solver.py b/dfols/solver.py
index c0e7116..e4dc195 100644
--- a/dfols/solver.py
+++ b/dfols/solver.py
@@ -613,6 +613,9 @@ def solve_main(objfun, x0, argsf, xl, xu, projections, npt, rhobeg, rhoend, maxf
             # Estimate f in order to compute 'actual reduction'
             ratio, exit_info = control.calculate_ratio(control.model.xopt(abs_coordinates=True), current_iter, rvec_list[:num_samples_run, :], d, gopt, H)
             if exit_info is not None:
+                # Not adding this point to the model, but don't forget it
+                control.model.save_point(x, np.mean(rvec_list[:num_samples_run, :], axis=0), num_samples_run, control.nx,
+                                         x_in_abs_coords=True)
                 if exit_info.able_to_do_restart() and params("restarts.use_restarts") and params(
                         "restarts.use_soft_restarts"):
                     number_of_samples = max(nsamples(control.delta, control.rho, current_iter, nruns_so_far), 1)
@@ -667,6 +670,9 @@ def solve_main(objfun, x0, argsf, xl, xu, projections, npt, rhobeg, rhoend, maxf
                 # Re-select knew, allowing knew=kopt this time
                 knew, exit_info = control.choose_point_to_replace(d, skip_kopt=False)
                 if exit_info is not None:
+                    # Not adding this point to the model, but don't forget it
+                    control.model.save_point(x, np.mean(rvec_list[:num_samples_run, :], axis=0), num_samples_run, control.nx,
+                                             x_in_abs_coords=True)
                     if exit_info.able_to_do_restart() and params("restarts.use_restarts") and params(
                             "restarts.use_soft_restarts"):
                         number_of_samples = max(nsamples(control.delta, control.rho, current_iter, nruns_so_far), 1)
-- 
2.43.0


From fa56a6744240cd1a0afb35d7d0c6b5e7348bca6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:23 +0000
Subject: [PATCH 09/37] fix: NaN objective values never displace a finite
 incumbent or saved point

---
 dfols/model.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/dfols/model.py b/dfols/model.py
index e2b957e..2174185 100644
--- a/dfols/model.py
+++ b/dfols/model.py
@@ -198,7 +198,7 @@ class Model(object):
         self.eval_num[k] = eval_num
         self.factorisation_current = False
 
-        if allow_kopt_update and self.objval[k] < self.objopt():
+        if allow_kopt_update and (self.objval[k] < self.objopt() or np.isnan(self.objopt())):
             self.kopt = k
         return
 
@@ -225,7 +225,9 @@ class Model(object):
             self.objval[k] += self.h(remove_scaling(self.xpt(k, abs_coordinates=True), self.scaling_changes), *self.argsh)
         self.nsamples[k] += 1
 
-        self.kopt = np.argmin(self.objval[:self.npt()])  # make sure kopt is always the best value we have
+        # Make sure kopt is always the best value we have (never choose NaN, unless this is all we have)
+        if not np.all(np.isnan(self.objval[:self.npt()])):
+            self.kopt = np.nanargmin(self.objval[:self.npt()])
         return
 
     def add_new_point(self, x, rvec, eval_num):
@@ -240,7 +242,7 @@ class Model(object):
         self.num_pts += 1  # make sure npt is updated
         self.npt_so_far += 1
 
-        if obj < self.objopt():
+        if obj < self.objopt() or np.isnan(self.objopt()):
             self.kopt = self.npt() - 1
 
         self.factorisation_current = False
@@ -264,7 +266,7 @@ class Model(object):
         obj = sumsq(rvec)
         if self.h is not None:
             obj += self.h(remove_scaling(xabs, self.scaling_changes), *self.argsh)
-        if self.objsave is None or obj <= self.objsave:
+        if self.objsave is None or obj <= self.objsave or np.isnan(self.objsave):
             self.xsave = xabs
             self.rsave = rvec.copy()
             self.objsave = obj
@@ -278,7 +280,7 @@ class Model(object):
 
     def get_final_results(self):
         # Return x and objval for optimal point (either from xsave+objsave or kopt)
-        if self.objsave is None or self.objopt() <= self.objsave:  # optimal has changed since xsave+objsave were last set
+        if self.objsave is None or self.objopt() <= self.objsave or np.isnan(self.objsave):  # optimal has changed since xsave+objsave were last set
             return self.xopt(abs_coordinates=True).copy(), self.ropt().copy(), self.objopt(), self.model_jac.copy(), self.nsamples[self.kopt], self.eval_num[self.kopt], self.model_jac_eval_nums
         else:
             return self.xsave.copy(), self.rsave.copy(), self.objsave, self.jacsave, self.nsamples_save, self.eval_num_save, self.jacsave_eval_nums
-- 
2.43.0


From 8bb056126ac2e1476be8b0787d79d03f6cf6c45f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:23 +0000
Subject: [PATCH 10/37] fix: swap_points must swap the sample counts too

---
 dfols/model.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dfols/model.py b/dfols/model.py
index 2174185..fc465fe 100644
--- a/dfols/model.py
+++ b/dfols/model.py
@@ -206,6 +206,7 @@ class Model(object):
         self.points[[k1, k2], :] = self.points[[k2, k1], :]
         self.fval_v[[k1, k2], :] = self.fval_v[[k2, k1], :]
         self.objval[[k1, k2]] = self.objval[[k2, k1]]
+        self.nsamples[[k1, k2]] = self.nsamples[[k2, k1]]
         self.eval_num[[k1, k2]] = self.eval_num[[k2, k1]]
         if self.kopt == k1:
             self.kopt = k2
-- 
2.43.0


From e6eaed4af6bb9c9d40f6b1ca3793e4a5d581cab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:49 +0000
Subject: [PATCH 11/37] fix: input errors return a result, and all documented
 exit codes are exposed

---
 dfols/controller.py | 2 +-
 dfols/solver.py     | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/dfols/controller.py b/dfols/controller.py
index 2462a6e..fb25772 100644
--- a/dfols/controller.py
+++ b/dfols/controller.py
@@ -41,7 +41,7 @@ from .util import *
 
 __all__ = ['Controller', 'ExitInformation', 'EXIT_SLOW_WARNING', 'EXIT_MAXFUN_WARNING', 'EXIT_SUCCESS',
            'EXIT_INPUT_ERROR', 'EXIT_TR_INCREASE_ERROR', 'EXIT_LINALG_ERROR', 'EXIT_FALSE_SUCCESS_WARNING',
-           'EXIT_AUTO_DETECT_RESTART_WARNING', 'EXIT_EVAL_ERROR']
+           'EXIT_AUTO_DETECT_RESTART_WARNING', 'EXIT_EVAL_ERROR', 'EXIT_TR_INCREASE_WARNING']
 
 module_logger = logging.getLogger(__name__) 
 
diff --git a/dfols/solver.py b/dfols/solver.py
index e4dc195..9c3e4b3 100644
--- a/dfols/solver.py
+++ b/dfols/solver.py
@@ -70,6 +70,8 @@ class OptimResults(object):
         self.EXIT_TR_INCREASE_ERROR = EXIT_TR_INCREASE_ERROR
         self.EXIT_LINALG_ERROR = EXIT_LINALG_ERROR
         self.EXIT_FALSE_SUCCESS_WARNING = EXIT_FALSE_SUCCESS_WARNING
+        self.EXIT_TR_INCREASE_WARNING = EXIT_TR_INCREASE_WARNING
+        self.EXIT_EVAL_ERROR = EXIT_EVAL_ERROR
 
     def __str__(self):
         # Result of calling print(soln)
@@ -1097,7 +1099,7 @@ def solve(objfun, x0, h=None, lh=None, prox_uh=None, argsf=(), argsh=(), argspro
     if exit_info is not None:
         exit_flag = exit_info.flag
         exit_msg = exit_info.message(with_stem=True)
-        results = OptimResults(None, None, None, None, 0, 0, 0, exit_flag, exit_msg)
+        results = OptimResults(None, None, None, None, 0, 0, 0, exit_flag, exit_msg, None, None)
         return results
 
     # Enforce arbitrary constraint bounds on x0
-- 
2.43.0


From 4bffbc91d8f2ffc5dced450f80d6924b30656b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:22 +0000
Subject: [PATCH 12/37] fix: growing beyond n+1 points has no orthogonal
 direction left to use

---
 dfols/controller.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/dfols/controller.py b/dfols/controller.py
index fb25772..94a2eb3 100644
--- a/dfols/controller.py
+++ b/dfols/controller.py
@@ -430,10 +430,15 @@ class Controller(object):
         # Make direction orthogonal
         Y = self.model.xpt_directions(include_kopt=False).T  # columns are the current set of directions
         Q, R = LA.qr(Y, mode='economic')  # columns of Q are orthonormal basis for current set of directions
+        orthog_dirns = dirns.copy()
         for k in range(Q.shape[1]):
             qk = Q[:, k]
             for j in range(dirns.shape[0]):
-                dirns[j, :] = dirns[j, :] - np.dot(dirns[j, :], qk) * qk
+                orthog_dirns[j, :] = orthog_dirns[j, :] - np.dot(orthog_dirns[j, :], qk) * qk
+        for j in range(dirns.shape[0]):
+            # If the current directions already span the whole space, there is no orthogonal direction to use
+            if LA.norm(orthog_dirns[j, :]) > 1e-8 * LA.norm(dirns[j, :]):
+                dirns[j, :] = orthog_dirns[j, :]
 
         # Evaluate the points
         for j in range(num_steps):
@@ -474,10 +479,14 @@ class Controller(object):
         # Make direction orthogonal
         Y = self.model.xpt_directions(include_kopt=False).T  # columns are the current set of directions
         Q, R = LA.qr(Y, mode='economic')  # columns of Q are orthonormal basis for current set of directions
+        orthog_dirn = dirn.copy()
         for k in range(Q.shape[1]):
             qk = Q[:, k]
-            dirn = dirn - np.dot(dirn, qk) * qk
+            orthog_dirn = orthog_dirn - np.dot(orthog_dirn, qk) * qk
 
+        # If the current directions already span the whole space, there is no orthogonal direction to use
+        if LA.norm(orthog_dirn) > 1e-8 * LA.norm(dirn):
+            dirn = orthog_dirn
         return dirn * (step_length / LA.norm(dirn))
 
     def evaluate_criticality_measure(self, params):
-- 
2.43.0


From c4409c56d75f43d9fd305cc910a6d840cf9c3ee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:45 +0000
Subject: [PATCH 13/37] fix: use the rescaled rhoend when reducing rho after a
 soft restart

---
 dfols/controller.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dfols/controller.py b/dfols/controller.py
index 94a2eb3..4011465 100644
--- a/dfols/controller.py
+++ b/dfols/controller.py
@@ -741,7 +741,7 @@ class Controller(object):
         elif ratio <= 250.0:
             new_rho = sqrt(ratio) * self.rhoend  # geometric average of rho and rhoend
         else:
-            new_rho = alpha1 * self.rho
+            new_rho = max(alpha1 * self.rho, self.rhoend)
 
         self.delta = max(alpha2 * self.rho, new_rho)  # self.rho = old rho
         self.rho = new_rho
@@ -882,6 +882,7 @@ class Controller(object):
 
         # Otherwise, we are doing a restart
         self.last_successful_iter = 0
+        self.rhoend = params("restarts.rhoend_scale") * self.rhoend  # used when reducing rho
         return None  # exit_info = None
 
     def move_furthest_points(self, number_of_samples, num_pts_to_move, params):
-- 
2.43.0


From 5d79bf2e9f4593d3cddd7afa40676f4fc9b3d903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:49 +0000
Subject: [PATCH 14/37] fix: exit flags must describe how the run really ended

---
 dfols/model.py  |  2 ++
 dfols/solver.py | 10 +++++++++-
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/dfols/model.py b/dfols/model.py
index fc465fe..8fd7eac 100644
--- a/dfols/model.py
+++ b/dfols/model.py
@@ -288,6 +288,8 @@ class Model(object):
 
     def min_objective_value(self):
         # Get termination criterion for f small: f <= abs_tol or f <= rel_tol * f0
+        if not np.isfinite(self.objbeg):
+            return self.abs_tol  # no meaningful f0 to compare to
         return max(self.abs_tol, self.rel_tol * self.objbeg)
 
     def model_value(self, d, d_based_at_xopt=True, with_const_term=False):
diff --git a/dfols/solver.py b/dfols/solver.py
index 9c3e4b3..a2ec43c 100644
--- a/dfols/solver.py
+++ b/dfols/solver.py
@@ -1165,8 +1165,16 @@ def solve(objfun, x0, h=None, lh=None, prox_uh=None, argsf=(), argsh=(), argspro
             if do_logging:
                 module_logger.info("Unsuccessful run with new f = %s compared to old f = %s" % (objmin2, objmin))
 
-    if nruns - last_successful_run >= params("restarts.max_unsuccessful_restarts"):
+    if params("restarts.use_restarts") and not params("restarts.use_soft_restarts") and exit_info.able_to_do_restart() and \
+            nruns - last_successful_run >= params("restarts.max_unsuccessful_restarts"):
         exit_info = ExitInformation(EXIT_SUCCESS, "Reached maximum number of unsuccessful restarts")
+    elif exit_info.flag == EXIT_AUTO_DETECT_RESTART_WARNING:
+        # Wanted to restart, but no budget left to do so
+        exit_info = ExitInformation(EXIT_MAXFUN_WARNING, "Objective has been called MAXFUN times")
+
+    # Never claim success if we never found a finite objective value
+    if exit_info.flag == EXIT_SUCCESS and not np.isfinite(objmin):
+        exit_info = ExitInformation(EXIT_EVAL_ERROR, "No finite objective value found")
 
     # Process final return values & package up
     exit_flag = exit_info.flag
-- 
2.43.0


From 9e22ce7f5dcdabd7405eb8b8a65335b06c4aa87a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:23 +0000
Subject: [PATCH 15/37] fix: never call the subproblem solvers or scale delta
 with non-finite values

---
 dfols/controller.py | 19 ++++++++++---------
 dfols/solver.py     | 14 +++++++-------
 2 files changed, 17 insertions(+), 16 deletions(-)

diff --git a/dfols/controller.py b/dfols/controller.py
index 4011465..7879409 100644
--- a/dfols/controller.py
+++ b/dfols/controller.py
@@ -526,19 +526,20 @@ class Controller(object):
         # Build func_tol for trust region step
         # QUESTION: c1 = min{1, 1/delta_max^2}, but choose c1=1here; choose maxhessian = max(||H||_2,1)
         # QUESTION: when criticality_measure = 0? choose max(criticality_measure,1)
-        func_tol = (1-params("func_tol.tr_step")) * 1 * max(criticality_measure,1) * min(self.delta, max(criticality_measure,1) / max(np.linalg.norm(H, 2),1))
+        normH = np.linalg.norm(H, 2) if np.all(np.isfinite(H)) else np.inf
+        func_tol = (1-params("func_tol.tr_step")) * 1 * max(criticality_measure,1) * min(self.delta, max(criticality_measure,1) / max(normH,1))
 
         if self.h is None:
-            if self.model.projections:
+            if not np.all(np.isfinite(gopt)) or not np.all(np.isfinite(H)):
+                # No useful model (this will ultimately lead to calling a safety step anyway)
+                module_logger.debug("nan/inf values in gopt and/or H, skipping trust-region subproblem")
+                d = np.zeros(gopt.shape)
+                gnew = gopt.copy()
+                crvmin = -1
+            elif self.model.projections:
                 # Running PGD/SFISTA is generally slower than trsbox, so don't do this if gopt or H have bad values
                 # (this will ultimately lead to a manual setting of d=0 and calling a safety step anyway)
-                if np.any(np.isnan(gopt)) or np.any(np.isnan(H)) or not np.all(np.isfinite(gopt)) or not np.all(np.isfinite(H)):
-                    module_logger.debug("nan/inf values in gopt and/or H, skipping ctrsbox_pgd")
-                    d = np.zeros(gopt.shape)
-                    gnew = gopt.copy()
-                    crvmin = -1
-                else:
-                    d, gnew, crvmin = ctrsbox_pgd(self.model.xopt(abs_coordinates=True), gopt, H, self.model.projections, self.delta, d_max_iters=params("dykstra.max_iters"), d_tol=params("dykstra.d_tol"))
+                d, gnew, crvmin = ctrsbox_pgd(self.model.xopt(abs_coordinates=True), gopt, H, self.model.projections, self.delta, d_max_iters=params("dykstra.max_iters"), d_tol=params("dykstra.d_tol"))
             else:
                 d, gnew, crvmin = trsbox(self.model.xopt(), gopt, H, self.model.sl, self.model.su, self.delta)
         else:
diff --git a/dfols/solver.py b/dfols/solver.py
index a2ec43c..96e2a00 100644
--- a/dfols/solver.py
+++ b/dfols/solver.py
@@ -342,11 +342,11 @@ def solve_main(objfun, x0, argsf, xl, xu, projections, npt, rhobeg, rhoend, maxf
             criticality_measure = control.evaluate_criticality_measure(params)
             # Trust region step
             d, gopt, H, gnew, crvmin = control.trust_region_step(params, criticality_measure)
-            try:
+            # In some instances, gopt can have nan/inf values -- this ultimately calls a safety step and is generally fine
+            # but we need to set a value for tau nonetheless
+            if np.all(np.isfinite(gopt)) and criticality_measure > 0.0:
                 tau = min(criticality_measure/(LA.norm(gopt)+lh), 1.0)
-            except ValueError:
-                # In some instances, gopt can have nan/inf values -- this ultimately calls a safety step and is generally fine
-                # but we need to set a value for tau nonetheless
+            if not tau > 0.0:
                 tau = 1.0
         
         if do_logging:
@@ -363,7 +363,7 @@ def solve_main(objfun, x0, argsf, xl, xu, projections, npt, rhobeg, rhoend, maxf
                                                    save_poisedness=params("logging.save_poisedness"))
             # norm_J_error is square of Frobenius norm of chgJ
             diagnostic_info.update_interpolation_information(interp_error, ls_interp_cond_num, linalg_resid,
-                                                             sqrt(norm_J_error), LA.norm(gopt), LA.norm(d))
+                                                             sqrt(norm_J_error), np.linalg.norm(gopt), LA.norm(d))
 
         if dnorm < tau * params("general.safety_step_thresh") * control.rho and not finished_growing and params("growing.safety.do_safety_step"):
             if do_logging:
@@ -646,9 +646,9 @@ def solve_main(objfun, x0, argsf, xl, xu, projections, npt, rhobeg, rhoend, maxf
                 diagnostic_info.update_slow_iter(-1)  # n/a, unless otherwise update
             if ratio < params("tr_radius.eta1"):  # ratio < 0.1
                 if finished_growing:
-                    control.delta = min(params("tr_radius.gamma_dec") * control.delta, dnorm) / tau
+                    control.delta = min(min(params("tr_radius.gamma_dec") * control.delta, dnorm) / tau, 1.0e10)
                 else:
-                    control.delta = min(params("growing.gamma_dec") * control.delta, dnorm) / tau  # different gamma_dec
+                    control.delta = min(min(params("growing.gamma_dec") * control.delta, dnorm) / tau, 1.0e10)  # different gamma_dec
                 if params("logging.save_diagnostic_info"):
                     diagnostic_info.update_iter_type(ITER_ACCEPTABLE_NO_GEOM if ratio > 0.0
                                                      else ITER_UNSUCCESSFUL_NO_GEOM)  # we flag geom update below
-- 
2.43.0


From ab667448d8293b176a3ca51b215e0742f430b005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:26 +0000
Subject: [PATCH 16/37] fix: no Jacobian is returned when no model was ever
 built; log of non-positive objective

---
 dfols/controller.py | 7 +++++--
 dfols/solver.py     | 2 ++
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/dfols/controller.py b/dfols/controller.py
index 7879409..f625bd1 100644
--- a/dfols/controller.py
+++ b/dfols/controller.py
@@ -782,8 +782,11 @@ class Controller(object):
             # Enough info - shift values
             self.last_iters_step_taken = self.last_iters_step_taken[1:] + [current_iter]
             self.last_fopts_step_taken = self.last_fopts_step_taken[1:] + [self.model.objopt()]
-            this_iter_slow = (log(self.last_fopts_step_taken[0]) - log(self.model.objopt())) / \
-                             float(params("slow.history_for_slow")) < params("slow.thresh_for_slow")
+            if self.model.objopt() > 0.0:
+                this_iter_slow = (log(self.last_fopts_step_taken[0]) - log(self.model.objopt())) / \
+                                 float(params("slow.history_for_slow")) < params("slow.thresh_for_slow")
+            else:
+                this_iter_slow = False  # log not defined (and cannot be close to a positive limit)
         # Update counter of number of slow iterations
         if this_iter_slow:
             self.num_slow_iters += 1
diff --git a/dfols/solver.py b/dfols/solver.py
index 96e2a00..13d62e6 100644
--- a/dfols/solver.py
+++ b/dfols/solver.py
@@ -942,6 +942,8 @@ def solve_main(objfun, x0, argsf, xl, xu, projections, npt, rhobeg, rhoend, maxf
 
     # Quit & return the important information
     x, rvec, obj, jacmin, nsamples, x_eval_num, jac_eval_nums = control.model.get_final_results()
+    if jac_eval_nums is None:
+        jacmin = None  # never successfully built a model
     if do_logging:
         module_logger.debug("At return from DFO-LS, number of function evals = %i" % nf)
         module_logger.debug("Smallest objective value = %.15g at x = " % obj + str(x))
-- 
2.43.0


From 9ebff1dd5faa119bd44423b2c109203af6a6f925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:12 +0000
Subject: [PATCH 17/37] fix: subproblem solvers with negligible curvature or
 overflowing data

---
 dfols/controller.py   | 8 +++++++-
 dfols/trust_region.py | 6 ++++++
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/dfols/controller.py b/dfols/controller.py
index f625bd1..b2bbb7f 100644
--- a/dfols/controller.py
+++ b/dfols/controller.py
@@ -568,7 +568,13 @@ class Controller(object):
             pred_reduction = self.h(remove_scaling(self.model.xopt(abs_coordinates=True), self.scaling_changes), *self.argsh) - model_value(gopt, H, d, self.model.xopt(abs_coordinates=True), self.h, self.argsh, self.scaling_changes)
             if pred_reduction < 0.0:
                 d = np.zeros(d.shape)
-        
+
+        if not np.all(np.isfinite(d)):
+            # Overflow in the subproblem solver (as above, this will lead to calling a safety step)
+            d = np.zeros(gopt.shape)
+            gnew = gopt.copy()
+            crvmin = -1
+
         return d, gopt, H, gnew, crvmin
 
     def geometry_step(self, knew, adelt, number_of_samples, params):
diff --git a/dfols/trust_region.py b/dfols/trust_region.py
index e7327ee..8b92c35 100644
--- a/dfols/trust_region.py
+++ b/dfols/trust_region.py
@@ -184,6 +184,12 @@ def ctrsbox_pgd(xopt, g, H, projections, delta, d_max_iters=100, d_tol=1e-10, us
 
     # Initial guess of L is norm(Hessian)
     L = np.linalg.norm(H, 2)
+    # Any larger L is fine too, so avoid dividing by zero (or taking much longer steps than needed) if H is negligible
+    normg = np.linalg.norm(g)
+    if normg > 1e8 * delta * L:
+        L = normg / delta
+    if L == 0.0:
+        return d, gnew, crvmin  # constant model
 
     # trust region is a ball of radius delta around xopt
     trproj = lambda w: pball(w, xopt, delta)
-- 
2.43.0


From bcadff7617673855a132cdffe5fb818bf7a272d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:15 +0000
Subject: [PATCH 18/37] fix: initialisation with more points than coordinate
 directions, and with projections

---
 dfols/controller.py | 22 ++++++++++++----------
 dfols/solver.py     |  8 +++++++-
 2 files changed, 19 insertions(+), 11 deletions(-)

diff --git a/dfols/controller.py b/dfols/controller.py
index b2bbb7f..ac7038f 100644
--- a/dfols/controller.py
+++ b/dfols/controller.py
@@ -147,11 +147,13 @@ class Controller(object):
             module_logger.debug("Initialising with coordinate directions")
         # self.model already has x0 evaluated, so only need to initialise the other points
         # num_directions = params("growing.ndirs_initial")
-        assert self.model.num_pts <= (self.n() + 1) * (self.n() + 2) // 2, "prelim: must have npt <= (n+1)(n+2)/2"
+        assert num_directions < (self.n() + 1) * (self.n() + 2) // 2, "prelim: must have ndirs_initial < (n+1)(n+2)/2"
         assert 1 <= num_directions < self.model.num_pts, "Initialisation: must have 1 <= ndirs_initial < npt"
 
 
         if self.model.projections:
+            num_directions = min(num_directions, self.n())  # if we want more points, need to grow the set later
+            rng = np.random.RandomState(0)  # don't depend on (or modify) the global random state
             D = np.zeros((self.n(),self.n()))
             k = 0
             while k < self.n():
@@ -167,7 +169,7 @@ class Controller(object):
             k = 0
             mr_tol = params("matrix_rank.r_tol")
             D_rank, diag = qr_rank(D,tol=mr_tol)
-            while D_rank != num_directions and k < self.n():
+            while D_rank < self.n() and k < self.n():
                 if diag[k] < mr_tol:
                     ek = np.zeros(self.n())
                     ek[k] = 1
@@ -185,9 +187,9 @@ class Controller(object):
 
             # Try random combination of negatives...
             k = 0
-            slctr = np.random.randint(0, 1+1, self.n()) # generate rand binary "selector" array
+            slctr = rng.randint(0, 1+1, self.n()) # generate rand binary "selector" array
             D_rank, diag = qr_rank(D,tol=params("matrix_rank.r_tol"))
-            while D_rank != num_directions and k < 100*self.n():
+            while D_rank < self.n() and k < 100*self.n():
                 if slctr[k%self.n()] == 1: # if selector says make -ve, make -ve
                     ek = np.zeros(self.n())
                     ek[k%self.n()] = 1
@@ -203,17 +205,17 @@ class Controller(object):
                     D_rank = D_rank2
 
                 # Go again
-                slctr = np.random.randint(0, 1+1, self.n())
+                slctr = rng.randint(0, 1+1, self.n())
                 k += 1
 
             # Set still not L.I? Try random directions
             i = 0
             D_rank, diag = qr_rank(D,tol=params("matrix_rank.r_tol"))
-            while D_rank != num_directions and i <= 100*num_directions:
+            while D_rank < self.n() and i <= 100*self.n():
                 k = 0
                 while k < self.n():
                     if diag[k] < mr_tol:
-                        p = np.random.normal(size=self.n())
+                        p = rng.normal(size=self.n())
                         p = p/np.linalg.norm(p)
                         p = np.dot(p,min(1,self.delta))
                         yk = dykstra(self.model.projections, self.model.xbase + p, max_iter=params("dykstra.max_iters"), tol=params("dykstra.d_tol"))
@@ -228,11 +230,11 @@ class Controller(object):
                     k += 1
                 i += 1
 
-            if D_rank != num_directions:
-                raise RuntimeError("Unable to generate suitable initial directions")
+            if D_rank < self.n():
+                return ExitInformation(EXIT_LINALG_ERROR, "Unable to generate suitable initial directions")
 
             # we have a L.I set of interpolation points
-            for k in range(0,self.n()):
+            for k in range(0, num_directions):
                 # Evaluate objective at this new point
                 x = self.model.as_absolute_coordinates(D[k, :])
                 rvec_list, obj_list, num_samples_run, exit_info = self.evaluate_objective(x, number_of_samples, params)
diff --git a/dfols/solver.py b/dfols/solver.py
index 13d62e6..bde35b1 100644
--- a/dfols/solver.py
+++ b/dfols/solver.py
@@ -231,7 +231,9 @@ def solve_main(objfun, x0, argsf, xl, xu, projections, npt, rhobeg, rhoend, maxf
     number_of_samples = max(nsamples(control.delta, control.rho, 0, nruns_so_far), 1)
     num_directions = min(params("growing.ndirs_initial") + params("restarts.hard.increase_ndirs_initial_amt") * nruns_so_far,
                          npt - 1)  # cap at npt
-    if params("init.random_initial_directions"):
+    # If we want more directions than there are coordinate directions (e.g. after increasing npt), need to use random ones
+    if params("init.random_initial_directions") or \
+            (not projections and num_directions >= (len(x0) + 1) * (len(x0) + 2) // 2):
         if do_logging:
             module_logger.info("Initialising (random directions)")
         exit_info = control.initialise_random_directions(number_of_samples, num_directions, params)
@@ -1093,6 +1095,10 @@ def solve(objfun, x0, h=None, lh=None, prox_uh=None, argsf=(), argsh=(), argspro
         exit_info = ExitInformation(EXIT_INPUT_ERROR,
                                     "Parallel initialisation not yet developed for coordinate initial directions")
 
+    if exit_info is None and npt > (n + 1) * (n + 2) // 2 and not params("init.random_initial_directions"):
+        exit_info = ExitInformation(EXIT_INPUT_ERROR,
+                                    "npt > (n+1)(n+2)/2 requires random initial directions")
+
     if exit_info is None and params("growing.reset_rho"):
         if not params("growing.reset_delta"):
             exit_info = ExitInformation(EXIT_INPUT_ERROR, "Growing: if resetting rho, must also reset delta")
-- 
2.43.0


From 58195f976a9675c5bcdee15a99839858819c28f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:31 +0000
Subject: [PATCH 19/37] fix: report unusable bounds, radii and parameter values
 as input errors

---
 dfols/params.py | 19 ++++++++++++++----
 dfols/solver.py | 52 +++++++++++++++++++++++++++++++------------------
 2 files changed, 48 insertions(+), 23 deletions(-)

diff --git a/dfols/params.py b/dfols/params.py
index 7fe9ac2..2aabe88 100644
--- a/dfols/params.py
+++ b/dfols/params.py
@@ -30,6 +30,15 @@ from __future__ import absolute_import, division, print_function, unicode_litera
 
 __all__ = ['ParameterList']
 
+# Limits of allowed ranges which are not themselves allowed values (e.g. leads to division by zero or no progress)
+STRICT_RANGES = {
+    "tr_radius.alpha1": (1.0,),
+    "restarts.rhoend_scale": (0.0,),
+    "growing.delta_scale_new_dirns": (0.0,),
+    "func_tol.criticality_measure": (0.0,),
+    "func_tol.tr_step": (1.0,),
+}
+
 
 class ParameterList(object):
     def __init__(self, n, npt, maxfun, objfun_has_noise=False):
@@ -187,7 +196,7 @@ class ParameterList(object):
         elif key == "model.rel_tol":
             type_str, nonetype_ok, lower, upper = 'float', False, 0.0, 1.0
         elif key == "slow.history_for_slow":
-            type_str, nonetype_ok, lower, upper = 'int', False, 0, None
+            type_str, nonetype_ok, lower, upper = 'int', False, 1, None
         elif key == "slow.thresh_for_slow":
             type_str, nonetype_ok, lower, upper = 'float', False, 0, None
         elif key == "slow.max_slow_iters":
@@ -273,7 +282,7 @@ class ParameterList(object):
         elif key == "dykstra.d_tol":
             type_str, nonetype_ok, lower, upper = 'float', False, 0.0, None
         elif key == "dykstra.max_iters":
-            type_str, nonetype_ok, lower, upper = 'int', False, 0, None
+            type_str, nonetype_ok, lower, upper = 'int', False, 1, None
         elif key == "matrix_rank.r_tol":
             type_str, nonetype_ok, lower, upper = 'float', False, 0.0, None
         elif key == "func_tol.criticality_measure":
@@ -281,7 +290,7 @@ class ParameterList(object):
         elif key == "func_tol.tr_step":
             type_str, nonetype_ok, lower, upper = 'float', False, 0.0, 1.0
         elif key == "func_tol.max_iters":
-            type_str, nonetype_ok, lower, upper = 'int', False, 0, None
+            type_str, nonetype_ok, lower, upper = 'int', False, 1, None
         elif key == "sfista.max_iters_scaling":
             type_str, nonetype_ok, lower, upper = 'float', False, 1.0, None
         else:
@@ -293,6 +302,8 @@ class ParameterList(object):
         if type_str == 'int':
             return check_integer(value, lower=lower, upper=upper, allow_nonetype=nonetype_ok)
         elif type_str == 'float':
+            if isinstance(value, float) and value in STRICT_RANGES.get(key, ()):
+                return False  # value at the end of an open range
             return check_float(value, lower=lower, upper=upper, allow_nonetype=nonetype_ok)
         elif type_str == 'bool':
             return check_bool(value, allow_nonetype=nonetype_ok)
@@ -313,7 +324,7 @@ def check_integer(val, lower=None, upper=None, allow_nonetype=False):
     # Check that val is an integer and (optionally) that lower <= val <= upper
     if val is None:
         return allow_nonetype
-    elif not isinstance(val, int):
+    elif not isinstance(val, int) or isinstance(val, bool):
         return False
     else:  # is integer
         return (lower is None or val >= lower) and (upper is None or val <= upper)
diff --git a/dfols/solver.py b/dfols/solver.py
index bde35b1..247f631 100644
--- a/dfols/solver.py
+++ b/dfols/solver.py
@@ -966,7 +966,7 @@ def solve(objfun, x0, h=None, lh=None, prox_uh=None, argsf=(), argsh=(), argspro
         xl = bounds[0].astype(float) if bounds[0] is not None else None
         xu = bounds[1].astype(float) if bounds[1] is not None else None
 
-    if (xl is None or xu is None) and scaling_within_bounds:
+    if scaling_within_bounds and (xl is None or xu is None or not np.all(np.isfinite(xl)) or not np.all(np.isfinite(xu))):
         scaling_within_bounds = False
         warnings.warn("Ignoring scaling_within_bounds=True for unconstrained problem/1-sided bounds", RuntimeWarning)
 
@@ -987,6 +987,26 @@ def solve(objfun, x0, h=None, lh=None, prox_uh=None, argsf=(), argsh=(), argspro
     if nsamples is None:
         nsamples = lambda delta, rho, iter, nruns: 1  # no averaging
 
+    exit_info = None
+    # Check sizes and ordering first (need these to be sensible for projections and scaling)
+    if exit_info is None and np.shape(x0) != (n,):
+        exit_info = ExitInformation(EXIT_INPUT_ERROR, "x0 must be a vector")
+
+    if exit_info is None and not np.all(np.isfinite(x0)):
+        exit_info = ExitInformation(EXIT_INPUT_ERROR, "x0 must have finite entries")
+
+    if exit_info is None and np.shape(x0) != np.shape(xl):
+        exit_info = ExitInformation(EXIT_INPUT_ERROR, "lower bounds must have same shape as x0")
+
+    if exit_info is None and np.shape(x0) != np.shape(xu):
+        exit_info = ExitInformation(EXIT_INPUT_ERROR, "upper bounds must have same shape as x0")
+
+    if exit_info is None and not np.all(xl <= xu):
+        exit_info = ExitInformation(EXIT_INPUT_ERROR, "lower bounds must not exceed upper bounds")
+
+    if exit_info is None and scaling_within_bounds and not np.all(xl < xu):
+        exit_info = ExitInformation(EXIT_INPUT_ERROR, "gap between lower and upper must be at least 2*rhobeg")
+
     # If using arbitrary constraints, create projection from bounds
     if projections:
         xlb = xl.copy()
@@ -1001,9 +1021,12 @@ def solve(objfun, x0, h=None, lh=None, prox_uh=None, argsf=(), argsh=(), argspro
 
     # Set parameters
     params = ParameterList(int(n), int(npt), int(maxfun), objfun_has_noise=objfun_has_noise)  # make sure int, not np.int
+    bad_none_keys = []
     if user_params is not None:
         for (key, val) in user_params.items():
             params(key, new_value=val)
+            if val is None and not params.check_param(key, val, npt):  # setting to None does nothing, so check here
+                bad_none_keys.append(key)
     
     # Default growing method depends on if m>=n or m<n - need to set this once we know m
     # But should only do this if the user hasn't forced a choice on us
@@ -1011,7 +1034,7 @@ def solve(objfun, x0, h=None, lh=None, prox_uh=None, argsf=(), argsh=(), argspro
         ('growing.full_rank.use_full_rank_interp' in user_params or 'growing.perturb_trust_region_step' in user_params)
 
     scaling_changes = None
-    if scaling_within_bounds:
+    if exit_info is None and scaling_within_bounds:
         shift = xl.copy()
         scale = xu - xl
         # Rounding errors in (xu - xl) mean unscaling 1 may give something slightly larger than xu, so avoid this
@@ -1023,43 +1046,33 @@ def solve(objfun, x0, h=None, lh=None, prox_uh=None, argsf=(), argsh=(), argspro
 
     x0 = apply_scaling(x0, scaling_changes)
     xl = apply_scaling(xl, scaling_changes)
-    xu = np.minimum(apply_scaling(xu, scaling_changes), 1.0) if scaling_within_bounds else xu
+    xu = np.minimum(apply_scaling(xu, scaling_changes), 1.0) if scaling_changes is not None else xu
 
-    exit_info = None
     # Input & parameter checks
     if exit_info is None and h is not None:
         if prox_uh is None:
             exit_info = ExitInformation(EXIT_INPUT_ERROR, "Must provide prox_uh input if h is not None")
         elif lh is None:
             exit_info = ExitInformation(EXIT_INPUT_ERROR, "Must provide lh input if h is not None")
-        elif lh <= 0.0:
+        elif not lh > 0.0:
             exit_info = ExitInformation(EXIT_INPUT_ERROR, "lh must be strictly positive")
 
     if exit_info is None and npt < n + 1:
         exit_info = ExitInformation(EXIT_INPUT_ERROR, "npt must be >= n+1 for linear models with inexact interpolation")
 
-    if exit_info is None and rhobeg <= 0.0:
+    if exit_info is None and not rhobeg > 0.0:
         exit_info = ExitInformation(EXIT_INPUT_ERROR, "rhobeg must be strictly positive")
 
-    if exit_info is None and rhoend <= 0.0:
+    if exit_info is None and not rhoend > 0.0:
         exit_info = ExitInformation(EXIT_INPUT_ERROR, "rhoend must be strictly positive")
 
-    if exit_info is None and rhobeg <= rhoend:
+    if exit_info is None and not rhobeg > rhoend:
         exit_info = ExitInformation(EXIT_INPUT_ERROR, "rhobeg must be > rhoend")
 
     if exit_info is None and maxfun <= 0:
         exit_info = ExitInformation(EXIT_INPUT_ERROR, "maxfun must be strictly positive")
 
-    if exit_info is None and np.shape(x0) != (n,):
-        exit_info = ExitInformation(EXIT_INPUT_ERROR, "x0 must be a vector")
-
-    if exit_info is None and np.shape(x0) != np.shape(xl):
-        exit_info = ExitInformation(EXIT_INPUT_ERROR, "lower bounds must have same shape as x0")
-
-    if exit_info is None and np.shape(x0) != np.shape(xu):
-        exit_info = ExitInformation(EXIT_INPUT_ERROR, "upper bounds must have same shape as x0")
-
-    if exit_info is None and np.min(xu - xl) < 2.0 * rhobeg:
+    if exit_info is None and not np.min(xu - xl) >= 2.0 * rhobeg:
         exit_info = ExitInformation(EXIT_INPUT_ERROR, "gap between lower and upper must be at least 2*rhobeg")
 
     if maxfun <= npt:
@@ -1068,7 +1081,8 @@ def solve(objfun, x0, h=None, lh=None, prox_uh=None, argsf=(), argsh=(), argspro
     # Check invalid parameter values
 
     all_ok, bad_keys = params.check_all_params(npt)
-    if exit_info is None and not all_ok:
+    bad_keys += bad_none_keys
+    if exit_info is None and len(bad_keys) > 0:
         exit_info = ExitInformation(EXIT_INPUT_ERROR, "Bad parameters: %s" % str(bad_keys))
 
     if exit_info is None and params("growing.safety.full_geom_step"):
-- 
2.43.0


From 86c7430fc653396fb59c7c444d369e4733bc62cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:13 +0000
Subject: [PATCH 20/37] fix: use the given Dykstra settings everywhere and
 always project the starting point

---
 dfols/controller.py   | 3 ++-
 dfols/model.py        | 6 ++++--
 dfols/solver.py       | 2 +-
 dfols/trust_region.py | 4 ++--
 4 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/dfols/controller.py b/dfols/controller.py
index ac7038f..d90fbfb 100644
--- a/dfols/controller.py
+++ b/dfols/controller.py
@@ -112,7 +112,8 @@ class Controller(object):
         self.argsprox = argsprox
         self.maxfun = maxfun
         self.model = Model(npt, x0, r0, xl, xu, projections, r0_nsamples, h=self.h, argsh = argsh, precondition=params("interpolation.precondition"),
-                           abs_tol = params("model.abs_tol"), rel_tol = params("model.rel_tol"), do_logging=do_logging, scaling_changes=scaling_changes)
+                           abs_tol = params("model.abs_tol"), rel_tol = params("model.rel_tol"), do_logging=do_logging, scaling_changes=scaling_changes,
+                           dykstra_max_iters=params("dykstra.max_iters"), dykstra_tol=params("dykstra.d_tol"))
         self.nf = nf
         self.nx = nx
         self.rhobeg = rhobeg
diff --git a/dfols/model.py b/dfols/model.py
index 8fd7eac..687136a 100644
--- a/dfols/model.py
+++ b/dfols/model.py
@@ -45,7 +45,7 @@ module_logger = logging.getLogger(__name__)
 
 class Model(object):
     def __init__(self, npt, x0, r0, xl, xu, projections, r0_nsamples, h=None, argsh=(), n=None, m=None, abs_tol=1e-12, rel_tol=1e-20, precondition=True,
-                 do_logging=True, scaling_changes=None):
+                 do_logging=True, scaling_changes=None, dykstra_max_iters=100, dykstra_tol=1e-10):
         if n is None:
             n = len(x0)
         if m is None:
@@ -73,6 +73,8 @@ class Model(object):
         self.xl = xl.copy()  # lower bound in absolute coordinates (does not change with xbase)
         self.xu = xu.copy()  # upper bound in absolute coordinates (does not change with xbase)
         self.projections = projections
+        self.dykstra_max_iters = dykstra_max_iters
+        self.dykstra_tol = dykstra_tol
         self.points = np.zeros((npt, n))  # interpolation points w.r.t. xbase
 
         # Function values
@@ -154,7 +156,7 @@ class Model(object):
     def as_absolute_coordinates(self, x, full_dykstra=False):
         # If x were an interpolation point, get the absolute coordinates of x
         if self.projections:
-            return dykstra(self.projections, self.xbase + x)
+            return dykstra(self.projections, self.xbase + x, max_iter=self.dykstra_max_iters, tol=self.dykstra_tol)
         # Adding xbase can round to just outside [xl, xu], so need to enforce the original bounds too
         xabs = self.xbase + np.minimum(np.maximum(self.sl, x), self.su)
         return np.minimum(np.maximum(self.xl, xabs), self.xu)
diff --git a/dfols/solver.py b/dfols/solver.py
index 247f631..bcfd6f8 100644
--- a/dfols/solver.py
+++ b/dfols/solver.py
@@ -1129,7 +1129,7 @@ def solve(objfun, x0, h=None, lh=None, prox_uh=None, argsf=(), argsh=(), argspro
         xp = dykstra(projections,x0,max_iter=params("dykstra.max_iters"),tol=params("dykstra.d_tol"))
         if not np.allclose(xp,x0):
             warnings.warn("x0 not feasible w.r.t given constraints, adjusting", RuntimeWarning)
-            x0 = xp.copy()
+        x0 = xp.copy()  # even if only slightly infeasible
 
     # Enforce lower & upper bounds on x0
     idx = (x0 < xl)
diff --git a/dfols/trust_region.py b/dfols/trust_region.py
index 8b92c35..e915e45 100644
--- a/dfols/trust_region.py
+++ b/dfols/trust_region.py
@@ -696,8 +696,8 @@ def ctrsbox_geometry(xbase, c, g, projections, Delta, d_max_iters=100, d_tol=1e-
     #   max_s  abs(c + g' * s)
     #   s.t.   xbase + s is is feasible w.r.t constraint set C
     #          ||s|| <= Delta
-    smin = ctrsbox_linear(xbase, g, projections, Delta, d_max_iters=100, d_tol=1e-10, use_fortran=use_fortran)  # minimise g' * s
-    smax = ctrsbox_linear(xbase, -g, projections, Delta, d_max_iters=100, d_tol=1e-10, use_fortran=use_fortran)  # maximise g' * s
+    smin = ctrsbox_linear(xbase, g, projections, Delta, d_max_iters=d_max_iters, d_tol=d_tol, use_fortran=use_fortran)  # minimise g' * s
+    smax = ctrsbox_linear(xbase, -g, projections, Delta, d_max_iters=d_max_iters, d_tol=d_tol, use_fortran=use_fortran)  # maximise g' * s
     if abs(c + np.dot(g, smin)) >= abs(c + np.dot(g, smax)):  # choose the one with largest absolute value
         return smin
     else:
-- 
2.43.0


From 7da991288fba7b119c49797a5e40460ed4ed2e04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:18 +0000
Subject: [PATCH 21/37] fix: random directions no longer than the requested
 length

---
 dfols/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dfols/util.py b/dfols/util.py
index ad51e6c..dd76fd7 100644
--- a/dfols/util.py
+++ b/dfols/util.py
@@ -150,7 +150,7 @@ def random_orthog_directions_within_bounds(num_pts, delta, lower, upper, with_ne
             idx = idx_active[i]
             sign = 1.0 if idx_l[idx] else -1.0  # desired sign of direction shift
             if upper[idx] - lower[idx] > delta:
-                results[idx, n+ninactive+i] = 2.0 * sign * delta
+                results[idx, n+ninactive+i] = 0.5 * sign * delta  # don't reuse length delta (see step 2), or exceed it
             else:
                 results[idx, n + ninactive + i] = 0.5 * sign * (upper[idx] - lower[idx])
                 # To get correct scaling, don't use delta any more (too big), use the scaling as given by upper-lower
-- 
2.43.0


From f25fd66388c1d4f6e6f8dc746681a535f344e352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:20 +0000
Subject: [PATCH 22/37] fix: coincident interpolation points give a singular
 system, not NaN

---
 dfols/model.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dfols/model.py b/dfols/model.py
index 687136a..6557841 100644
--- a/dfols/model.py
+++ b/dfols/model.py
@@ -305,6 +305,8 @@ class Model(object):
         W = np.zeros((self.npt(), self.n()+1))
         if self.precondition:
             approx_delta = sqrt(np.max(self.distances_to_xopt()))  # largest distance to xopt ~ delta
+            if approx_delta == 0.0:  # all points the same, so leave as a singular system
+                approx_delta = 1.0
         else:
             approx_delta = 1.0
 
-- 
2.43.0


From d8486316214628d8a30b11b68daf893a2c915908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:24 +0000
Subject: [PATCH 23/37] fix: diagnostic tables and non-finite values survive a
 strict JSON round trip

---
 dfols/solver.py | 25 ++++++++++++++++++++++---
 dfols/util.py   |  3 +++
 2 files changed, 25 insertions(+), 3 deletions(-)

diff --git a/dfols/solver.py b/dfols/solver.py
index bcfd6f8..61e21d2 100644
--- a/dfols/solver.py
+++ b/dfols/solver.py
@@ -119,7 +119,13 @@ class OptimResults(object):
         soln_dict['nruns'] = int(self.nruns)
         soln_dict['flag'] = int(self.flag)
         soln_dict['msg'] = str(self.msg)
-        soln_dict['diagnostic_info'] = self.diagnostic_info.to_dict() if self.diagnostic_info is not None else None
+        if self.diagnostic_info is not None:
+            soln_dict['diagnostic_info'] = {}
+            for key, col in self.diagnostic_info.to_dict().items():
+                # Columns may have NumPy vectors as entries (xk and rk)
+                soln_dict['diagnostic_info'][key] = {k: v.tolist() if isinstance(v, (np.ndarray, np.generic)) else v for k, v in col.items()}
+        else:
+            soln_dict['diagnostic_info'] = None
         soln_dict['xmin_eval_num'] = int(self.xmin_eval_num)
         soln_dict['jacmin_eval_nums'] = self.jacmin_eval_nums.tolist() if self.jacmin_eval_nums is not None else None
         if replace_nan:
@@ -134,7 +140,7 @@ class OptimResults(object):
         # Note: np.array(mylist, dtype=float) automatically converts None to NaN
         x = np.array(soln_dict['x'], dtype=float) if soln_dict['x'] is not None else None
         resid = np.array(soln_dict['resid'], dtype=float) if soln_dict['resid'] is not None else None
-        obj = soln_dict['obj']
+        obj = float(soln_dict['obj']) if soln_dict['obj'] is not None else float('nan')
         jacobian = np.array(soln_dict['jacobian'], dtype=float) if soln_dict['jacobian'] is not None else None
         nf = soln_dict['nf']
         nx = soln_dict['nx']
@@ -147,7 +153,20 @@ class OptimResults(object):
         soln = OptimResults(x, resid, obj, jacobian, nf, nx, nruns, flag, msg, xmin_eval_num, jacmin_eval_nums)
         
         if soln_dict['diagnostic_info'] is not None:
-            soln.diagnostic_info = pd.DataFrame.from_dict(soln_dict['diagnostic_info'])
+            diagnostic_info = {}
+            for key, col in soln_dict['diagnostic_info'].items():
+                data = []
+                for val in col.values():
+                    if isinstance(val, list):  # xk, rk
+                        val = np.array(val, dtype=float)
+                    elif key != 'iter_type' and val is None:
+                        val = np.nan
+                    elif val == 'Infinity' or val == '-Infinity':
+                        val = float(val)
+                    data.append(val)
+                # JSON converts the row numbers to strings
+                diagnostic_info[key] = pd.Series(data, index=[int(k) for k in col.keys()], dtype=None if data else object)
+            soln.diagnostic_info = pd.DataFrame(diagnostic_info)
         return soln
 
 
diff --git a/dfols/util.py b/dfols/util.py
index dd76fd7..bba9b48 100644
--- a/dfols/util.py
+++ b/dfols/util.py
@@ -273,11 +273,14 @@ def qr_rank(A,tol=1e-15):
 
 def replace_nan_with_none(d):
     # Replace Nan values in a dict/list with None (used for JSON serializing of OptimResults object)
+    # Infinite values are not allowed in strict JSON either, so use strings which float() understands
     if isinstance(d, dict):
         return {k: replace_nan_with_none(v) for k, v in d.items()}
     elif isinstance(d, list):
         return [replace_nan_with_none(i) for i in d]
     elif isinstance(d, float) and math.isnan(d):
         return None
+    elif isinstance(d, float) and math.isinf(d):
+        return "Infinity" if d > 0.0 else "-Infinity"
     else:
         return d
\ No newline at end of file
-- 
2.43.0


From 9fe4e318822690243377afe8458c3ea8543de34c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:03 +0000
Subject: [PATCH 24/37] fix: distances to xopt must use the points with bounds
 applied

---
 dfols/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dfols/model.py b/dfols/model.py
index 6557841..5f99c1d 100644
--- a/dfols/model.py
+++ b/dfols/model.py
@@ -180,7 +180,7 @@ class Model(object):
         sq_distances = np.zeros((self.npt(),))
         xopt = self.xopt()
         for k in range(self.npt()):
-            sq_distances[k] = sumsq(self.points[k, :] - xopt)
+            sq_distances[k] = sumsq(self.xpt(k) - xopt)  # apply bounds, as for xopt
         return sq_distances
 
     def change_point(self, k, x, rvec, eval_num, allow_kopt_update=True):
-- 
2.43.0


From b2fb8b4397ef008643f4c0af016d91bb30834afc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:03 +0000
Subject: [PATCH 25/37] fix: adding a point while still growing must not leave
 an unused row in between

---
 dfols/model.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/dfols/model.py b/dfols/model.py
index 5f99c1d..bcd0041 100644
--- a/dfols/model.py
+++ b/dfols/model.py
@@ -234,14 +234,15 @@ class Model(object):
         return
 
     def add_new_point(self, x, rvec, eval_num):
-        self.points = np.append(self.points, x.reshape((1, self.n())), axis=0)  # append row to xpt
-        self.fval_v = np.append(self.fval_v, rvec.reshape((1, self.m())), axis=0)  # append row to fval_v
+        k = self.npt()  # new row goes after the points we have (which is before the unused rows, if still growing)
+        self.points = np.insert(self.points, k, x, axis=0)  # add row to xpt
+        self.fval_v = np.insert(self.fval_v, k, rvec, axis=0)  # add row to fval_v
         obj = sumsq(rvec)
         if self.h is not None:
             obj += self.h(remove_scaling(self.as_absolute_coordinates(x), self.scaling_changes), *self.argsh)
-        self.objval = np.append(self.objval, obj)  # append entry to fval
-        self.nsamples = np.append(self.nsamples, 1)  # add new sample number
-        self.eval_num = np.append(self.eval_num, eval_num)  # add new evaluation number
+        self.objval = np.insert(self.objval, k, obj)  # add entry to fval
+        self.nsamples = np.insert(self.nsamples, k, 1)  # add new sample number
+        self.eval_num = np.insert(self.eval_num, k, eval_num)  # add new evaluation number
         self.num_pts += 1  # make sure npt is updated
         self.npt_so_far += 1
 
-- 
2.43.0


From c778c8fb77ec959e9de5adfc74a0d06557cb23ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:03 +0000
Subject: [PATCH 26/37] fix: soft restart while still growing has fewer points
 to move

---
 dfols/controller.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dfols/controller.py b/dfols/controller.py
index d90fbfb..762653c 100644
--- a/dfols/controller.py
+++ b/dfols/controller.py
@@ -855,7 +855,7 @@ class Controller(object):
             closest_points = closest_points[1:params("restarts.soft.num_geom_steps")+1]
             upper_limit = self.model.num_pts - 1
 
-        for i in range(min(params("restarts.soft.num_geom_steps"), upper_limit)):
+        for i in range(min(params("restarts.soft.num_geom_steps"), upper_limit, len(closest_points))):
             # Determine which point to update (knew)
             knew = closest_points[i]
 
-- 
2.43.0


From e99f88633783f9fa31ae00e875bce320893db718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:48 +0000
Subject: [PATCH 27/37] fix: restarts.max_npt must also limit restarts made
 while still growing

---
 dfols/controller.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dfols/controller.py b/dfols/controller.py
index 762653c..154261e 100644
--- a/dfols/controller.py
+++ b/dfols/controller.py
@@ -866,8 +866,8 @@ class Controller(object):
                 return exit_info
 
         # Now increase npt, if required
-        if params("restarts.increase_npt") and self.model.npt() < params("restarts.max_npt"):
-            num_pts_to_add = min(params("restarts.increase_npt_amt"), params("restarts.max_npt") - self.model.npt())
+        if params("restarts.increase_npt") and self.model.num_pts < params("restarts.max_npt"):
+            num_pts_to_add = min(params("restarts.increase_npt_amt"), params("restarts.max_npt") - self.model.num_pts)
             # First n points will be random orthogonal directions; the rest will be purely random directions
             # sl <= xopt + dirn <= su   -or equivalently-   sl-xopt <= dirn <= su-xopt
             xopt = self.model.xopt()
-- 
2.43.0


From 226abef651f8e621e01e3b6aca3a688ee06b26da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:06 +0000
Subject: [PATCH 28/37] fix: an increase is never a very successful step, even
 if no reduction was predicted

---
 dfols/controller.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dfols/controller.py b/dfols/controller.py
index 154261e..fb7c7ec 100644
--- a/dfols/controller.py
+++ b/dfols/controller.py
@@ -778,6 +778,8 @@ class Controller(object):
                 exit_info = ExitInformation(EXIT_TR_INCREASE_WARNING, "Either multiple constraints are active or trust region step gave model increase")
             else:
                 exit_info = ExitInformation(EXIT_TR_INCREASE_ERROR, "Trust region step gave model increase")
+        if pred_reduction == 0.0:
+            pred_reduction = 0.0  # may be -0.0, which gives the ratio the wrong sign
         ratio = actual_reduction / pred_reduction
         return ratio, exit_info
 
-- 
2.43.0


From a93d57fec3078e1aaee64dfebe02d46d313a0c7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:06 +0000
Subject: [PATCH 29/37] fix: actual reduction uses the regulariser at the
 evaluated point

---
 dfols/controller.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dfols/controller.py b/dfols/controller.py
index fb7c7ec..38d47da 100644
--- a/dfols/controller.py
+++ b/dfols/controller.py
@@ -765,8 +765,9 @@ class Controller(object):
         # pred_reduction = - calculate_model_value(gopt, H, d)
         pred_reduction = - model_value(gopt, H, d)
         if self.h is not None:
-            # QUESTION: x+d here correct? rvec_list takes mean value
-            obj += self.h(remove_scaling(x+d, self.scaling_changes), *self.argsh) 
+            # use the point which was evaluated (x+d may be outside the bounds)
+            xnew = self.model.as_absolute_coordinates(self.model.xopt() + d)
+            obj += self.h(remove_scaling(xnew, self.scaling_changes), *self.argsh)
             # since m(0) = h(x)
             pred_reduction = self.h(remove_scaling(x, self.scaling_changes), *self.argsh) - model_value(gopt, H, d, x, self.h, self.argsh, self.scaling_changes)
         actual_reduction = self.model.objopt() - obj
-- 
2.43.0


From 2e81fbfda1caf821b0dd36a1f2bb6b4f29926018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:11 +0000
Subject: [PATCH 30/37] fix: soft restart with restarts.increase_npt_amt = 0
 adds no points

---
 dfols/controller.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dfols/controller.py b/dfols/controller.py
index 38d47da..58c4d62 100644
--- a/dfols/controller.py
+++ b/dfols/controller.py
@@ -874,8 +874,9 @@ class Controller(object):
             # First n points will be random orthogonal directions; the rest will be purely random directions
             # sl <= xopt + dirn <= su   -or equivalently-   sl-xopt <= dirn <= su-xopt
             xopt = self.model.xopt()
-            dirns = random_directions_within_bounds(num_pts_to_add, self.delta, self.model.sl - xopt,
-                                                    self.model.su - xopt)
+            if num_pts_to_add > 0:
+                dirns = random_directions_within_bounds(num_pts_to_add, self.delta, self.model.sl - xopt,
+                                                        self.model.su - xopt)
             for i in range(num_pts_to_add):
                 xnew = self.model.xopt() + dirns[i, :]  # always base move around best value so far
                 x = self.model.as_absolute_coordinates(xnew)
-- 
2.43.0


From f6120414c924926d6cd439a56018011dad5c5997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:49 +0000
Subject: [PATCH 31/37] fix: resampling may move the incumbent, so the
 interpolation matrix must be refactorised

---
 dfols/model.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dfols/model.py b/dfols/model.py
index bcd0041..8929019 100644
--- a/dfols/model.py
+++ b/dfols/model.py
@@ -231,6 +231,7 @@ class Model(object):
         # Make sure kopt is always the best value we have (never choose NaN, unless this is all we have)
         if not np.all(np.isnan(self.objval[:self.npt()])):
             self.kopt = np.nanargmin(self.objval[:self.npt()])
+        self.factorisation_current = False  # interpolation matrix is centred at xopt, which may have changed
         return
 
     def add_new_point(self, x, rvec, eval_num):
-- 
2.43.0


From a532ac46e1348d0beec012f65c59463095e7c8bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:03 +0000
Subject: [PATCH 32/37] fix: full-rank completion of the Jacobian keeps the
 model value at the current iterate

---
 dfols/model.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dfols/model.py b/dfols/model.py
index 8929019..0520397 100644
--- a/dfols/model.py
+++ b/dfols/model.py
@@ -406,6 +406,7 @@ class Model(object):
             s = np.maximum(s, floor_val)
             S = LA.diagsvd(s, k, k)  # s from vector to matrix of correct shape
             self.model_jac = np.dot(U, np.dot(S, Vt))  # reconstruct J from new svd
+            self.model_const = dg[0,:] - np.dot(self.model_jac, xopt)  # keep model value at xopt
 
         interp_error = 0.0
         if verbose:
-- 
2.43.0


From 0d21f9c8922956e705d120de5f69ad9afd12488d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:17 +0000
Subject: [PATCH 33/37] fix: hard restarts measure rel_tol against the original
 f(x0)

---
 dfols/solver.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/dfols/solver.py b/dfols/solver.py
index 61e21d2..9698991 100644
--- a/dfols/solver.py
+++ b/dfols/solver.py
@@ -171,7 +171,7 @@ class OptimResults(object):
 
 
 def solve_main(objfun, x0, argsf, xl, xu, projections, npt, rhobeg, rhoend, maxfun, nruns_so_far, nf_so_far, nx_so_far, nsamples, params,
-               diagnostic_info, scaling_changes, h=None, lh=None, argsh=(), prox_uh=None, argsprox=None, r0_avg_old=None, r0_nsamples_old=None, x0_eval_num_old=None, default_growing_method_set_by_user=None,
+               diagnostic_info, scaling_changes, h=None, lh=None, argsh=(), prox_uh=None, argsprox=None, r0_avg_old=None, r0_nsamples_old=None, x0_eval_num_old=None, obj0_old=None, default_growing_method_set_by_user=None,
                do_logging=True, print_progress=False):
     # Evaluate at x0 (keep nf, nx correct and check for f < 1e-12)
     # The hard bit is determining what m = len(r0) should be, and allocating memory appropriately
@@ -217,7 +217,7 @@ def solve_main(objfun, x0, argsf, xl, xu, projections, npt, rhobeg, rhoend, maxf
 
         if exit_info is not None:
             # No Jacobian, so no evaluations used to build it
-            return x0, r0_avg, obj0_avg, None, num_samples_run, nf, nx, nruns_so_far+1, exit_info, diagnostic_info, nx, None
+            return x0, r0_avg, obj0_avg, None, num_samples_run, nf, nx, nruns_so_far+1, exit_info, diagnostic_info, nx, None, obj0_avg
         x0_eval_num = nx
 
     else:  # have old r0 information (e.g. from previous restart), use this instead
@@ -245,6 +245,8 @@ def solve_main(objfun, x0, argsf, xl, xu, projections, npt, rhobeg, rhoend, maxf
     control = Controller(objfun, argsf, x0, r0_avg, num_samples_run, xl, xu, projections, npt, rhobeg, rhoend, nf, nx, maxfun,
                          params, scaling_changes, do_logging, h=h, lh=lh, argsh=argsh,  prox_uh=prox_uh, argsprox=argsprox)
     control.model.eval_num[0] = x0_eval_num  # not always 1, e.g. after a hard restart
+    if obj0_old is not None:
+        control.model.objbeg = obj0_old  # after a hard restart, keep measuring the reduction from the original f(x0)
 
     # Initialise interpolation set
     number_of_samples = max(nsamples(control.delta, control.rho, 0, nruns_so_far), 1)
@@ -262,7 +264,7 @@ def solve_main(objfun, x0, argsf, xl, xu, projections, npt, rhobeg, rhoend, maxf
         exit_info = control.initialise_coordinate_directions(number_of_samples, num_directions, params)
     if exit_info is not None:
         x, rvec, obj, jacmin, nsamples, x_eval_num, jac_eval_nums = control.model.get_final_results()
-        return x, rvec, obj, None, nsamples, control.nf, control.nx, nruns_so_far + 1, exit_info, diagnostic_info, x_eval_num, jac_eval_nums
+        return x, rvec, obj, None, nsamples, control.nf, control.nx, nruns_so_far + 1, exit_info, diagnostic_info, x_eval_num, jac_eval_nums, control.model.objbeg
 
     finished_growing = (control.model.npt() >= control.model.num_pts)  # have we finished growing the initial set yet?
 
@@ -968,7 +970,7 @@ def solve_main(objfun, x0, argsf, xl, xu, projections, npt, rhobeg, rhoend, maxf
     if do_logging:
         module_logger.debug("At return from DFO-LS, number of function evals = %i" % nf)
         module_logger.debug("Smallest objective value = %.15g at x = " % obj + str(x))
-    return x, rvec, obj, jacmin, nsamples, control.nf, control.nx, nruns_so_far, exit_info, diagnostic_info, x_eval_num, jac_eval_nums
+    return x, rvec, obj, jacmin, nsamples, control.nf, control.nx, nruns_so_far, exit_info, diagnostic_info, x_eval_num, jac_eval_nums, control.model.objbeg
 
 
 def solve(objfun, x0, h=None, lh=None, prox_uh=None, argsf=(), argsh=(), argsprox=(), bounds=None, projections=[], npt=None, rhobeg=None, rhoend=1e-8, maxfun=None, nsamples=None, user_params=None,
@@ -1166,7 +1168,7 @@ def solve(objfun, x0, h=None, lh=None, prox_uh=None, argsf=(), argsh=(), argspro
     nruns = 0
     nf = 0
     nx = 0
-    xmin, rmin, objmin, jacmin, nsamples_min, nf, nx, nruns, exit_info, diagnostic_info, xmin_eval_num, jacmin_eval_nums = \
+    xmin, rmin, objmin, jacmin, nsamples_min, nf, nx, nruns, exit_info, diagnostic_info, xmin_eval_num, jacmin_eval_nums, obj0 = \
         solve_main(objfun, x0, argsf, xl, xu, projections, npt, rhobeg, rhoend, maxfun, nruns, nf, nx, nsamples, params,
                     diagnostic_info, scaling_changes, h, lh, argsh, prox_uh, argsprox, default_growing_method_set_by_user=default_growing_method_set_by_user,
                    do_logging=do_logging, print_progress=print_progress)
@@ -1185,14 +1187,14 @@ def solve(objfun, x0, h=None, lh=None, prox_uh=None, argsf=(), argsh=(), argspro
             module_logger.info("Restarting from finish point (f = %g) after %g function evals; using rhobeg = %g and rhoend = %g"
                      % (objmin, nf, rhobeg, rhoend))
         if params("restarts.hard.use_old_rk"):
-            xmin2, rmin2, objmin2, jacmin2, nsamples2, nf, nx, nruns, exit_info, diagnostic_info, xmin_eval_num2, jacmin_eval_nums2 = \
+            xmin2, rmin2, objmin2, jacmin2, nsamples2, nf, nx, nruns, exit_info, diagnostic_info, xmin_eval_num2, jacmin_eval_nums2, _ = \
                 solve_main(objfun, xmin, argsf, xl, xu, projections, npt, rhobeg, rhoend, maxfun, nruns, nf, nx, nsamples, params,
-                            diagnostic_info, scaling_changes, h, lh, argsh, prox_uh, argsprox, r0_avg_old=rmin, r0_nsamples_old=nsamples_min, x0_eval_num_old=xmin_eval_num,
+                            diagnostic_info, scaling_changes, h, lh, argsh, prox_uh, argsprox, r0_avg_old=rmin, r0_nsamples_old=nsamples_min, x0_eval_num_old=xmin_eval_num, obj0_old=obj0,
                            do_logging=do_logging, print_progress=print_progress)
         else:
-            xmin2, rmin2, objmin2, jacmin2, nsamples2, nf, nx, nruns, exit_info, diagnostic_info, xmin_eval_num2, jacmin_eval_nums2 = \
+            xmin2, rmin2, objmin2, jacmin2, nsamples2, nf, nx, nruns, exit_info, diagnostic_info, xmin_eval_num2, jacmin_eval_nums2, _ = \
                 solve_main(objfun, xmin, argsf, xl, xu, projections, npt, rhobeg, rhoend, maxfun, nruns, nf, nx, nsamples, params,
-                           diagnostic_info, scaling_changes, h, lh, argsh, prox_uh, argsprox, do_logging=do_logging, print_progress=print_progress)
+                           diagnostic_info, scaling_changes, h, lh, argsh, prox_uh, argsprox, obj0_old=obj0, do_logging=do_logging, print_progress=print_progress)
 
         if objmin2 < objmin or np.isnan(objmin):
             if do_logging:
-- 
2.43.0


From dea527f479e3f50259049d4e461c5519a6c0d261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:56 +0000
Subject: [PATCH 34/37] fix: with projections, the returned point is the one
 evaluated even if Dykstra did not converge

---
 dfols/controller.py | 18 +++++++++---------
 dfols/model.py      | 20 +++++++++++++++-----
 dfols/solver.py     |  2 +-
 3 files changed, 25 insertions(+), 15 deletions(-)

diff --git a/dfols/controller.py b/dfols/controller.py
index 58c4d62..f00f83d 100644
--- a/dfols/controller.py
+++ b/dfols/controller.py
@@ -248,7 +248,7 @@ class Controller(object):
                     return exit_info  # return & quit
 
                 # Otherwise, add new results (increments model.npt_so_far)
-                self.model.change_point(k+1, x - self.model.xbase, rvec_list[0, :], self.nx)  # expect step, not absolute x
+                self.model.change_point(k+1, x - self.model.xbase, rvec_list[0, :], self.nx, xeval=x)  # expect step, not absolute x
                 for i in range(1, num_samples_run):
                     self.model.add_new_sample(k+1, rvec_extra=rvec_list[i, :])
             
@@ -285,7 +285,7 @@ class Controller(object):
                     return exit_info  # return & quit
 
                 # Otherwise, add new results (increments model.npt_so_far)
-                self.model.change_point(k, x - self.model.xbase, rvec_list[0, :], self.nx)  # expect step, not absolute x
+                self.model.change_point(k, x - self.model.xbase, rvec_list[0, :], self.nx, xeval=x)  # expect step, not absolute x
                 for i in range(1, num_samples_run):
                     self.model.add_new_sample(k, rvec_extra=rvec_list[i, :])
         else:
@@ -339,7 +339,7 @@ class Controller(object):
                     return exit_info  # return & quit
 
                 # Otherwise, add new results (increments model.npt_so_far)
-                self.model.change_point(k, x - self.model.xbase, rvec_list[0, :], self.nx)  # expect step, not absolute x
+                self.model.change_point(k, x - self.model.xbase, rvec_list[0, :], self.nx, xeval=x)  # expect step, not absolute x
                 for i in range(1, num_samples_run):
                     self.model.add_new_sample(k, rvec_extra=rvec_list[i, :])
 
@@ -396,7 +396,7 @@ class Controller(object):
 
                 # Otherwise, add new results (increments model.npt_so_far)
                 self.model.change_point(1 + ndirns, x - self.model.xbase,
-                                        rvec_list[0, :], eval_num)  # expect step, not absolute x
+                                        rvec_list[0, :], eval_num, xeval=x)  # expect step, not absolute x
                 for i in range(1, num_samples_run):
                     self.model.add_new_sample(1 + ndirns, rvec_extra=rvec_list[i, :])
         else:
@@ -415,7 +415,7 @@ class Controller(object):
                     return exit_info  # return & quit
 
                 # Otherwise, add new results (increments model.npt_so_far)
-                self.model.change_point(1 + ndirns, x - self.model.xbase, rvec_list[0, :], self.nx)  # expect step, not absolute x
+                self.model.change_point(1 + ndirns, x - self.model.xbase, rvec_list[0, :], self.nx, xeval=x)  # expect step, not absolute x
                 for i in range(1, num_samples_run):
                     self.model.add_new_sample(1 + ndirns, rvec_extra=rvec_list[i, :])
 
@@ -469,7 +469,7 @@ class Controller(object):
                     return exit_info  # return & quit
 
             # Otherwise, add new results
-            self.model.change_point(kmin, xnew, rvec_list[0, :], self.nx)  # expect step, not absolute x
+            self.model.change_point(kmin, xnew, rvec_list[0, :], self.nx, xeval=x)  # expect step, not absolute x
             for i in range(1, num_samples_run):
                 self.model.add_new_sample(kmin, rvec_extra=rvec_list[i, :])
 
@@ -611,7 +611,7 @@ class Controller(object):
             return exit_info  # didn't fix geometry - return & quit
 
         # Otherwise, add new results
-        self.model.change_point(knew, xnew, rvec_list[0, :], self.nx)  # expect step, not absolute x
+        self.model.change_point(knew, xnew, rvec_list[0, :], self.nx, xeval=x)  # expect step, not absolute x
         for i in range(1, num_samples_run):
             self.model.add_new_sample(knew, rvec_extra=rvec_list[i, :])
 
@@ -890,7 +890,7 @@ class Controller(object):
                     return exit_info  # return & quit
 
                 # Otherwise, add new results
-                self.model.add_new_point(xnew, rvec_list[0, :], self.nx)  # expect step, not absolute x
+                self.model.add_new_point(xnew, rvec_list[0, :], self.nx, xeval=x)  # expect step, not absolute x
                 for i in range(1, num_samples_run):
                     self.model.add_new_sample(self.model.npt() - 1, rvec_extra=rvec_list[i, :])
 
@@ -971,7 +971,7 @@ class Controller(object):
                 return exit_info  # return & quit
 
             # Otherwise, add new results
-            self.model.change_point(knew, xnew, rvec_list[0, :], self.nx)  # expect step, not absolute x
+            self.model.change_point(knew, xnew, rvec_list[0, :], self.nx, xeval=x)  # expect step, not absolute x
             for i in range(1, num_samples_run):
                 self.model.add_new_sample(knew, rvec_extra=rvec_list[i, :])
         return None
diff --git a/dfols/model.py b/dfols/model.py
index 0520397..a4e0288 100644
--- a/dfols/model.py
+++ b/dfols/model.py
@@ -76,6 +76,7 @@ class Model(object):
         self.dykstra_max_iters = dykstra_max_iters
         self.dykstra_tol = dykstra_tol
         self.points = np.zeros((npt, n))  # interpolation points w.r.t. xbase
+        self.xeval = np.tile(x0, (npt, 1))  # where each interpolation point was evaluated (if have projections)
 
         # Function values
         self.fval_v = np.inf * np.ones((npt, m))  # residuals for each xpt
@@ -142,6 +143,8 @@ class Model(object):
         if not abs_coordinates:
             return np.minimum(np.maximum(self.sl, self.points[k, :].copy()), self.su)
         else:
+            if self.projections:
+                return self.xeval[k, :].copy()  # don't project again, as Dykstra may not have converged
             # Apply bounds and convert back to absolute coordinates
             return self.as_absolute_coordinates(self.points[k, :])
 
@@ -183,19 +186,22 @@ class Model(object):
             sq_distances[k] = sumsq(self.xpt(k) - xopt)  # apply bounds, as for xopt
         return sq_distances
 
-    def change_point(self, k, x, rvec, eval_num, allow_kopt_update=True):
-        # Update point k to x (w.r.t. xbase), with residual values fvec
+    def change_point(self, k, x, rvec, eval_num, allow_kopt_update=True, xeval=None):
+        # Update point k to x (w.r.t. xbase), with residual values fvec (xeval = absolute coordinates of evaluated point)
         if k >= self.npt_so_far and self.npt_so_far < self.num_pts:
             assert k == self.npt_so_far, "Growing: updating wrong point"
             self.npt_so_far += 1
         else:
             assert 0 <= k < self.npt(), "Invalid index %g" % k
 
+        if xeval is None:
+            xeval = self.as_absolute_coordinates(x)
         self.points[k, :] = x.copy()
+        self.xeval[k, :] = xeval.copy()
         self.fval_v[k, :] = rvec.copy()
         self.objval[k] = sumsq(rvec)
         if self.h is not None:
-            self.objval[k] += self.h(remove_scaling(self.as_absolute_coordinates(x), self.scaling_changes), *self.argsh)
+            self.objval[k] += self.h(remove_scaling(xeval, self.scaling_changes), *self.argsh)
         self.nsamples[k] = 1
         self.eval_num[k] = eval_num
         self.factorisation_current = False
@@ -206,6 +212,7 @@ class Model(object):
 
     def swap_points(self, k1, k2):
         self.points[[k1, k2], :] = self.points[[k2, k1], :]
+        self.xeval[[k1, k2], :] = self.xeval[[k2, k1], :]
         self.fval_v[[k1, k2], :] = self.fval_v[[k2, k1], :]
         self.objval[[k1, k2]] = self.objval[[k2, k1]]
         self.nsamples[[k1, k2]] = self.nsamples[[k2, k1]]
@@ -234,13 +241,16 @@ class Model(object):
         self.factorisation_current = False  # interpolation matrix is centred at xopt, which may have changed
         return
 
-    def add_new_point(self, x, rvec, eval_num):
+    def add_new_point(self, x, rvec, eval_num, xeval=None):
         k = self.npt()  # new row goes after the points we have (which is before the unused rows, if still growing)
+        if xeval is None:
+            xeval = self.as_absolute_coordinates(x)
         self.points = np.insert(self.points, k, x, axis=0)  # add row to xpt
+        self.xeval = np.insert(self.xeval, k, xeval, axis=0)  # add row to evaluated points
         self.fval_v = np.insert(self.fval_v, k, rvec, axis=0)  # add row to fval_v
         obj = sumsq(rvec)
         if self.h is not None:
-            obj += self.h(remove_scaling(self.as_absolute_coordinates(x), self.scaling_changes), *self.argsh)
+            obj += self.h(remove_scaling(xeval, self.scaling_changes), *self.argsh)
         self.objval = np.insert(self.objval, k, obj)  # add entry to fval
         self.nsamples = np.insert(self.nsamples, k, 1)  # add new sample number
         self.eval_num = np.insert(self.eval_num, k, eval_num)  # add new evaluation number
diff --git a/dfols/solver.py b/dfols/solver.py
index 9698991..21335c4 100644
--- a/dfols/solver.py
+++ b/dfols/solver.py
@@ -725,7 +725,7 @@ def solve_main(objfun, x0, argsf, xl, xu, projections, npt, rhobeg, rhoend, maxf
 
             if do_logging:
                 module_logger.debug("Updating with knew = %i" % knew)
-            control.model.change_point(knew, xnew, rvec_list[0, :], control.nx)  # expect step, not absolute x
+            control.model.change_point(knew, xnew, rvec_list[0, :], control.nx, xeval=x)  # expect step, not absolute x
             for i in range(1, num_samples_run):
                 control.model.add_new_sample(knew, rvec_extra=rvec_list[i, :])
 
-- 
2.43.0


From b2f0aa34886f9f487c2404eccf435666f01e43b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:02 +0000
Subject: [PATCH 35/37] fix: initialisation with projections and npt > n+1 uses
 no global random numbers

---
 dfols/controller.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/dfols/controller.py b/dfols/controller.py
index f00f83d..de87b10 100644
--- a/dfols/controller.py
+++ b/dfols/controller.py
@@ -148,12 +148,10 @@ class Controller(object):
             module_logger.debug("Initialising with coordinate directions")
         # self.model already has x0 evaluated, so only need to initialise the other points
         # num_directions = params("growing.ndirs_initial")
-        assert num_directions < (self.n() + 1) * (self.n() + 2) // 2, "prelim: must have ndirs_initial < (n+1)(n+2)/2"
         assert 1 <= num_directions < self.model.num_pts, "Initialisation: must have 1 <= ndirs_initial < npt"
 
 
         if self.model.projections:
-            num_directions = min(num_directions, self.n())  # if we want more points, need to grow the set later
             rng = np.random.RandomState(0)  # don't depend on (or modify) the global random state
             D = np.zeros((self.n(),self.n()))
             k = 0
@@ -234,7 +232,13 @@ class Controller(object):
             if D_rank < self.n():
                 return ExitInformation(EXIT_LINALG_ERROR, "Unable to generate suitable initial directions")
 
-            # we have a L.I set of interpolation points
+            # we have a L.I set of interpolation points, if we want more (for regression) then use random directions
+            for k in range(self.n(), num_directions):
+                p = rng.normal(size=self.n())
+                p = np.dot(p/np.linalg.norm(p),min(1,self.delta))
+                yk = dykstra(self.model.projections, self.model.xbase + p, max_iter=params("dykstra.max_iters"), tol=params("dykstra.d_tol"))
+                D = np.vstack((D, yk - self.model.xbase))
+
             for k in range(0, num_directions):
                 # Evaluate objective at this new point
                 x = self.model.as_absolute_coordinates(D[k, :])
@@ -254,6 +258,7 @@ class Controller(object):
             
             return None   # return & continue
 
+        assert num_directions < (self.n() + 1) * (self.n() + 2) // 2, "prelim: must have ndirs_initial < (n+1)(n+2)/2"
         at_lower_boundary = (self.model.sl > -0.01 * self.delta)  # sl = xl - x0, should be -ve, actually < -rhobeg
         at_upper_boundary = (self.model.su < 0.01 * self.delta)  # su = xu - x0, should be +ve, actually > rhobeg
         
-- 
2.43.0


From 2b46eb8c13d0b32b51025084df29bdc905dc05f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:44 +0000
Subject: [PATCH 36/37] fix: S-FISTA iteration bound overflowed (OverflowError)
 when the model contains very large finite values

---
 dfols/trust_region.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dfols/trust_region.py b/dfols/trust_region.py
index e915e45..b8f1d12 100644
--- a/dfols/trust_region.py
+++ b/dfols/trust_region.py
@@ -109,7 +109,7 @@ def ctrsbox_sfista(xopt, g, H, projections, delta, h, L_h, prox_uh, argsh=(), ar
     try:
         MAX_LOOP_ITERS = ceil(sfista_iters_scale * delta * (L_h+sqrt(L_h*L_h+2*k_H*func_tol)) / func_tol)
         MAX_LOOP_ITERS = min(MAX_LOOP_ITERS, max_iters)
-    except ValueError:
+    except (ValueError, OverflowError):
         MAX_LOOP_ITERS = max_iters
     u =  2 * delta / (MAX_LOOP_ITERS * L_h) # smoothing parameter
     # u = 2 * func_tol / (L_h ** 2 + L_h * sqrt(L_h ** 2 + 2 * k_H * func_tol))  # the above choice works better in practice
-- 
2.43.0


From 870d9c712902cd5f33b4600088568751588b3561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:30 +0000
Subject: [PATCH 37/37] fix: point to replace could be one with a Lagrange
 value of zero (rounding error only) if it was far away, giving a singular
 interpolation system

---
 dfols/controller.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dfols/controller.py b/dfols/controller.py
index de87b10..ecf262b 100644
--- a/dfols/controller.py
+++ b/dfols/controller.py
@@ -713,6 +713,8 @@ class Controller(object):
 
             distsq = sumsq(self.model.xpt(k) - self.model.xopt())
             temp = max(1.0, (distsq / delsq) ** 2)
+            if abs(den) < 1e-12:
+                temp = 1.0  # den is rounding error only: however far away, replacing this point would give a singular system
             if scaden is None or temp * abs(den) > scaden:
                 scaden = temp * abs(den)
                 knew = k
-- 
2.43.0

