From 40390bf0092622b796ad2917c774d989c42bc5a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:38 +0000
Subject: [PATCH 01/62] fix: declared indices given as a numpy array are
 honoured

'if indices:' drops np.array([0]) and raises for longer arrays.
---
 openmdao/core/driver.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/openmdao/core/driver.py b/openmdao/core/driver.py
index 3724efe..24cf9ad 100644
--- a/openmdao/core/driver.py
+++ b/openmdao/core/driver.py
@@ -362,7 +362,7 @@ class Driver(object):
         param['upper'] = upper
         param['adder'] = adder
         param['scaler'] = scaler
-        if indices:
+        if indices is not None and len(indices) > 0:
             param['indices'] = np.array(indices, dtype=int)
 
         self._desvars[name] = param
@@ -564,7 +564,7 @@ class Driver(object):
         obj = OrderedDict()
         obj['adder'] = adder
         obj['scaler'] = scaler
-        if indices:
+        if indices is not None and len(indices) > 0:
             obj['indices'] = indices
             if len(indices) > 1 and not self.supports['multiple_objectives']:
                 raise RuntimeError("Multiple objective indices specified for "
@@ -702,7 +702,7 @@ class Driver(object):
         con['jacs'] = jacs
         con['active_tol'] = active_tol
 
-        if indices:
+        if indices is not None and len(indices) > 0:
             con['indices'] = indices
         self._cons[name] = con
 
-- 
2.43.0


From 1fc47456a92b54a5b092c497ab1c57564b4bbc26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:49 +0000
Subject: [PATCH 02/62] fix: Driver.set_desvar honours index=0

index=0 was treated like no index, so the whole variable (or all declared
indices) was overwritten.
---
 openmdao/core/driver.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/openmdao/core/driver.py b/openmdao/core/driver.py
index 24cf9ad..0f6a6cb 100644
--- a/openmdao/core/driver.py
+++ b/openmdao/core/driver.py
@@ -478,7 +478,7 @@ class Driver(object):
             Index of the desvar to set.
         """
         # support for uncertain samples
-        if index:
+        if index is not None:
             val = self.root.unknowns._dat[name].val[index]
         else:
             val = self.root.unknowns._dat[name].val
@@ -491,7 +491,7 @@ class Driver(object):
         adder = meta['adder']
 
         if isinstance(scaler, np.ndarray):
-            if index:
+            if index is not None:
                 value = value/scaler[index]
             else:
                 value = value/scaler
@@ -504,7 +504,7 @@ class Driver(object):
         # (as in always doing the scaler/adder operation.)
 
         if isinstance(adder, np.ndarray):
-            if index:
+            if index is not None:
                 value = value - adder[index]
             else:
                 value = value - adder
@@ -512,7 +512,7 @@ class Driver(object):
             value = value - adder
 
         # Only set the indices we requested when we set the design variable.
-        if index:
+        if index is not None:
             idx = index
         else:
             idx = meta.get('indices')
-- 
2.43.0


From 79c8ec714bec8e3b1447994e16e00e0b47795042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:13 +0000
Subject: [PATCH 03/62] fix: fd_jacobian restores perturbed inputs exactly,
 also when the model raises

---
 openmdao/core/system.py | 57 ++++++++++++++++++++++++-----------------
 1 file changed, 33 insertions(+), 24 deletions(-)

diff --git a/openmdao/core/system.py b/openmdao/core/system.py
index a51c7f6..c2cc3af 100644
--- a/openmdao/core/system.py
+++ b/openmdao/core/system.py
@@ -695,24 +695,30 @@ class System(object):
                     if cs == 'cs':
 
                         probdata = unknowns._probdata
-                        probdata.in_complex_step = True
+                        old_cs = probdata.in_complex_step
+                        imag_val = inputs._dat[param_key].imag_val
+                        old_imag = imag_val[idx]
 
-                        inputs._dat[param_key].imag_val[idx] += fdstep
-                        run_model(params, unknowns, resids)
-                        inputs._dat[param_key].imag_val[idx] -= fdstep
+                        try:
+                            probdata.in_complex_step = True
+                            imag_val[idx] += fdstep
+                            run_model(params, unknowns, resids)
+                        finally:
+                            imag_val[idx] = old_imag
+                            probdata.in_complex_step = old_cs
 
                         # delta resid is delta unknown
                         resultvec.vec[:] = resultvec.imag_vec*(1.0/fdstep)
                         # Note: vector division is slower than vector mult.
-                        probdata.in_complex_step = False
 
                     elif fdform == 'forward':
 
-                        target_input[idx] += step
-
-                        run_model(params, unknowns, resids)
-
-                        target_input[idx] -= step
+                        old = target_input[idx]
+                        try:
+                            target_input[idx] += step
+                            run_model(params, unknowns, resids)
+                        finally:
+                            target_input[idx] = old
 
                         # delta resid is delta unknown
                         resultvec.vec[:] -= cache1
@@ -721,11 +727,12 @@ class System(object):
 
                     elif fdform == 'backward':
 
-                        target_input[idx] -= step
-
-                        run_model(params, unknowns, resids)
-
-                        target_input[idx] += step
+                        old = target_input[idx]
+                        try:
+                            target_input[idx] -= step
+                            run_model(params, unknowns, resids)
+                        finally:
+                            target_input[idx] = old
 
                         # delta resid is delta unknown
                         resultvec.vec[:] -= cache1
@@ -734,25 +741,27 @@ class System(object):
 
                     elif fdform == 'central':
 
-                        target_input[idx] += step
+                        old = target_input[idx]
+                        try:
+                            target_input[idx] += step
 
-                        run_model(params, unknowns, resids)
-                        cache2 = resultvec.vec.copy()
+                            run_model(params, unknowns, resids)
+                            cache2 = resultvec.vec.copy()
 
-                        target_input[idx] -= step
-                        resultvec.vec[:] = cache1
+                            target_input[idx] = old
+                            resultvec.vec[:] = cache1
 
-                        target_input[idx] -= step
+                            target_input[idx] -= step
 
-                        run_model(params, unknowns, resids)
+                            run_model(params, unknowns, resids)
+                        finally:
+                            target_input[idx] = old
 
                         # central difference formula
                         resultvec.vec[:] -= cache2
                         resultvec.vec[:] *= (-0.5/step)
                         # Note: vector division is slower than vector mult.
 
-                        target_input[idx] += step
-
                     for u_name in fd_unknowns:
                         if qoi_indices and u_name in qoi_indices:
                             result = resultvec._dat[u_name].val[qoi_indices[u_name]]
-- 
2.43.0


From bfa51e217f95cd814c6835f9f72db94ece2500a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:22 +0000
Subject: [PATCH 04/62] fix: array scalers of the outputs scale rows in reverse
 and fd gradients

---
 openmdao/core/problem.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/openmdao/core/problem.py b/openmdao/core/problem.py
index c5bde79..8e75833 100644
--- a/openmdao/core/problem.py
+++ b/openmdao/core/problem.py
@@ -1434,7 +1434,7 @@ class Problem(object):
                     if ikey in dv_scale:
                         J[okey][ikey] *= dv_scale[ikey]
                     if okey in cn_scale:
-                        J[okey][ikey] *= cn_scale[okey]
+                        J[okey][ikey] *= np.reshape(cn_scale[okey], (-1, 1))
 
         else:
             usize = 0
@@ -1473,7 +1473,7 @@ class Problem(object):
                     if p in dv_scale:
                         J[ui:ui+rows, pi:pi+cols] *= dv_scale[p]
                     if u in cn_scale:
-                        J[ui:ui+rows, pi:pi+cols] *= cn_scale[u]
+                        J[ui:ui+rows, pi:pi+cols] *= np.reshape(cn_scale[u], (-1, 1))
 
                     pi += cols
                 ui += rows
@@ -1611,6 +1611,11 @@ class Problem(object):
             qoi_indices, poi_indices = self._poi_indices, self._qoi_indices
             in_scale, un_scale = cn_scale, dv_scale
 
+        def row_scale(param, i):
+            # An array scaler has its own value for each row.
+            scale = in_scale[param]
+            return scale[i] if np.size(scale) > 1 else scale
+
         # Process our inputs/outputs of interest for parallel groups
         all_vois = self.root._probdata.relevance.vars_of_interest(mode)
 
@@ -1770,7 +1775,7 @@ class Problem(object):
 
                                     # Driver scaling
                                     if param in in_scale:
-                                        J[param][item][i, :] *= in_scale[param]
+                                        J[param][item][i, :] *= row_scale(param, i)
                                     if item in un_scale:
                                         J[param][item][i, :] *= un_scale[item]
 
@@ -1789,7 +1794,7 @@ class Problem(object):
 
                                     # Driver scaling
                                     if param in in_scale:
-                                        J[Jslices[param].start+i, Jslices[item]] *= in_scale[param]
+                                        J[Jslices[param].start+i, Jslices[item]] *= row_scale(param, i)
                                     if item in un_scale:
                                         J[Jslices[param].start+i, Jslices[item]] *= un_scale[item]
 
-- 
2.43.0


From af589331de4a0aa797704efb780a0ed3d23c3d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:33 +0000
Subject: [PATCH 05/62] fix: calc_gradient array rows of a name that is also an
 input are not overwritten

---
 openmdao/core/problem.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/openmdao/core/problem.py b/openmdao/core/problem.py
index 8e75833..764c0bb 100644
--- a/openmdao/core/problem.py
+++ b/openmdao/core/problem.py
@@ -1582,7 +1582,9 @@ class Problem(object):
         else:
             usize = 0
             psize = 0
-            Jslices = OrderedDict()
+            # rows and columns are kept apart: a name can be in both lists
+            Jrows = OrderedDict()
+            Jcols = OrderedDict()
             for u in unknown_list:
                 start = usize
                 if u in self._qoi_indices:
@@ -1590,7 +1592,7 @@ class Problem(object):
                     usize += len(idx)
                 else:
                     usize += self.root.unknowns.metadata(u)['size']
-                Jslices[u] = slice(start, usize)
+                Jrows[u] = slice(start, usize)
 
             for p in indep_list:
                 start = psize
@@ -1599,7 +1601,7 @@ class Problem(object):
                     psize += len(idx)
                 else:
                     psize += unknowns.metadata(p)['size']
-                Jslices[p] = slice(start, psize)
+                Jcols[p] = slice(start, psize)
             J = np.zeros((usize, psize))
 
         if fwd:
@@ -1781,22 +1783,22 @@ class Problem(object):
 
                             else:
                                 if fwd:
-                                    J[Jslices[item], Jslices[param].start+i] = dxval
+                                    J[Jrows[item], Jcols[param].start+i] = dxval
 
                                     # Driver scaling
                                     if param in in_scale:
-                                        J[Jslices[item], Jslices[param].start+i] *= in_scale[param]
+                                        J[Jrows[item], Jcols[param].start+i] *= in_scale[param]
                                     if item in un_scale:
-                                        J[Jslices[item], Jslices[param].start+i] *= un_scale[item]
+                                        J[Jrows[item], Jcols[param].start+i] *= un_scale[item]
 
                                 else:
-                                    J[Jslices[param].start+i, Jslices[item]] = dxval
+                                    J[Jrows[param].start+i, Jcols[item]] = dxval
 
                                     # Driver scaling
                                     if param in in_scale:
-                                        J[Jslices[param].start+i, Jslices[item]] *= row_scale(param, i)
+                                        J[Jrows[param].start+i, Jcols[item]] *= row_scale(param, i)
                                     if item in un_scale:
-                                        J[Jslices[param].start+i, Jslices[item]] *= un_scale[item]
+                                        J[Jrows[param].start+i, Jcols[item]] *= un_scale[item]
 
         # Clean up after ourselves
         root.clear_dparams()
-- 
2.43.0


From 29c4cf35879652c87d3f91f96af5507ac4bfb896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:50 +0000
Subject: [PATCH 06/62] fix: deriv_options type and subsystem names are
 compared by value, not identity

---
 openmdao/core/group.py     | 4 ++--
 openmdao/core/problem.py   | 6 +++---
 openmdao/core/system.py    | 4 ++--
 openmdao/solvers/newton.py | 2 +-
 4 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/openmdao/core/group.py b/openmdao/core/group.py
index eda51c0..5962482 100644
--- a/openmdao/core/group.py
+++ b/openmdao/core/group.py
@@ -870,7 +870,7 @@ class Group(System):
             for voi in vois:
                 self._transfer_data(deriv=True, var_of_interest=voi)  # Full Scatter
 
-        if self.deriv_options['type'] is not 'user':
+        if self.deriv_options['type'] != 'user':
             # parent class has the code to do the fd
             super(Group, self)._sys_apply_linear(mode, do_apply, vois, gs_outputs)
 
@@ -933,7 +933,7 @@ class Group(System):
             sol_vec, rhs_vec = drmat, dumat
 
         # Don't solve if user requests finite difference in this group.
-        if self.deriv_options['type'] is not 'user':
+        if self.deriv_options['type'] != 'user':
             for voi in vois:
                 sol_vec[voi].vec[:] = -rhs_vec[voi].vec
                 return
diff --git a/openmdao/core/problem.py b/openmdao/core/problem.py
index 764c0bb..cc853fc 100644
--- a/openmdao/core/problem.py
+++ b/openmdao/core/problem.py
@@ -998,7 +998,7 @@ class Problem(object):
         # variable.
         if self.driver.__class__ is Driver or \
            self.driver.supports['gradients'] is False or \
-           self.root.deriv_options['type'] is not 'user':
+           self.root.deriv_options['type'] != 'user':
             return []
 
         vec = self.root.unknowns
@@ -1296,7 +1296,7 @@ class Problem(object):
 
         with self.root._dircontext:
             # Either analytic or finite difference
-            if mode == 'fd' or self.root.deriv_options['type'] is not 'user':
+            if mode == 'fd' or self.root.deriv_options['type'] != 'user':
                 return self._calc_gradient_fd(indep_list, unknown_list,
                                               return_format, dv_scale=dv_scale,
                                               cn_scale=cn_scale, sparsity=sparsity,
@@ -1877,7 +1877,7 @@ class Problem(object):
 
         # Can't run if root is set to 'fd' because no derivative vectors were
         # allocated.
-        if root.deriv_options['type'] is not 'user':
+        if root.deriv_options['type'] != 'user':
             msg = "You cannot run check_partial_derivatives when option 'type' "
             msg += "in `root` is set to 'fd' or 'cs' because no derivative "
             msg += "vectors are allocated in that case."
diff --git a/openmdao/core/system.py b/openmdao/core/system.py
index c2cc3af..4a13271 100644
--- a/openmdao/core/system.py
+++ b/openmdao/core/system.py
@@ -827,7 +827,7 @@ class System(object):
             List of inputs that are relevant for linear solve in a subsystem.
             This list only includes interior connections and states.
         """
-        force_fd = self.deriv_options['type'] is not 'user'
+        force_fd = self.deriv_options['type'] != 'user'
         states = self.states
         is_relevant = self._probdata.relevance.is_relevant_system
         fwd = mode == "fwd"
@@ -935,7 +935,7 @@ class System(object):
                               self.pathname, DeprecationWarning,stacklevel=2)
                 warnings.simplefilter('ignore', DeprecationWarning)
 
-            if self.deriv_options['type'] is not 'user':
+            if self.deriv_options['type'] != 'user':
                 # fd should compute semi-totals across all children,
                 #    unless total_derivs=False is specifically requested
                 if self._local_subsystems and total_derivs is None:
diff --git a/openmdao/solvers/newton.py b/openmdao/solvers/newton.py
index 2643281..0d85c50 100644
--- a/openmdao/solvers/newton.py
+++ b/openmdao/solvers/newton.py
@@ -89,7 +89,7 @@ class Newton(NonLinearSolver):
 
             # Determine set of relevant inputs for local Newton solve if we
             # are not root.
-            if sub.name is not '':
+            if sub.name != '':
                 conns = sub.connections
                 all_tgt = [var for var in sub._params_dict if var in conns]
                 duvec = sub.dumat[None]
-- 
2.43.0


From aa4f8cbbfafa7521940fec7b7082f9a0370605cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:16 +0000
Subject: [PATCH 07/62] fix: solvers restore derivative options, precon level
 and rel_inputs when a solve raises

---
 openmdao/core/group.py          |   6 +-
 openmdao/solvers/newton.py      | 144 ++++++++++++++++----------------
 openmdao/solvers/petsc_ksp.py   |  24 +++---
 openmdao/solvers/scipy_gmres.py |  24 +++---
 4 files changed, 103 insertions(+), 95 deletions(-)

diff --git a/openmdao/core/group.py b/openmdao/core/group.py
index 5962482..9d7a946 100644
--- a/openmdao/core/group.py
+++ b/openmdao/core/group.py
@@ -952,8 +952,10 @@ class Group(System):
             return
 
         solver.rel_inputs = rel_inputs
-        sol_buf = solver.solve(rhs_buf, self, mode=mode)
-        solver.rel_inputs = None
+        try:
+            sol_buf = solver.solve(rhs_buf, self, mode=mode)
+        finally:
+            solver.rel_inputs = None
 
         for voi in rhs_buf:
             sol_vec[voi].vec[:] = sol_buf[voi][:]
diff --git a/openmdao/solvers/newton.py b/openmdao/solvers/newton.py
index 0d85c50..a986184 100644
--- a/openmdao/solvers/newton.py
+++ b/openmdao/solvers/newton.py
@@ -174,83 +174,85 @@ class Newton(NonLinearSolver):
 
         # Can't have the system trying to FD itself when it also contains Newton.
         save_type = system.deriv_options['type']
-        system.deriv_options.locked = False
-        system.deriv_options['type'] = 'user'
-
-        while self.iter_count < maxiter and f_norm > atol and \
-                f_norm/f_norm0 > rtol and u_norm > utol:
-
-            # Linearize Model with partial derivatives
-            system._sys_linearize(params, unknowns, resids, total_derivs=False)
-
-            # Calculate direction to take step
-            arg.vec[:] = -resids.vec
-            with system._dircontext:
-                system.solve_linear(system.dumat, system.drmat,
-                                    [None], mode='fwd', solver=self.ln_solver,
-                                    rel_inputs=self.rel_inputs)
-
-            # Keeping this commented-out line here. This was a brute-force
-            # fix to a problem with subsystem linear solvers being corrupted
-            # by values left in out-of-scope dparams. It's mostly fixed, but
-            # there may be corner cases. If you see something weird, you
-            # could try uncommenting and see if this changes anything (which
-            # it should not.)
-            #system.clear_dparams()
-
-            self.iter_count += 1
-
-            # Allow different alphas for each value so we can keep moving when we
-            # hit a bound.
-            alpha = alpha_scalar*np.ones(len(unknowns.vec))
-
-            # If our step will violate any upper or lower bounds, then reduce
-            # alpha in just that direction so that we only step to that
-            # boundary.
-            alpha = unknowns.distance_along_vector_to_limit(alpha, result)
-
-            # Cache the current norm
-            if ls:
-                base_u[:] = unknowns.vec
-                base_norm = f_norm
-
-            # Apply step that doesn't violate bounds
-            unknowns_cache[:] = unknowns.vec
-            unknowns.vec += alpha*result.vec
-
-            # Metadata update
-            update_local_meta(local_meta, (self.iter_count, 0))
-
-            # Just evaluate (and optionally solve) the model with the new
-            # points
-            if self.options['solve_subsystems']:
-                system.children_solve_nonlinear(local_meta)
-            system.apply_nonlinear(params, unknowns, resids, local_meta)
-
-            self.recorders.record_iteration(system, local_meta)
-
-            f_norm = resids.norm()
-            u_norm = np.linalg.norm(unknowns.vec - unknowns_cache)
-            if iprint == 2:
-                self.print_norm(self.print_name, system, self.iter_count,
-                                f_norm, f_norm0, u_norm=u_norm)
-
-            # Line Search to determine how far to step in the Newton direction
-            if ls:
-                f_norm = ls.solve(params, unknowns, resids, system, self,
-                                  alpha_scalar, alpha, base_u, base_norm,
-                                  f_norm, f_norm0, metadata)
-
+        save_locked = system.deriv_options.locked
+        try:
+            system.deriv_options.locked = False
+            system.deriv_options['type'] = 'user'
+
+            while self.iter_count < maxiter and f_norm > atol and \
+                    f_norm/f_norm0 > rtol and u_norm > utol:
+
+                # Linearize Model with partial derivatives
+                system._sys_linearize(params, unknowns, resids, total_derivs=False)
+
+                # Calculate direction to take step
+                arg.vec[:] = -resids.vec
+                with system._dircontext:
+                    system.solve_linear(system.dumat, system.drmat,
+                                        [None], mode='fwd', solver=self.ln_solver,
+                                        rel_inputs=self.rel_inputs)
+
+                # Keeping this commented-out line here. This was a brute-force
+                # fix to a problem with subsystem linear solvers being corrupted
+                # by values left in out-of-scope dparams. It's mostly fixed, but
+                # there may be corner cases. If you see something weird, you
+                # could try uncommenting and see if this changes anything (which
+                # it should not.)
+                #system.clear_dparams()
+
+                self.iter_count += 1
+
+                # Allow different alphas for each value so we can keep moving when we
+                # hit a bound.
+                alpha = alpha_scalar*np.ones(len(unknowns.vec))
+
+                # If our step will violate any upper or lower bounds, then reduce
+                # alpha in just that direction so that we only step to that
+                # boundary.
+                alpha = unknowns.distance_along_vector_to_limit(alpha, result)
+
+                # Cache the current norm
+                if ls:
+                    base_u[:] = unknowns.vec
+                    base_norm = f_norm
+
+                # Apply step that doesn't violate bounds
+                unknowns_cache[:] = unknowns.vec
+                unknowns.vec += alpha*result.vec
+
+                # Metadata update
+                update_local_meta(local_meta, (self.iter_count, 0))
+
+                # Just evaluate (and optionally solve) the model with the new
+                # points
+                if self.options['solve_subsystems']:
+                    system.children_solve_nonlinear(local_meta)
+                system.apply_nonlinear(params, unknowns, resids, local_meta)
+
+                self.recorders.record_iteration(system, local_meta)
+
+                f_norm = resids.norm()
+                u_norm = np.linalg.norm(unknowns.vec - unknowns_cache)
+                if iprint == 2:
+                    self.print_norm(self.print_name, system, self.iter_count,
+                                    f_norm, f_norm0, u_norm=u_norm)
+
+                # Line Search to determine how far to step in the Newton direction
+                if ls:
+                    f_norm = ls.solve(params, unknowns, resids, system, self,
+                                      alpha_scalar, alpha, base_u, base_norm,
+                                      f_norm, f_norm0, metadata)
+
+        finally:
+            # Return system's FD status back to what it was
+            system.deriv_options['type'] = save_type
+            system.deriv_options.locked = save_locked
 
         # Final residual print if you only want the last one
         if iprint == 1:
             self.print_norm(self.print_name, system, self.iter_count,
                             f_norm, f_norm0, u_norm=u_norm)
 
-        # Return system's FD status back to what it was
-        system.deriv_options['type'] = save_type
-        system.deriv_options.locked = True
-
         if self.iter_count >= maxiter or isnan(f_norm):
             msg = 'FAILED to converge after %d iterations' % self.iter_count
             fail = True
diff --git a/openmdao/solvers/petsc_ksp.py b/openmdao/solvers/petsc_ksp.py
index a7fb410..7d905b0 100644
--- a/openmdao/solvers/petsc_ksp.py
+++ b/openmdao/solvers/petsc_ksp.py
@@ -392,16 +392,18 @@ class PetscKSP(LinearSolver):
         with system._dircontext:
             precon = self.preconditioner
             system._probdata.precon_level += 1
-            if precon.options['iprint'] > 0:
-                precon.print_norm(precon.print_name, system, precon.iter_count, 0,
-                                  0, indent=1, solver='LN', msg='Start Preconditioner')
-
-            system.solve_linear(dumat, drmat, (voi, ), mode=mode,
-                                solver=precon, rel_inputs=self.rel_inputs)
-
-            if precon.options['iprint'] > 0:
-                precon.print_norm(precon.print_name, system, precon.iter_count, 0,
-                                  0, indent=1, solver='LN', msg='End Preconditioner')
-            system._probdata.precon_level -= 1
+            try:
+                if precon.options['iprint'] > 0:
+                    precon.print_norm(precon.print_name, system, precon.iter_count, 0,
+                                      0, indent=1, solver='LN', msg='Start Preconditioner')
+
+                system.solve_linear(dumat, drmat, (voi, ), mode=mode,
+                                    solver=precon, rel_inputs=self.rel_inputs)
+
+                if precon.options['iprint'] > 0:
+                    precon.print_norm(precon.print_name, system, precon.iter_count, 0,
+                                      0, indent=1, solver='LN', msg='End Preconditioner')
+            finally:
+                system._probdata.precon_level -= 1
 
         result.array[:] = sol_vec.vec
diff --git a/openmdao/solvers/scipy_gmres.py b/openmdao/solvers/scipy_gmres.py
index 4a3a954..60af044 100644
--- a/openmdao/solvers/scipy_gmres.py
+++ b/openmdao/solvers/scipy_gmres.py
@@ -216,17 +216,19 @@ class ScipyGMRES(MultLinearSolver):
         with system._dircontext:
             precon = self.preconditioner
             system._probdata.precon_level += 1
-            if precon.options['iprint'] > 0:
-                precon.print_norm(precon.print_name, system, precon.iter_count, 0,
-                                  0, indent=1, solver='LN', msg='Start Preconditioner')
-
-            system.solve_linear(dumat, drmat, (voi, ), mode=mode,
-                                solver=precon)
-
-            if precon.options['iprint'] > 0:
-                precon.print_norm(precon.print_name, system, precon.iter_count, 0,
-                                  0, indent=1, solver='LN', msg='End Preconditioner')
-            system._probdata.precon_level -= 1
+            try:
+                if precon.options['iprint'] > 0:
+                    precon.print_norm(precon.print_name, system, precon.iter_count, 0,
+                                      0, indent=1, solver='LN', msg='Start Preconditioner')
+
+                system.solve_linear(dumat, drmat, (voi, ), mode=mode,
+                                    solver=precon)
+
+                if precon.options['iprint'] > 0:
+                    precon.print_norm(precon.print_name, system, precon.iter_count, 0,
+                                      0, indent=1, solver='LN', msg='End Preconditioner')
+            finally:
+                system._probdata.precon_level -= 1
 
         #print("arg", arg)
         #print("preconditioned arg", sol_vec.vec)
-- 
2.43.0


From 017133dcae7b03d9a99990d059cccc4aaaf598db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:16 +0000
Subject: [PATCH 08/62] fix: solve_linear of an approximated group handles
 every variable of interest

---
 openmdao/core/group.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openmdao/core/group.py b/openmdao/core/group.py
index 9d7a946..17eb7cf 100644
--- a/openmdao/core/group.py
+++ b/openmdao/core/group.py
@@ -936,7 +936,7 @@ class Group(System):
         if self.deriv_options['type'] != 'user':
             for voi in vois:
                 sol_vec[voi].vec[:] = -rhs_vec[voi].vec
-                return
+            return
 
         # Solve Jacobian, df |-> du [fwd] or du |-> df [rev]
         rhs_buf = OrderedDict()
-- 
2.43.0


From 2c295422df9aaec2c9b5f9ab32cbc05a30e73d32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:16 +0000
Subject: [PATCH 09/62] fix: relevant inputs of an earlier failed linear
 operation are not reused

---
 openmdao/core/system.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openmdao/core/system.py b/openmdao/core/system.py
index 4a13271..2e04920 100644
--- a/openmdao/core/system.py
+++ b/openmdao/core/system.py
@@ -835,7 +835,7 @@ class System(object):
         if rel_inputs:
             rel_inputs = [name_relative_to(self.pathname, var) \
                           for var in rel_inputs if var.startswith(self.pathname)]
-            self.rel_inputs = rel_inputs
+        self.rel_inputs = rel_inputs
 
         for voi in vois:
             # don't call apply_linear if this system is irrelevant
-- 
2.43.0


From b3908bf586901db8239ae427a2138ddf85e85cfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:45 +0000
Subject: [PATCH 10/62] fix: LinearGaussSeidel reports a NaN residual as a
 failure

---
 openmdao/solvers/ln_gauss_seidel.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/openmdao/solvers/ln_gauss_seidel.py b/openmdao/solvers/ln_gauss_seidel.py
index abd9d68..fa0eef1 100644
--- a/openmdao/solvers/ln_gauss_seidel.py
+++ b/openmdao/solvers/ln_gauss_seidel.py
@@ -2,6 +2,8 @@
 
 from __future__ import print_function
 
+from math import isnan
+
 from six import iteritems, itervalues
 from collections import OrderedDict
 
@@ -217,7 +219,7 @@ class LinearGaussSeidel(LinearSolver):
             self.print_norm(self.print_name, system, self.iter_count,
                             f_norm, f_norm0, indent=1, solver='LN')
 
-        if maxiter > 1 and self.iter_count >= maxiter:
+        if maxiter > 1 and (self.iter_count >= maxiter or isnan(f_norm)):
             msg = 'FAILED to converge after %d iterations' % self.iter_count
             failed = True
         else:
-- 
2.43.0


From 9d54d3efbde6721d4f3d58a5042e1e75e1524123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:13 +0000
Subject: [PATCH 11/62] fix: an infinite residual norm is a failure, not
 convergence

---
 openmdao/solvers/backtracking.py    | 4 ++--
 openmdao/solvers/newton.py          | 4 ++--
 openmdao/solvers/nl_gauss_seidel.py | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/openmdao/solvers/backtracking.py b/openmdao/solvers/backtracking.py
index 6a664f0..c125c64 100644
--- a/openmdao/solvers/backtracking.py
+++ b/openmdao/solvers/backtracking.py
@@ -1,6 +1,6 @@
 """ Backtracking line search using the Armijo-Goldstein condition."""
 
-from math import isnan
+from math import isinf, isnan
 
 import numpy as np
 
@@ -146,7 +146,7 @@ class BackTracking(LineSearch):
             self.print_norm(self.print_name, system, itercount,
                             fnorm, fnorm0, indent=1, solver='LS')
 
-        if itercount >= maxiter or isnan(fnorm):
+        if itercount >= maxiter or isnan(fnorm) or isinf(fnorm):
 
             if self.options['err_on_maxiter']:
                 msg = "Solve in '{}': BackTracking failed to converge after {} " \
diff --git a/openmdao/solvers/newton.py b/openmdao/solvers/newton.py
index a986184..d27eb96 100644
--- a/openmdao/solvers/newton.py
+++ b/openmdao/solvers/newton.py
@@ -1,6 +1,6 @@
 """ Non-linear solver that implements a Newton's method."""
 
-from math import isnan
+from math import isinf, isnan
 
 import numpy as np
 
@@ -253,7 +253,7 @@ class Newton(NonLinearSolver):
             self.print_norm(self.print_name, system, self.iter_count,
                             f_norm, f_norm0, u_norm=u_norm)
 
-        if self.iter_count >= maxiter or isnan(f_norm):
+        if self.iter_count >= maxiter or isnan(f_norm) or isinf(f_norm):
             msg = 'FAILED to converge after %d iterations' % self.iter_count
             fail = True
         else:
diff --git a/openmdao/solvers/nl_gauss_seidel.py b/openmdao/solvers/nl_gauss_seidel.py
index 83e28bf..c3f1830 100644
--- a/openmdao/solvers/nl_gauss_seidel.py
+++ b/openmdao/solvers/nl_gauss_seidel.py
@@ -1,6 +1,6 @@
 """ Gauss Seidel non-linear solver."""
 
-from math import isnan
+from math import isinf, isnan
 
 import numpy as np
 
@@ -200,7 +200,7 @@ class NLGaussSeidel(NonLinearSolver):
             self.print_norm(self.print_name, system, self.iter_count, normval,
                             basenorm, u_norm=u_norm)
 
-        if self.iter_count >= maxiter or isnan(normval):
+        if self.iter_count >= maxiter or isnan(normval) or isinf(normval):
             msg = 'FAILED to converge after %d iterations' % self.iter_count
             fail = True
         else:
-- 
2.43.0


From 85b259167c10c2a1cfe086e0c8216ef01d5d825b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:13 +0000
Subject: [PATCH 12/62] fix: Brent reports a failure to converge unless
 printing is suppressed

---
 openmdao/solvers/brent.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/openmdao/solvers/brent.py b/openmdao/solvers/brent.py
index d443ffc..9301c64 100644
--- a/openmdao/solvers/brent.py
+++ b/openmdao/solvers/brent.py
@@ -192,7 +192,8 @@ class Brent(NonLinearSolver):
 
         resid_norm = abs(resids._dat[self.s_var_name].val[idx])
 
-        if self.options['iprint'] > 0:
+        iprint = self.options['iprint']
+        if iprint > 0 or (failed and iprint > -1):
 
             if not failed:
                 msg = 'Converged'
-- 
2.43.0


From 1fe7c017fcb445800bb7792ffad5d91f6cdbafbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:56 +0000
Subject: [PATCH 13/62] fix: DirContext remembers the starting directory of
 every active use, so that re-entering it restores the caller's directory

---
 openmdao/util/file_util.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/openmdao/util/file_util.py b/openmdao/util/file_util.py
index 9b23e63..81d2c97 100644
--- a/openmdao/util/file_util.py
+++ b/openmdao/util/file_util.py
@@ -193,11 +193,15 @@ class DirContext(object):
 
     def __init__(self, dpath):
         self.dpath = dpath
+        # starting directory of each active use, since the same instance
+        # may be entered again before it has been exited.
+        self._starts = []
 
     def __enter__(self):
-        self.start = os.getcwd()
+        start = os.getcwd()
         os.chdir(self.dpath)
+        self._starts.append(start)
         return self.dpath
 
     def __exit__(self, exc_type, exc_val, exc_tb):
-        os.chdir(self.start)
+        os.chdir(self._starts.pop())
-- 
2.43.0


From 831aafef89e1a7e1ae925b442ed6f344a73bb522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:56 +0000
Subject: [PATCH 14/62] fix: Evaluate residuals of a subsystem in that
 subsystem's own directory

---
 openmdao/core/group.py          |  9 +++++----
 openmdao/core/parallel_group.py | 11 ++++++-----
 2 files changed, 11 insertions(+), 9 deletions(-)

diff --git a/openmdao/core/group.py b/openmdao/core/group.py
index 17eb7cf..2d67e64 100644
--- a/openmdao/core/group.py
+++ b/openmdao/core/group.py
@@ -812,10 +812,11 @@ class Group(System):
 
             self._transfer_data(sub.name)
             if sub.is_active():
-                if isinstance(sub, Component):
-                    sub._sys_apply_nonlinear(sub.params, sub.unknowns, sub.resids)
-                else:
-                    sub.apply_nonlinear(sub.params, sub.unknowns, sub.resids, metadata)
+                with sub._dircontext:
+                    if isinstance(sub, Component):
+                        sub._sys_apply_nonlinear(sub.params, sub.unknowns, sub.resids)
+                    else:
+                        sub.apply_nonlinear(sub.params, sub.unknowns, sub.resids, metadata)
 
     def linearize(self, params, unknowns, resids):
         """
diff --git a/openmdao/core/parallel_group.py b/openmdao/core/parallel_group.py
index 7ba54f2..0b55a10 100644
--- a/openmdao/core/parallel_group.py
+++ b/openmdao/core/parallel_group.py
@@ -70,11 +70,12 @@ class ParallelGroup(Group):
         self._transfer_data()
 
         for sub in self._local_subsystems:
-            if isinstance(sub, Component):
-                sub.apply_nonlinear(sub.params, sub.unknowns, sub.resids)
-            else:
-                sub.apply_nonlinear(sub.params, sub.unknowns, sub.resids,
-                                    metadata)
+            with sub._dircontext:
+                if isinstance(sub, Component):
+                    sub.apply_nonlinear(sub.params, sub.unknowns, sub.resids)
+                else:
+                    sub.apply_nonlinear(sub.params, sub.unknowns, sub.resids,
+                                        metadata)
 
     def children_solve_nonlinear(self, metadata):
         """Loops over our children systems and asks them to solve."""
-- 
2.43.0


From 4c0de57dc4987fa6bfcfa2fa54a8f0a93593c2fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:56 +0000
Subject: [PATCH 15/62] fix: check_partial_derivatives runs a component in its
 own directory

---
 openmdao/core/problem.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/openmdao/core/problem.py b/openmdao/core/problem.py
index cc853fc..907a4d1 100644
--- a/openmdao/core/problem.py
+++ b/openmdao/core/problem.py
@@ -2097,8 +2097,9 @@ class Problem(object):
             else:
                 fd_func = comp.fd_jacobian
 
-            jac_fd = fd_func(params, unknowns, resids, use_check=True,
-                             option_overrides=global_options)
+            with comp._dircontext:
+                jac_fd = fd_func(params, unknowns, resids, use_check=True,
+                                 option_overrides=global_options)
 
             # Extra Finite Difference if requested. We use the settings in
             # the component for these.
@@ -2113,8 +2114,9 @@ class Problem(object):
                 else:
                     fd_func = comp.fd_jacobian
 
-                jac_fd2 = fd_func(params, unknowns, resids,
-                                  option_overrides=global_options)
+                with comp._dircontext:
+                    jac_fd2 = fd_func(params, unknowns, resids,
+                                      option_overrides=global_options)
 
             # Assemble and Return all metrics.
             _assemble_deriv_data(chain(dparams, states), resids, data[cname],
-- 
2.43.0


From 4af9b5e9020ec61aba8ed21f035a004da53f9aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:22 +0000
Subject: [PATCH 16/62] fix: ParallelGroup applies the residual scaling of its
 components as Group does

---
 openmdao/core/parallel_group.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/openmdao/core/parallel_group.py b/openmdao/core/parallel_group.py
index 0b55a10..812a98e 100644
--- a/openmdao/core/parallel_group.py
+++ b/openmdao/core/parallel_group.py
@@ -72,7 +72,7 @@ class ParallelGroup(Group):
         for sub in self._local_subsystems:
             with sub._dircontext:
                 if isinstance(sub, Component):
-                    sub.apply_nonlinear(sub.params, sub.unknowns, sub.resids)
+                    sub._sys_apply_nonlinear(sub.params, sub.unknowns, sub.resids)
                 else:
                     sub.apply_nonlinear(sub.params, sub.unknowns, sub.resids,
                                         metadata)
@@ -86,7 +86,7 @@ class ParallelGroup(Group):
         for sub in self._local_subsystems:
             with sub._dircontext:
                 if isinstance(sub, Component):
-                    sub.solve_nonlinear(sub.params, sub.unknowns, sub.resids)
+                    sub._sys_solve_nonlinear(sub.params, sub.unknowns, sub.resids)
                 else:
                     sub.solve_nonlinear(sub.params, sub.unknowns, sub.resids,
                                         metadata)
-- 
2.43.0


From 5a51543f353426d357385bcb1f1d80664e46226e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:21 +0000
Subject: [PATCH 17/62] fix: IndepVarComp starts from a zero right-hand side in
 reverse mode too

In reverse mode _sys_apply_linear subtracted from whatever was left in
dunknowns, so LinearGaussSeidel's linear residual never went to zero and a
reverse solve with maxiter > 1 always ran to maxiter and reported failure.
---
 openmdao/components/indep_var_comp.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/openmdao/components/indep_var_comp.py b/openmdao/components/indep_var_comp.py
index 0009097..689da44 100644
--- a/openmdao/components/indep_var_comp.py
+++ b/openmdao/components/indep_var_comp.py
@@ -86,11 +86,12 @@ class IndepVarComp(Component):
         """
         if mode == 'fwd':
             sol_vec, rhs_vec = self.dumat, self.drmat
-            for voi in vois:
-                rhs_vec[voi].vec[:] = 0.0
         else:
             sol_vec, rhs_vec = self.drmat, self.dumat
 
+        for voi in vois:
+            rhs_vec[voi].vec[:] = 0.0
+
         # Note, we solve a slightly modified version of the unified
         # derivatives equations in OpenMDAO.
         # (dR/du) * (du/dr) = -I
-- 
2.43.0


From d250ab7140ed71c43a1ea4adee83ca17bd389952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:59 +0000
Subject: [PATCH 18/62] fix: assembled Jacobian adds up inputs that share a
 source, in the right units

assemble_jacobian overwrote the entry of one input with that of another one
connected to the same output, and ignored unit conversion, residual scaling
and src_indices, so DirectSolver with jacobian_method 'assemble' silently
returned wrong derivatives where the default 'MVP' was right.
---
 openmdao/core/group.py | 34 +++++++++++++++++++++++++++++++---
 1 file changed, 31 insertions(+), 3 deletions(-)

diff --git a/openmdao/core/group.py b/openmdao/core/group.py
index 2d67e64..cd1454b 100644
--- a/openmdao/core/group.py
+++ b/openmdao/core/group.py
@@ -1048,16 +1048,22 @@ class Group(System):
 
                 sub_u = sub.unknowns
                 sub_name = sub.pathname
+                user = sub.deriv_options['type'] == 'user'
+
+                # States have no identity of their own.
+                for s_var in sub.states:
+                    start, end = u_vec._dat[sys_prom_name['.'.join((sub_name, s_var))]].slice
+                    partials[start:end, start:end] = 0.0
 
                 for key in jac:
                     o_var, i_var = key
                     key2 = (sub_name, key)
+                    i_var_abs = '.'.join((sub_name, i_var))
 
                     # We cache the location of each variable in our jacobian
                     if key2 not in icache:
 
                         o_var_abs = '.'.join((sub_name, o_var))
-                        i_var_abs = '.'.join((sub_name, i_var))
                         i_var_pro = sys_prom_name[i_var_abs]
                         o_var_pro = sys_prom_name[o_var_abs]
 
@@ -1083,10 +1089,32 @@ class Group(System):
                     else:
                         (o_start, o_end, i_start, i_end) = icache[key2]
 
+                    # A component's own derivatives are in its own units and
+                    # unscaled; finite differenced ones are not.
+                    pd = jac[key]
+                    if user:
+                        if i_var not in sub.states:
+                            unit_conv = sub.params.metadata(i_var).get('unit_conv')
+                            if unit_conv:
+                                pd = pd*unit_conv[0]
+                        resid_scaler = sub_u.metadata(o_var).get('resid_scaler')
+                        if resid_scaler:
+                            pd = pd/resid_scaler
+
+                    idxs = None
+                    if i_var not in sub.states and i_var_abs in conn:
+                        idxs = conn[i_var_abs][1]
+
+                    # Several inputs may share a source, so accumulate.
+                    cols = np.arange(i_start, i_end)
+                    if idxs is not None:
+                        cols = cols[idxs]
+                    rows = np.arange(o_start, o_end)
+
                     if mode=='fwd':
-                        partials[o_start:o_end, i_start:i_end] = jac[o_var, i_var]
+                        np.add.at(partials, np.ix_(rows, cols), pd)
                     else:
-                        partials[i_start:i_end, o_start:o_end] = jac[o_var, i_var].T
+                        np.add.at(partials, np.ix_(cols, rows), pd.T)
 
         return partials, icache
 
-- 
2.43.0


From dadafc75999558046ad342def413f53b05701ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:06 +0000
Subject: [PATCH 19/62] fix: DirectSolver rebuilds its matrix when the
 derivative direction changes

With an unchanged Jacobian, a reverse solve after a forward one (or the other
way round) reused the factorization of the other direction.
---
 openmdao/solvers/ln_direct.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openmdao/solvers/ln_direct.py b/openmdao/solvers/ln_direct.py
index d9a1c71..93176b1 100644
--- a/openmdao/solvers/ln_direct.py
+++ b/openmdao/solvers/ln_direct.py
@@ -112,7 +112,7 @@ class DirectSolver(MultLinearSolver):
         for voi, rhs in rhs_mat.items():
             self.voi = None
 
-            if system._jacobian_changed:
+            if system._jacobian_changed or self.mode != mode:
                 method = self.options['jacobian_method']
 
                 # Must clear the jacobian if we switch modes
-- 
2.43.0


From 0dbbd39f93235e2d724370fbb656a613dc5ae93d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:00 +0000
Subject: [PATCH 20/62] fix: finite-differenced derivative of a design variable
 with respect to itself is the identity

---
 openmdao/core/system.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/openmdao/core/system.py b/openmdao/core/system.py
index 2e04920..482fc17 100644
--- a/openmdao/core/system.py
+++ b/openmdao/core/system.py
@@ -778,12 +778,10 @@ class System(object):
                     for u_name in pass_unknowns:
                         if u_name == param_src:
                             if qoi_indices and u_name in qoi_indices:
-                                q_idxs = qoi_indices[u_name]
-                                if idx in q_idxs:
-                                    row = qoi_indices[u_name].index(idx)
-                                    jac[u_name, p_name][row][col] = 1.0
+                                row = np.equal(qoi_indices[u_name], idx)
                             else:
-                                jac[u_name, p_name] = np.array([[1.0]])
+                                row = idx
+                            jac[u_name, p_name][row, col] = 1.0
 
                     # Restore old residual
                     resultvec.vec[:] = cache1
-- 
2.43.0


From f51001562cbe57764cbb2a70e9db213fb17562ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:16 +0000
Subject: [PATCH 21/62] fix: DOE worker process answers every case it takes
 from the queue

After a fatal error the worker discarded further cases without answering
them, and a failure to set a case's design variables ended it, so the main
process waited forever for the missing responses.
---
 openmdao/drivers/predeterminedruns_driver.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/openmdao/drivers/predeterminedruns_driver.py b/openmdao/drivers/predeterminedruns_driver.py
index 4d77d9b..c6da8b6 100644
--- a/openmdao/drivers/predeterminedruns_driver.py
+++ b/openmdao/drivers/predeterminedruns_driver.py
@@ -47,12 +47,20 @@ def worker(problem, response_vars, case_queue, response_queue, worker_id): # pra
         for case_id, case in iter(case_queue.get, 'STOP'):
             #logging.info("worker %d, case id %d, case %s" % (worker_id, case_id, case))
 
+            metadata = create_local_meta(None, 'Driver')
+
             if terminate:
+                # every case taken off of the queue must be answered, otherwise
+                # the main process would wait forever for its responses.
+                metadata['msg'] = "case not run: worker has terminated."
+                metadata['success'] = 0
+                metadata['terminate'] = 1
+                metadata['id'] = case_id
+                response_queue.put((metadata, []))
                 continue
 
-            metadata = driver._prep_case(case, case_id)
-
             try:
+                metadata = driver._prep_case(case, case_id)
                 terminate, exc = driver._try_case(root, metadata)
                 if terminate:
                     complete_case = (metadata, [])
-- 
2.43.0


From 308e8c921f0235e3cd107bb19bbd1d7e4e6c3de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:16 +0000
Subject: [PATCH 22/62] fix: repeated perturbations keep a Latin hypercube
 Latin

Elements were interchanged using the values of the original design, so a
second interchange in the same column could duplicate one value and lose
another.
---
 openmdao/drivers/latinhypercube_driver.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/openmdao/drivers/latinhypercube_driver.py b/openmdao/drivers/latinhypercube_driver.py
index f62337b..871f5c4 100644
--- a/openmdao/drivers/latinhypercube_driver.py
+++ b/openmdao/drivers/latinhypercube_driver.py
@@ -234,8 +234,8 @@ class _LHC_Individual(object):
             while el1 == el2:
                 el2 = randint(0, n - 1)
 
-            new_doe[el1, col] = self.doe[el2, col]
-            new_doe[el2, col] = self.doe[el1, col]
+            new_doe[el1, col], new_doe[el2, col] = \
+                new_doe[el2, col], new_doe[el1, col]
 
         return _LHC_Individual(new_doe, self.q, self.p)
 
-- 
2.43.0


From 9e90ac7936511dc3c3b1d5f36b81b2f73157f348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:12 +0000
Subject: [PATCH 23/62] fix: concurrent_eval_lb evaluates the cases when there
 is only one process

With a communicator of size one there are no workers, and every case was
silently skipped.
---
 openmdao/util/concurrent.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/openmdao/util/concurrent.py b/openmdao/util/concurrent.py
index 76f7c08..50a3ab3 100644
--- a/openmdao/util/concurrent.py
+++ b/openmdao/util/concurrent.py
@@ -19,14 +19,16 @@ def concurrent_eval_lb(func, cases, comm, broadcast=False):
 
     com : MPI communicator or None
         The MPI communicator that is shared between the master and workers.
-        If None, the function will be executed serially.
+        If None, or if it contains only one process, the function will be
+        executed serially.
 
     broadcast : bool, optional
         If True, the results will be broadcast out to the worker procs so
         that the return value of concurrent_eval_lb will be the full result
         list in every process.
     """
-    if comm is not None:
+    # a lone process has no workers to send cases to, so it runs them itself
+    if comm is not None and comm.size > 1:
         if comm.rank == 0:  # master rank
             results = _concurrent_eval_lb_master(cases, comm)
         else:
-- 
2.43.0


From a8ab24d2bd6d789e07eaecfed9328bde449f402a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:09 +0000
Subject: [PATCH 24/62] fix: complex step of a component converts the stepped
 input to the input's units

The stepped input was seen by the component in the units of its source, so
derivatives were evaluated at the wrong point and not scaled.
---
 openmdao/core/vec_wrapper_complex_step.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/openmdao/core/vec_wrapper_complex_step.py b/openmdao/core/vec_wrapper_complex_step.py
index dbd2b59..fb9ee0d 100644
--- a/openmdao/core/vec_wrapper_complex_step.py
+++ b/openmdao/core/vec_wrapper_complex_step.py
@@ -33,7 +33,15 @@ class ComplexStepTgtVecWrapper(object):
             The unflattened value of the named variable.
         """
         if name == self.step_var:
-            return self.step_val.reshape(self.vecwrap[name].shape)
+            val = self.step_val
+
+            # the step is made in the units of the source
+            unit_conv = self.vecwrap._dat[name].meta.get('unit_conv')
+            if unit_conv:
+                scale, offset = unit_conv
+                val = scale*(val + offset)
+
+            return val.reshape(self.vecwrap[name].shape)
 
         return self.vecwrap._dat[name].get()
 
-- 
2.43.0


From 1cd288284ef90202227645040cefaa49f8c9c176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:48 +0000
Subject: [PATCH 25/62] fix: check shapes of connections whose source is
 declared with pass_by_obj=False

---
 openmdao/core/_checks.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openmdao/core/_checks.py b/openmdao/core/_checks.py
index 9cea879..3dc25d1 100644
--- a/openmdao/core/_checks.py
+++ b/openmdao/core/_checks.py
@@ -32,7 +32,7 @@ def check_connections(connections, params_dict, unknowns_dict, to_prom_name):
         tmeta = params_dict[tgt]
         smeta = unknowns_dict[src]
         _check_types_match(smeta, tmeta, to_prom_name)
-        if 'pass_by_obj' not in smeta and 'pass_by_obj' not in smeta:
+        if not smeta.get('pass_by_obj'):
             errors.extend(_check_shapes_match(smeta, tmeta, to_prom_name))
 
     # FileRefs require a separate check, because if multiple input FileRefs
-- 
2.43.0


From aa936da26a3a04feba85d17f6220e948fd64fd76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:48 +0000
Subject: [PATCH 26/62] fix: reject source indices whose number differs from
 the size of the input

---
 openmdao/core/_checks.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openmdao/core/_checks.py b/openmdao/core/_checks.py
index 3dc25d1..27e3cc3 100644
--- a/openmdao/core/_checks.py
+++ b/openmdao/core/_checks.py
@@ -110,7 +110,7 @@ def __check_shapes_match(src, target, to_prom_name):
 
     src_idxs = target.get('src_indices')
 
-    if src['shape'] != target['shape']:
+    if src_idxs is not None or src['shape'] != target['shape']:
         if src_idxs is not None:
             if len(src_idxs) != target['size']:
                 errors.append("Size %d of the indexed sub-part of source "
-- 
2.43.0


From e32c994b9caedb167ced9307837903e908ca715a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:11 +0000
Subject: [PATCH 27/62] fix: name each solver level once in iteration
 coordinates

NLGaussSeidel, Newton, Brent and BackTracking appended the full pathname
of their system to the parent coordinate, so a recorder on a solver two
levels down looked for the variables of 'a.a.b' and failed with KeyError.
---
 openmdao/solvers/backtracking.py    | 2 +-
 openmdao/solvers/brent.py           | 2 +-
 openmdao/solvers/newton.py          | 2 +-
 openmdao/solvers/nl_gauss_seidel.py | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/openmdao/solvers/backtracking.py b/openmdao/solvers/backtracking.py
index c125c64..c5a1875 100644
--- a/openmdao/solvers/backtracking.py
+++ b/openmdao/solvers/backtracking.py
@@ -101,7 +101,7 @@ class BackTracking(LineSearch):
         c = self.options['c']
         iprint = self.options['iprint']
         result = system.dumat[None]
-        local_meta = create_local_meta(metadata, system.pathname)
+        local_meta = create_local_meta(metadata, system.name)
 
         itercount = 0
         ls_alpha = alpha_scalar
diff --git a/openmdao/solvers/brent.py b/openmdao/solvers/brent.py
index 9301c64..63f8271 100644
--- a/openmdao/solvers/brent.py
+++ b/openmdao/solvers/brent.py
@@ -142,7 +142,7 @@ class Brent(NonLinearSolver):
         """
         self.sys = system
         self.metadata = metadata
-        self.local_meta = create_local_meta(self.metadata, self.sys.pathname)
+        self.local_meta = create_local_meta(self.metadata, self.sys.name)
         self.sys.ln_solver.local_meta = self.local_meta
         idx = self.options['state_var_idx']
 
diff --git a/openmdao/solvers/newton.py b/openmdao/solvers/newton.py
index d27eb96..5952818 100644
--- a/openmdao/solvers/newton.py
+++ b/openmdao/solvers/newton.py
@@ -147,7 +147,7 @@ class Newton(NonLinearSolver):
 
         # Metadata setup
         self.iter_count = 0
-        local_meta = create_local_meta(metadata, system.pathname)
+        local_meta = create_local_meta(metadata, system.name)
         if self.ln_solver:
             self.ln_solver.local_meta = local_meta
         else:
diff --git a/openmdao/solvers/nl_gauss_seidel.py b/openmdao/solvers/nl_gauss_seidel.py
index c3f1830..c43d75d 100644
--- a/openmdao/solvers/nl_gauss_seidel.py
+++ b/openmdao/solvers/nl_gauss_seidel.py
@@ -107,7 +107,7 @@ class NLGaussSeidel(NonLinearSolver):
         self.iter_count = 1
 
         # Metadata setup
-        local_meta = create_local_meta(metadata, system.pathname)
+        local_meta = create_local_meta(metadata, system.name)
         system.ln_solver.local_meta = local_meta
         update_local_meta(local_meta, (self.iter_count,))
 
-- 
2.43.0


From 2918ae0b39c8663842930156d01bcf9da90f43df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:34 +0000
Subject: [PATCH 28/62] fix: InMemoryRecorder records values, not live views

Array values were kept as views of the model's vectors, so every recorded
case (and every DOE response) read as the latest one.
---
 openmdao/recorders/inmem_recorder.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/openmdao/recorders/inmem_recorder.py b/openmdao/recorders/inmem_recorder.py
index 8ec23f4..e3e483e 100644
--- a/openmdao/recorders/inmem_recorder.py
+++ b/openmdao/recorders/inmem_recorder.py
@@ -5,6 +5,7 @@ and using it for real problems could use up large amounts of memory.
 """
 
 import sys
+from copy import deepcopy
 
 from six import string_types, iteritems
 
@@ -78,17 +79,17 @@ class InMemoryRecorder(BaseRecorder):
         data['msg'] = metadata['msg']
 
         if self.options['record_params']:
-            data['params'] = {p:v for p,v in
+            data['params'] = {p:deepcopy(v) for p,v in
                                  iteritems(self._filter_vector(params,'p',
                                                         iteration_coordinate))}
 
         if self.options['record_unknowns']:
-            data['unknowns'] = {u:v for u,v in
+            data['unknowns'] = {u:deepcopy(v) for u,v in
                                   iteritems(self._filter_vector(unknowns,'u',
                                                         iteration_coordinate))}
 
         if self.options['record_resids']:
-            data['resids'] = {r:v for r,v in
+            data['resids'] = {r:deepcopy(v) for r,v in
                                   iteritems(self._filter_vector(resids,'r',
                                                          iteration_coordinate))}
 
@@ -122,6 +123,6 @@ class InMemoryRecorder(BaseRecorder):
         timestamp = metadata['timestamp']
 
         data['timestamp'] = timestamp
-        data['Derivatives'] = derivs
+        data['Derivatives'] = deepcopy(derivs)
 
         self.deriv_iters.append(data)
-- 
2.43.0


From b50d2170551e0ff27777e1c7ba20d8c37ff387a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:34 +0000
Subject: [PATCH 29/62] fix: InMemoryRecorder says which iteration derivatives
 belong to

---
 openmdao/recorders/inmem_recorder.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/openmdao/recorders/inmem_recorder.py b/openmdao/recorders/inmem_recorder.py
index e3e483e..05a42c6 100644
--- a/openmdao/recorders/inmem_recorder.py
+++ b/openmdao/recorders/inmem_recorder.py
@@ -120,9 +120,11 @@ class InMemoryRecorder(BaseRecorder):
 
         data = {}
         iteration_coordinate = metadata['coord']
-        timestamp = metadata['timestamp']
 
-        data['timestamp'] = timestamp
+        data['timestamp'] = metadata['timestamp']
+        data['iter'] = format_iteration_coordinate(iteration_coordinate)
+        data['success'] = metadata['success']
+        data['msg'] = metadata['msg']
         data['Derivatives'] = deepcopy(derivs)
 
         self.deriv_iters.append(data)
-- 
2.43.0


From 904ec0181599ceefdf42f0d69ba9e8c91a68a8e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:34 +0000
Subject: [PATCH 30/62] fix: DumpRecorder labels a failed iteration

The conditional applied to the whole formatted string, so a failure was
written as a bare 'no' run into the error message.
---
 openmdao/recorders/dump_recorder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openmdao/recorders/dump_recorder.py b/openmdao/recorders/dump_recorder.py
index 49167f4..7274852 100644
--- a/openmdao/recorders/dump_recorder.py
+++ b/openmdao/recorders/dump_recorder.py
@@ -158,7 +158,7 @@ class DumpRecorder(BaseRecorder):
         if latest iteration didn't succeed.
         """
         self.out.write("Iteration succeeded: %s\n" %
-                           'yes' if metadata['success'] else 'no')
+                           ('yes' if metadata['success'] else 'no'))
         if not metadata['success']:
             self.out.write("Error msg: %s\n" % metadata['msg'])
 
-- 
2.43.0


From badf63fe0ab9829b8d42503d03cdc3e1529613ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:34 +0000
Subject: [PATCH 31/62] fix: SqliteCaseReader gives a case its derivatives

They were stored in an attribute nothing reads, so case.derivs was None.
---
 openmdao/recorders/sqlite_reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openmdao/recorders/sqlite_reader.py b/openmdao/recorders/sqlite_reader.py
index 05eb986..e8373ee 100644
--- a/openmdao/recorders/sqlite_reader.py
+++ b/openmdao/recorders/sqlite_reader.py
@@ -90,6 +90,6 @@ class SqliteCaseReader(CaseReaderBase):
                 pass
             else:
                 if _case_id in derivs_db:
-                    case._derivs = derivs_db[_case_id].get('Derivatives', None)
+                    case.derivs = derivs_db[_case_id].get('Derivatives', None)
 
         return case
-- 
2.43.0


From bb41111f5e200c067ed904e54df28d61e31657c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:10 +0000
Subject: [PATCH 32/62] fix: HDF5CaseReader gives a case its status and
 derivatives

The recorder stores timestamp, success and msg as attributes and the
derivatives under 'Derivs'; the reader looked for neither.
---
 openmdao/recorders/hdf5_reader.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/openmdao/recorders/hdf5_reader.py b/openmdao/recorders/hdf5_reader.py
index aeacef7..3073b1d 100644
--- a/openmdao/recorders/hdf5_reader.py
+++ b/openmdao/recorders/hdf5_reader.py
@@ -104,5 +104,13 @@ class HDF5CaseReader(CaseReaderBase):
             _case_id = case_id
 
         with h5py.File(self.filename, 'r') as f:
-            case_dict = _group_to_dict(f[_case_id])
+            case_group = f[_case_id]
+            case_dict = _group_to_dict(case_group)
+
+            # timestamp, success and msg are recorded as attributes
+            case_dict.update(case_group.attrs)
+
+            if 'Derivs' in case_dict:
+                case_dict['Derivatives'] = case_dict.pop('Derivs')['Derivatives']
+
             return Case(self.filename, _case_id, case_dict)
-- 
2.43.0


From 32a0f2195605f305f04212f877734ff27a64ecea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:10 +0000
Subject: [PATCH 33/62] fix: HDF5CaseReader indexes cases in the order they
 were recorded

HDF5 sorts keys by name, so 'Driver|10' came before 'Driver|2' and
get_case(-1) was not the last case.
---
 openmdao/recorders/hdf5_reader.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/openmdao/recorders/hdf5_reader.py b/openmdao/recorders/hdf5_reader.py
index 3073b1d..f02a1f5 100644
--- a/openmdao/recorders/hdf5_reader.py
+++ b/openmdao/recorders/hdf5_reader.py
@@ -77,8 +77,11 @@ class HDF5CaseReader(CaseReaderBase):
                 if isinstance(self._unknowns, h5py.Group):
                     self._unknowns = _group_to_dict(self._unknowns)
 
-                self._case_keys = tuple([key for key in f.keys()
-                                         if key != 'metadata'])
+                # HDF5 lists its keys by name; cases are indexed in the order
+                # in which they were recorded.
+                self._case_keys = tuple(sorted([key for key in f.keys()
+                                                if key != 'metadata'],
+                                               key=lambda key: f[key].attrs['timestamp']))
         else:
             raise ValueError('HDF5CaseReader encountered an unhandled '
                              'format version: {0}'.format(self.format_version))
-- 
2.43.0


From dda544aa4498314e7eecd143f7a35d1e23679bb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:10 +0000
Subject: [PATCH 34/62] fix: case readers expose the recorded variable metadata

The documented attributes parameters and unknowns were always None; the
metadata went to attributes nothing reads.
---
 openmdao/recorders/hdf5_reader.py   | 12 ++++++------
 openmdao/recorders/sqlite_reader.py |  4 ++--
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/openmdao/recorders/hdf5_reader.py b/openmdao/recorders/hdf5_reader.py
index f02a1f5..294efc0 100644
--- a/openmdao/recorders/hdf5_reader.py
+++ b/openmdao/recorders/hdf5_reader.py
@@ -68,14 +68,14 @@ class HDF5CaseReader(CaseReaderBase):
         """ Load the metadata and iteration keys from the given file. """
         if self.format_version in (3, 4):
             with h5py.File(self.filename, 'r') as f:
-                self._parameters = f['metadata'].get('Parameters', None)
-                self._unknowns = f['metadata'].get('Unknowns', None)
+                self.parameters = f['metadata'].get('Parameters', None)
+                self.unknowns = f['metadata'].get('Unknowns', None)
 
-                if isinstance(self._parameters, h5py.Group):
-                    self._parameters = _group_to_dict(self._parameters)
+                if isinstance(self.parameters, h5py.Group):
+                    self.parameters = _group_to_dict(self.parameters)
 
-                if isinstance(self._unknowns, h5py.Group):
-                    self._unknowns = _group_to_dict(self._unknowns)
+                if isinstance(self.unknowns, h5py.Group):
+                    self.unknowns = _group_to_dict(self.unknowns)
 
                 # HDF5 lists its keys by name; cases are indexed in the order
                 # in which they were recorded.
diff --git a/openmdao/recorders/sqlite_reader.py b/openmdao/recorders/sqlite_reader.py
index e8373ee..6560b6f 100644
--- a/openmdao/recorders/sqlite_reader.py
+++ b/openmdao/recorders/sqlite_reader.py
@@ -48,8 +48,8 @@ class SqliteCaseReader(CaseReaderBase):
         if self.format_version in (3, 4):
             # Read the metadata and save it in the reader
             with SqliteDict(self.filename, 'metadata', flag='r') as db:
-                self._parameters = db.get('Parameters', None)
-                self._unknowns = db.get('Unknowns', None)
+                self.parameters = db.get('Parameters', None)
+                self.unknowns = db.get('Unknowns', None)
 
             # Store the identifier for each iteration in _case_keys
             with SqliteDict(self.filename, 'iterations', flag='r') as db:
-- 
2.43.0


From 1bdd2317c70a2c48d059944fceeb779ba773ec75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:59 +0000
Subject: [PATCH 35/62] fix: pyOptSparseDriver records a failed model run as
 failed

An AnalysisError is left to the optimizer, but the iteration was recorded
with success = 1 and no message.
---
 openmdao/drivers/pyoptsparse_driver.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/openmdao/drivers/pyoptsparse_driver.py b/openmdao/drivers/pyoptsparse_driver.py
index 73b4c67..ca71d08 100644
--- a/openmdao/drivers/pyoptsparse_driver.py
+++ b/openmdao/drivers/pyoptsparse_driver.py
@@ -461,6 +461,8 @@ class pyOptSparseDriver(Driver):
 
             self.iter_count += 1
             update_local_meta(metadata, (self.iter_count,))
+            metadata['success'] = 1
+            metadata['msg'] = ''
 
             try:
                 with self.root._dircontext:
@@ -469,6 +471,8 @@ class pyOptSparseDriver(Driver):
             # Let the optimizer try to handle the error
             except AnalysisError:
                 fail = 1
+                metadata['success'] = 0
+                metadata['msg'] = traceback.format_exc()
 
             func_dict = self.get_objectives() # this returns a new OrderedDict
             func_dict.update(self.get_constraints())
-- 
2.43.0


From 4a4db639422d75fd8521e7a1b42ad7b5351d8230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:28 +0000
Subject: [PATCH 36/62] fix: give every input joined to a connected input the
 same source

---
 openmdao/core/problem.py | 80 ++++++++++++++++++++++++++--------------
 1 file changed, 52 insertions(+), 28 deletions(-)

diff --git a/openmdao/core/problem.py b/openmdao/core/problem.py
index 907a4d1..7069269 100644
--- a/openmdao/core/problem.py
+++ b/openmdao/core/problem.py
@@ -231,14 +231,7 @@ class Problem(object):
             # walk depth first from each unknown src to each connected input,
             # updating src_indices if necessary
             for s, t in nx.dfs_edges(input_graph, src):
-                tidxs = input_graph[s][t]['idxs']
-                sidxs = src_idxs[s]
-
-                if tidxs is None:
-                    tidxs = sidxs
-                elif sidxs is not None:
-                    tidxs = np.array(sidxs)[tidxs]
-
+                tidxs = _compose_indices(src_idxs[s], input_graph[s][t]['idxs'])
                 src_idxs[t] = tidxs
 
                 if t in newconns:
@@ -251,27 +244,47 @@ class Problem(object):
         # now all nodes that are downstream of an unknown source have been
         # marked.  Anything left must be an input that is either dangling or
         # upstream of an input that does have an unknown source.
-        for node in input_graph.nodes_iter():
-            # only look at unmarked nodes that have 0 in_degree
-            if node not in newconns and len(input_graph.pred[node]) == 0:
-                nosrc = [node]
-                # walk dfs from this input 'src' node until we hit a param
-                # that has an unknown src
+        # only look at unmarked nodes that have 0 in_degree
+        starts = [n for n in input_graph.nodes_iter()
+                       if n not in newconns and len(input_graph.pred[n]) == 0]
+
+        # an input that gets its source this way may be the one that other
+        # inputs get theirs from, so repeat until no more sources are found
+        found = True
+        while found:
+            found = False
+            for node in starts:
+                if node in newconns:
+                    continue
+
+                # walk dfs from this input 'src' node to every param below it
+                idxs = OrderedDict([(node, None)])
                 for s, t in nx.dfs_edges(input_graph, node):
-                    if t in newconns:  # found param with unknown src
-                        src = newconns[t][0][0]
-                        # connect the unknown src to all of the inputs connected
-                        # to the current node that have no unknown src
-                        for n in nosrc:
-                            newconns[n] = [(src, None)]
-                        break
-                    else:
-                        nosrc.append(t)
-                else: # didn't find an unknown src, so must be dangling
-                    set_nosrc = set(nosrc)
-                    for n in nosrc:
-                        self._dangling[to_prom_name[n]] = set_nosrc
-                        self._input_inputs[n] = nosrc
+                    idxs[t] = _compose_indices(idxs[s],
+                                               input_graph[s][t]['idxs'])
+
+                fed = [t for t in idxs if t in newconns]
+                if fed:  # found param with unknown src
+                    found = True
+                    src, src_idxs = newconns[fed[0]][0]
+                    if idxs[fed[0]] is not None:
+                        # that param is a part of this one
+                        src_idxs = None
+                    # connect the unknown src to all of the inputs connected
+                    # to the current node that have no unknown src
+                    for n in idxs:
+                        if n not in newconns:
+                            newconns[n] = [(src, _compose_indices(src_idxs,
+                                                                  idxs[n]))]
+
+        for node in starts:
+            if node not in newconns: # didn't find an unknown src, so must be dangling
+                nosrc = [node]
+                nosrc.extend(t for s, t in nx.dfs_edges(input_graph, node))
+                set_nosrc = set(nosrc)
+                for n in nosrc:
+                    self._dangling[to_prom_name[n]] = set_nosrc
+                    self._input_inputs[n] = nosrc
 
         # connections must be in order across processes, so use an OrderedDict
         # and sort targets before adding them
@@ -2479,6 +2492,17 @@ def _assign_parameters(connections):
     return param_owners
 
 
+def _compose_indices(sidxs, tidxs):
+    """Return the indices into a source of an input that takes the entries
+    `tidxs` of another input, which takes the entries `sidxs` of that source.
+    None means all entries.
+    """
+    if tidxs is None:
+        return sidxs
+    if sidxs is None:
+        return tidxs
+    return np.array(sidxs)[tidxs]
+
 def _pad_name(name, pad_num=13, quotes=True):
     """ Pads a string so that they all line up when stacked."""
     l_name = len(name)
-- 
2.43.0


From 8b3f17890f28b0256e0b3c8cee076a664d3171ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:43 +0000
Subject: [PATCH 37/62] fix: setting an input sets every sourceless input it is
 joined to

---
 openmdao/core/problem.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/openmdao/core/problem.py b/openmdao/core/problem.py
index 7069269..c1fb2dc 100644
--- a/openmdao/core/problem.py
+++ b/openmdao/core/problem.py
@@ -282,8 +282,12 @@ class Problem(object):
                 nosrc = [node]
                 nosrc.extend(t for s, t in nx.dfs_edges(input_graph, node))
                 set_nosrc = set(nosrc)
+                # they may be joined to other inputs further downstream
                 for n in nosrc:
+                    set_nosrc.update(self._dangling.get(to_prom_name[n], ()))
+                for n in set_nosrc:
                     self._dangling[to_prom_name[n]] = set_nosrc
+                for n in nosrc:
                     self._input_inputs[n] = nosrc
 
         # connections must be in order across processes, so use an OrderedDict
-- 
2.43.0


From d10a591e065bba4705408497141fcc67d18b0abd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:48 +0000
Subject: [PATCH 38/62] fix: reject one connection given with different
 src_indices

---
 openmdao/core/problem.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/openmdao/core/problem.py b/openmdao/core/problem.py
index c1fb2dc..c22edb4 100644
--- a/openmdao/core/problem.py
+++ b/openmdao/core/problem.py
@@ -210,6 +210,13 @@ class Problem(object):
         # resolve any input to input connections
         for tgt, srcs in iteritems(connections):
             for src, idxs in srcs:
+                if input_graph.has_edge(src, tgt):
+                    other = input_graph[src][tgt]['idxs']
+                    if not np.array_equal(other, idxs):
+                        self._setup_errors.append("Target '%s' is connected to "
+                                                  "source '%s' with different "
+                                                  "src_indices: %s and %s" %
+                                                  (tgt, src, other, idxs))
                 input_graph.add_edge(src, tgt, idxs=idxs)
                 if src in unknowns_dict:
                     usrcs.add(src)
-- 
2.43.0


From 022d54d0bfa33c0dd803bb59ee8af0e3b8f3876a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:20:51 +0000
Subject: [PATCH 39/62] fix: size an input from source indices into the
 flattened source

---
 openmdao/core/problem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openmdao/core/problem.py b/openmdao/core/problem.py
index c22edb4..e4c970b 100644
--- a/openmdao/core/problem.py
+++ b/openmdao/core/problem.py
@@ -538,7 +538,7 @@ class Problem(object):
                         size = len(idxs)
                         tmeta['shape'] = (size, )
                         tmeta['size'] = size
-                        tmeta['val'] = smeta['val'][np.array(idxs)]
+                        tmeta['val'] = np.ravel(smeta['val'])[np.array(idxs)]
 
                     # Regular connection
                     else:
-- 
2.43.0


From eeebc7e1cfda2de8abfc70d91bdaf4598eef3a6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:01:01 +0000
Subject: [PATCH 40/62] fix: ScipyOptimizer leaves the model run at the optimum
 it reports

---
 openmdao/drivers/scipy_optimizer.py | 30 ++++++++++++++++++++++++-----
 1 file changed, 25 insertions(+), 5 deletions(-)

diff --git a/openmdao/drivers/scipy_optimizer.py b/openmdao/drivers/scipy_optimizer.py
index 58bd891..7e601c6 100644
--- a/openmdao/drivers/scipy_optimizer.py
+++ b/openmdao/drivers/scipy_optimizer.py
@@ -83,6 +83,7 @@ class ScipyOptimizer(Driver):
         self.exit_flag = 0
         self.grad_cache = None
         self.con_cache = None
+        self._x_run = None
         self.con_idx = OrderedDict()
         self.cons = None
         self.objs = None
@@ -210,6 +211,13 @@ class ScipyOptimizer(Driver):
                           #callback=None,
                           options=self.opt_settings)
 
+        # Pull optimal parameters back into framework and re-run, so that
+        # framework is left in the right final state
+        if not np.array_equal(self._x_run, result.x):
+            self._set_desvars(result.x)
+            with problem.root._dircontext:
+                problem.root.solve_nonlinear(metadata=self.metadata)
+
         self._problem = None
         self.result = result
         self.exit_flag = 1 if self.result.success else 0
@@ -218,6 +226,22 @@ class ScipyOptimizer(Driver):
             print('Optimization Complete')
             print('-'*35)
 
+    def _set_desvars(self, x_new):
+        """ Set all of our parameters from the optimizer's array.
+
+        Args
+        ----
+        x_new : ndarray
+            Array containing parameter values at new design point.
+        """
+        i = 0
+        for name, meta in self.get_desvar_metadata().items():
+            size = meta['size']
+            self.set_desvar(name, x_new[i:i+size])
+            i += size
+
+        self._x_run = np.array(x_new)
+
     def _objfunc(self, x_new):
         """ Function that evaluates and returns the objective function. Model
         is executed here.
@@ -237,11 +261,7 @@ class ScipyOptimizer(Driver):
         metadata = self.metadata
 
         # Pass in new parameters
-        i = 0
-        for name, meta in self.get_desvar_metadata().items():
-            size = meta['size']
-            self.set_desvar(name, x_new[i:i+size])
-            i += size
+        self._set_desvars(x_new)
 
         self.iter_count += 1
         update_local_meta(metadata, (self.iter_count,))
-- 
2.43.0


From cd5c6571a0c8766ffea38b4207223b9042edcfcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:01:18 +0000
Subject: [PATCH 41/62] fix: pyOptSparseDriver takes a constraint near either
 bound as active and reports failed gradients

---
 openmdao/drivers/pyoptsparse_driver.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/openmdao/drivers/pyoptsparse_driver.py b/openmdao/drivers/pyoptsparse_driver.py
index ca71d08..d68c771 100644
--- a/openmdao/drivers/pyoptsparse_driver.py
+++ b/openmdao/drivers/pyoptsparse_driver.py
@@ -246,7 +246,7 @@ class pyOptSparseDriver(Driver):
                                      wrt=wrt, jac=jac)
 
             active_tol = meta.get('active_tol')
-            if active_tol:
+            if active_tol is not None:
                 self.active_tols[name] = active_tol
 
         # Add all inequality constraints
@@ -538,10 +538,10 @@ class pyOptSparseDriver(Driver):
                             tol = tols
                         else:
                             tol = tols[j]
+                        # inactive only if it is not close to either bound
                         lower, upper = con.lower[j], con.upper[j]
-                        if lower is not None and val[j] > lower + tol:
-                            inactive_idx.append(j)
-                        if upper is not None and val[j] < upper - tol:
+                        if (lower is None or val[j] > lower + tol) and \
+                                (upper is None or val[j] < upper - tol):
                             inactive_idx.append(j)
 
                     if inactive_idx:
@@ -596,6 +596,7 @@ class pyOptSparseDriver(Driver):
             # should give the user more info than the dreaded "segfault"
             print("Exception: %s" % str(msg))
             print(70*"=",tb,70*"=")
+            fail = 1
             sens_dict = {}
 
         #print("Derivatives calculated")
-- 
2.43.0


From 6590cf09af2e79519e06eae82ea8901adae0c9f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:27:47 +0000
Subject: [PATCH 42/62] fix: the meaning of a prefixed unit does not depend on
 the units used before

---
 openmdao/units/units.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/openmdao/units/units.py b/openmdao/units/units.py
index d1368c6..ba32231 100644
--- a/openmdao/units/units.py
+++ b/openmdao/units/units.py
@@ -643,15 +643,19 @@ def _find_unit(unit):
                     except Exception: #maybe is a prefixed unit then
                         #check for single letter prefix before unit
                         if(item[0] in _UNIT_LIB.prefixes and \
-                           item[1:] in _UNIT_LIB.unit_table):
+                           item[1:] in _UNIT_LIB.unit_table and \
+                           item[1:] not in _UNIT_LIB.prefixed):
                             add_unit(item, _UNIT_LIB.prefixes[item[0]]* \
                                      _UNIT_LIB.unit_table[item[1:]])
+                            _UNIT_LIB.prefixed.add(item)
 
                         #check for double letter prefix before unit
                         elif(item[0:2] in _UNIT_LIB.prefixes and \
-                             item[2:] in _UNIT_LIB.unit_table):
+                             item[2:] in _UNIT_LIB.unit_table and \
+                             item[2:] not in _UNIT_LIB.prefixed):
                             add_unit(item, _UNIT_LIB.prefixes[item[0:2]]* \
                                       _UNIT_LIB.unit_table[item[2:]])
+                            _UNIT_LIB.prefixed.add(item)
 
                         #no prefixes found, unknown unit
                         else:
@@ -733,6 +737,8 @@ def import_library(libfilepointer):
     _UNIT_LIB.base_types = dict()
     _UNIT_LIB.unit_table = dict()
     _UNIT_LIB.prefixes = dict()
+    #prefixed units found so far, which take no further prefix
+    _UNIT_LIB.prefixed = set()
     _UNIT_LIB.help = list()
 
     for prefix, factor in _UNIT_LIB.items('prefixes'):
-- 
2.43.0


From 6176a78a87f4cf895ac9a15927bc68587a64e381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:27:47 +0000
Subject: [PATCH 43/62] fix: update_library works on Python 3

---
 openmdao/units/units.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/openmdao/units/units.py b/openmdao/units/units.py
index ba32231..55a6297 100644
--- a/openmdao/units/units.py
+++ b/openmdao/units/units.py
@@ -19,7 +19,7 @@ Justin Gray."""
 import re
 import os.path
 from collections import OrderedDict
-from six import iteritems
+from six import iteritems, string_types
 from six.moves.configparser import RawConfigParser as ConfigParser
 
 # pylint: disable=E0611, F0401
@@ -778,8 +778,8 @@ def update_library(filename):
     filename: string or file
         Source of units configuration data.
     """
-    if isinstance(filename, basestring):
-        inp = open(filename, 'rU')
+    if isinstance(filename, string_types):
+        inp = open(filename, 'r')
     else:
         inp = filename
     try:
-- 
2.43.0


From 9bbd025344eecabdfd18fbb1c61ac0c12c678e55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:27:47 +0000
Subject: [PATCH 44/62] fix: in_base_units takes account of the offset of the
 unit

---
 openmdao/units/units.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openmdao/units/units.py b/openmdao/units/units.py
index 55a6297..e39c425 100644
--- a/openmdao/units/units.py
+++ b/openmdao/units/units.py
@@ -301,7 +301,7 @@ class PhysicalQuantity(object):
             The same quantity converted to base units,
             i.e., SI units in most cases.
         """
-        new_value = self.value * self.unit.factor
+        new_value = (self.value + self.unit.offset) * self.unit.factor
         num = ''
         denom = ''
         for unit, power in zip(_UNIT_LIB.base_names, self.unit.powers):
-- 
2.43.0


From 80ac41e373b77526b4d9c26fd17c637f2f9d9926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:27:47 +0000
Subject: [PATCH 45/62] fix: units of the Stefan-Boltzmann constant, kelvin as
 energy and molar volume

---
 openmdao/units/unit_library.ini | 440 ++++++++++++++++----------------
 1 file changed, 220 insertions(+), 220 deletions(-)

diff --git a/openmdao/units/unit_library.ini b/openmdao/units/unit_library.ini
index b64cabc..621981a 100644
--- a/openmdao/units/unit_library.ini
+++ b/openmdao/units/unit_library.ini
@@ -1,220 +1,220 @@
-# Default unit library definitions.  Much of this is based on
-# http://www.bipm.org/utils/common/pdf/si_brochure_8_en.pdf
-
-[prefixes]
-# prefix-string: float-multiplier [, comment]
-
-# SI.
-Y: 1.e24
-Z: 1.e21
-E: 1.e18
-P: 1.e15
-T: 1.e12
-G: 1.e9
-M: 1.e6
-k: 1.e3
-h: 1.e2
-da: 1.e1
-d: 1.e-1
-c: 1.e-2
-m: 1.e-3
-u: 1.e-6
-n: 1.e-9
-p: 1.e-12
-f: 1.e-15
-a: 1.e-18
-z: 1.e-21
-y: 1.e-24
-
-# IEC
-Ei: 1152921504606846976, (1 << 60)
-Pi: 1125899906842624,    (1 << 50)
-Ti: 1099511627776,       (1 << 40)
-Gi: 1073741824,          (1 << 30)
-Mi: 1048576,             (1 << 20)
-Ki: 1024,                (1 << 10)
-
-
-[base_units]
-# quantity-name: unit-name
-
-# SI.
-length: m
-mass: kg
-time: s
-current: A
-temperature: K
-amount: mol
-luminous_intensity: cd
-
-# Derived SI (Table 3).
-angle: rad
-solid_angle: sr
-
-# Other.
-money: USD
-passengers: pax
-digital_data: byte
-
-
-[units]
-# unit-name: unit-expression, comment
-# OR
-# unit-name: factor, base-unit, offset, comment
-#
-# Note that unit names cannot be Python reserved words (such as 'in' for inch).
-# Unit names are matched before prefix names are checked.
-# A unit-expression cannot use prefixes (except for 'kg'), however 'pi' is
-# available as a predefined constant.
-
-g: kg/1000, gram
-
-# Derived SI (Table 3).
-Hz: 1/s, hertz
-N: m*kg/s**2, newton
-Pa: N/m**2, pascal
-J: N*m, joule
-W: J/s, watt
-C: A*s, coulomb
-V: W/A, volt
-F: C/V, farad
-ohm: V/A, ohm
-S: A/V, siemens
-Wb: V*s, weber
-T: Wb/m**2, tesla
-H: Wb/A, henry
-degC: 1, K, 273.15, degree celsius
-lm: cd*sr, lumen
-lx: lm/m**2, lux
-Bq: 1/s, becquerel
-Gy: J/kg, gray
-Sv: J/kg, sievert
-kat: mol/s, katal
-
-# Non-SI (Table 6).
-min: 60*s, minute
-h: 3600*s, hour
-d: 86400*s, day
-deg: (pi/180)*rad, degree
-arc_minute: deg/60, arc minute
-arc_second: arc_minute/60, arc second
-ha: 1e4*m**2, hectare
-L: 1e-3*m**3, liter
-t: 1e3*kg, tonne (metric ton)
-
-# Non-SI (Table 7).
-e: 1.60217653e-19*C, elementary charge
-eV: e*V, electron volt
-Da: 1.66053886e-27*kg, dalton
-u: Da, unified atomic mass unit
-ua: 1.49597870691e11*m, astronomical unit
-c0: 299792458.*m/s, speed of light in vacuum
-hbar: 1.05457168e-34*J*s, reduced Planck Constant
-me: 9.1093826e-31*kg, electron mass
-a0: 0.5291772108e-10*m, Bohr radius
-Eh: 4.35974417e-18*J, Hartree energy
-
-# Non-SI (Table 8).
-bar: 1.e5*Pa, pressure
-Ang: 1.e-10*m, angstrom
-NM: 1.852e3*m, nautical mile
-b: 1.e-28*m**2, barn
-kn: NM/h, knot
-
-# Non-SI (Table 9).
-erg: 1.e-7*J, erg
-dyn: 1.e-5*N, dyne
-P: 0.1*Pa*s, poise (dynamic viscosity)
-St: 1.e-4*m**2/s, stokes (kinematic viscosity)
-sb: 1.e4*cd/m**2, stilb (luminance)
-ph: 1.e4*lx, phot (illuminance)
-# 'Gal' skipped due to likely confusion with volume unit.
-Mx: 1.e-8*Wb, maxwell (magnetic flux)
-# 'G' renamed 'gauss' to avoid confusion with acceleration unit.
-gauss: 1e-4*T, gauss (magnetic flux density)
-Oe: (1.e3/(4*pi))*A/m, oersted (magnetic field)
-
-# Backward compatibility.
-degK: K, degree Kelvin
-nmi: NM, nautical mile
-knot: kn, knot
-
-# Other length.
-inch: 2.54e-2*m, inch
-ft: 0.3048*m, foot
-mi: 1.609344e3*m, mile (U.S. statute)
-ly: 9.46073e15*m, light year
-
-# Other mass.
-oz: 28.349523125*g, ounce
-lb: 16*oz, pound mass
-lbm: lb, pound mass
-ton: 2000*lb, ton (short)
-slug: 14.5939029*kg, slug
-
-# Other time.
-wk: 7*d, week
-week: 7*d, week (backward compatibility)
-a: 365.242199*d, year
-yr: a, year
-year: a, year (backward compatibility)
-mo: yr/12, month
-month: yr/12, month (backward compatibility)
-
-# Other temperature.
-degR: K*5./9., degree Rankine
-degF: 1, degR, 459.67, degree Fahrenheit
-
-# Other volume.
-tsp: 4.92892159375e-3*L, teaspoon
-tbsp: 3*tsp, tablespoon
-floz: 2*tbsp, fluid ounce
-cup: 8*floz, cup
-pt: 16*floz, pint
-qt: 2*pt, quart
-galUS: 3.785411*L, gallon (U.S.)
-galUK: 4.54609*L, gallon (U.K.)
-
-# Other miscellaneous.
-lbf: 4.44822162*N, pound force
-
-rev: 2*pi*rad, revolution
-rpm: 2*pi*rad/min, RPM
-rps: 2*pi*rad/s, RPS
-
-cal: 4.184*J, thermochemical calorie
-cali: 4.1868*J, international calorie
-Btu: 1055.05585262*J, British thermal unit
-
-acre: mi**2/640, acre
-hp: 745.7*W, horsepower
-
-atm: 101325.*Pa, standard atmosphere
-torr: atm/760, Torr (1 mm of mercury)
-psi: 6894.75729317*Pa, pounds per square inch
-psf: psi/144, pounds per square foot
-
-mu0: 4.e-7*pi*N/A**2, permeability of vacuum
-eps0: 1/mu0/c0**2, permittivity of vacuum
-Grav: 6.67259e-11*m**3/kg/s**2, universal gravitational constant
-Nav: 6.0221367e23/mol, Avagadros number
-R: 8.31424*J/(mol*K), gas constant
-V0: 2.24136*m**3/(1000*mol), volume of ideal gas
-planck: 2*pi*hbar, Planck constant
-mp: 1.672614e-27*kg, proton rest mass
-mn: 1.674920e-27*kg, neutron rest mass
-sigma: 5.66961e-8*W/(m**2*K**-4), Stefan-Boltzmann constant
-Ken: sigma*K, kelvin as energy unit
-Rinfinity: 1.09737312e7/m, Rydberg constant
-re: 2.817939e-15*m, classic electron radius
-lambdac: 2.4263096e-12*m, Compton wavelength of electron
-lambdap: 1.3214409e-15*m, Compton wavelength of proton
-lambdan: 1.3196217e-15*m, Compton wavelength of neutron
-mue: 9.284851e-24*J/T, electron magnetic moment
-mup: 1.4106203e-26*J/T, proton magnetic moment
-mub: 9.274096e-24*J/T, bohr magneton
-mun: 5.050951e-27*J/T, nuclear magneton
-gammap: 2.6751270e8*rad/(s*T), gyromagnetic ratio of protons in H2O
-gammapc: 2.6751965e8*rad/(s*T), gyromagnetic ratio of protons in H2O corrected for diamagnetism of H2O
-phi0: 2.0678538e-15*Wb, magnetic flux quantum
-hme: 7.273894e-4*J*s/kg, quantum of circulation
+# Default unit library definitions.  Much of this is based on
+# http://www.bipm.org/utils/common/pdf/si_brochure_8_en.pdf
+
+[prefixes]
+# prefix-string: float-multiplier [, comment]
+
+# SI.
+Y: 1.e24
+Z: 1.e21
+E: 1.e18
+P: 1.e15
+T: 1.e12
+G: 1.e9
+M: 1.e6
+k: 1.e3
+h: 1.e2
+da: 1.e1
+d: 1.e-1
+c: 1.e-2
+m: 1.e-3
+u: 1.e-6
+n: 1.e-9
+p: 1.e-12
+f: 1.e-15
+a: 1.e-18
+z: 1.e-21
+y: 1.e-24
+
+# IEC
+Ei: 1152921504606846976, (1 << 60)
+Pi: 1125899906842624,    (1 << 50)
+Ti: 1099511627776,       (1 << 40)
+Gi: 1073741824,          (1 << 30)
+Mi: 1048576,             (1 << 20)
+Ki: 1024,                (1 << 10)
+
+
+[base_units]
+# quantity-name: unit-name
+
+# SI.
+length: m
+mass: kg
+time: s
+current: A
+temperature: K
+amount: mol
+luminous_intensity: cd
+
+# Derived SI (Table 3).
+angle: rad
+solid_angle: sr
+
+# Other.
+money: USD
+passengers: pax
+digital_data: byte
+
+
+[units]
+# unit-name: unit-expression, comment
+# OR
+# unit-name: factor, base-unit, offset, comment
+#
+# Note that unit names cannot be Python reserved words (such as 'in' for inch).
+# Unit names are matched before prefix names are checked.
+# A unit-expression cannot use prefixes (except for 'kg'), however 'pi' is
+# available as a predefined constant.
+
+g: kg/1000, gram
+
+# Derived SI (Table 3).
+Hz: 1/s, hertz
+N: m*kg/s**2, newton
+Pa: N/m**2, pascal
+J: N*m, joule
+W: J/s, watt
+C: A*s, coulomb
+V: W/A, volt
+F: C/V, farad
+ohm: V/A, ohm
+S: A/V, siemens
+Wb: V*s, weber
+T: Wb/m**2, tesla
+H: Wb/A, henry
+degC: 1, K, 273.15, degree celsius
+lm: cd*sr, lumen
+lx: lm/m**2, lux
+Bq: 1/s, becquerel
+Gy: J/kg, gray
+Sv: J/kg, sievert
+kat: mol/s, katal
+
+# Non-SI (Table 6).
+min: 60*s, minute
+h: 3600*s, hour
+d: 86400*s, day
+deg: (pi/180)*rad, degree
+arc_minute: deg/60, arc minute
+arc_second: arc_minute/60, arc second
+ha: 1e4*m**2, hectare
+L: 1e-3*m**3, liter
+t: 1e3*kg, tonne (metric ton)
+
+# Non-SI (Table 7).
+e: 1.60217653e-19*C, elementary charge
+eV: e*V, electron volt
+Da: 1.66053886e-27*kg, dalton
+u: Da, unified atomic mass unit
+ua: 1.49597870691e11*m, astronomical unit
+c0: 299792458.*m/s, speed of light in vacuum
+hbar: 1.05457168e-34*J*s, reduced Planck Constant
+me: 9.1093826e-31*kg, electron mass
+a0: 0.5291772108e-10*m, Bohr radius
+Eh: 4.35974417e-18*J, Hartree energy
+
+# Non-SI (Table 8).
+bar: 1.e5*Pa, pressure
+Ang: 1.e-10*m, angstrom
+NM: 1.852e3*m, nautical mile
+b: 1.e-28*m**2, barn
+kn: NM/h, knot
+
+# Non-SI (Table 9).
+erg: 1.e-7*J, erg
+dyn: 1.e-5*N, dyne
+P: 0.1*Pa*s, poise (dynamic viscosity)
+St: 1.e-4*m**2/s, stokes (kinematic viscosity)
+sb: 1.e4*cd/m**2, stilb (luminance)
+ph: 1.e4*lx, phot (illuminance)
+# 'Gal' skipped due to likely confusion with volume unit.
+Mx: 1.e-8*Wb, maxwell (magnetic flux)
+# 'G' renamed 'gauss' to avoid confusion with acceleration unit.
+gauss: 1e-4*T, gauss (magnetic flux density)
+Oe: (1.e3/(4*pi))*A/m, oersted (magnetic field)
+
+# Backward compatibility.
+degK: K, degree Kelvin
+nmi: NM, nautical mile
+knot: kn, knot
+
+# Other length.
+inch: 2.54e-2*m, inch
+ft: 0.3048*m, foot
+mi: 1.609344e3*m, mile (U.S. statute)
+ly: 9.46073e15*m, light year
+
+# Other mass.
+oz: 28.349523125*g, ounce
+lb: 16*oz, pound mass
+lbm: lb, pound mass
+ton: 2000*lb, ton (short)
+slug: 14.5939029*kg, slug
+
+# Other time.
+wk: 7*d, week
+week: 7*d, week (backward compatibility)
+a: 365.242199*d, year
+yr: a, year
+year: a, year (backward compatibility)
+mo: yr/12, month
+month: yr/12, month (backward compatibility)
+
+# Other temperature.
+degR: K*5./9., degree Rankine
+degF: 1, degR, 459.67, degree Fahrenheit
+
+# Other volume.
+tsp: 4.92892159375e-3*L, teaspoon
+tbsp: 3*tsp, tablespoon
+floz: 2*tbsp, fluid ounce
+cup: 8*floz, cup
+pt: 16*floz, pint
+qt: 2*pt, quart
+galUS: 3.785411*L, gallon (U.S.)
+galUK: 4.54609*L, gallon (U.K.)
+
+# Other miscellaneous.
+lbf: 4.44822162*N, pound force
+
+rev: 2*pi*rad, revolution
+rpm: 2*pi*rad/min, RPM
+rps: 2*pi*rad/s, RPS
+
+cal: 4.184*J, thermochemical calorie
+cali: 4.1868*J, international calorie
+Btu: 1055.05585262*J, British thermal unit
+
+acre: mi**2/640, acre
+hp: 745.7*W, horsepower
+
+atm: 101325.*Pa, standard atmosphere
+torr: atm/760, Torr (1 mm of mercury)
+psi: 6894.75729317*Pa, pounds per square inch
+psf: psi/144, pounds per square foot
+
+mu0: 4.e-7*pi*N/A**2, permeability of vacuum
+eps0: 1/mu0/c0**2, permittivity of vacuum
+Grav: 6.67259e-11*m**3/kg/s**2, universal gravitational constant
+Nav: 6.0221367e23/mol, Avagadros number
+R: 8.31424*J/(mol*K), gas constant
+V0: 22.4136*m**3/(1000*mol), volume of ideal gas
+planck: 2*pi*hbar, Planck constant
+mp: 1.672614e-27*kg, proton rest mass
+mn: 1.674920e-27*kg, neutron rest mass
+sigma: 5.66961e-8*W/(m**2*K**4), Stefan-Boltzmann constant
+Ken: (R/Nav)*K, kelvin as energy unit
+Rinfinity: 1.09737312e7/m, Rydberg constant
+re: 2.817939e-15*m, classic electron radius
+lambdac: 2.4263096e-12*m, Compton wavelength of electron
+lambdap: 1.3214409e-15*m, Compton wavelength of proton
+lambdan: 1.3196217e-15*m, Compton wavelength of neutron
+mue: 9.284851e-24*J/T, electron magnetic moment
+mup: 1.4106203e-26*J/T, proton magnetic moment
+mub: 9.274096e-24*J/T, bohr magneton
+mun: 5.050951e-27*J/T, nuclear magneton
+gammap: 2.6751270e8*rad/(s*T), gyromagnetic ratio of protons in H2O
+gammapc: 2.6751965e8*rad/(s*T), gyromagnetic ratio of protons in H2O corrected for diamagnetism of H2O
+phi0: 2.0678538e-15*Wb, magnetic flux quantum
+hme: 7.273894e-4*J*s/kg, quantum of circulation
-- 
2.43.0


From 1014c0f54f53b1d4f244b61ceea5196c3588b89a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:29:32 +0000
Subject: [PATCH 46/62] fix: an offset unit may be defined before its base unit

---
 openmdao/units/units.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/openmdao/units/units.py b/openmdao/units/units.py
index e39c425..13ae574 100644
--- a/openmdao/units/units.py
+++ b/openmdao/units/units.py
@@ -806,7 +806,7 @@ def _update_library(cfg):
             try:
                 add_offset_unit(name, baseunit, float(factor), float(offset),
                                 comment)
-            except NameError:
+            except (NameError, ValueError):
                 retry1.add((name, baseunit, float(factor), float(offset),
                             comment))
         else:
@@ -831,7 +831,7 @@ def _update_library(cfg):
                     name, factor, baseunit, offset, comment = data
                     add_offset_unit(name, factor, baseunit, offset, comment)
                     retry1.remove(data)
-                except NameError:
+                except (NameError, ValueError):
                     retry_count += 1
     if retry1:
         raise ValueError('The following units were not defined because they'
-- 
2.43.0


From d456776223f1f13bb7dd2df03478fba92cb010b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:30:37 +0000
Subject: [PATCH 47/62] fix: a unit is not silently redefined with another
 offset

---
 openmdao/units/units.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/openmdao/units/units.py b/openmdao/units/units.py
index 13ae574..f8b5f8b 100644
--- a/openmdao/units/units.py
+++ b/openmdao/units/units.py
@@ -687,6 +687,7 @@ def add_offset_unit(name, baseunit, factor, offset, comment=''):
     unit.set_name(name)
     if name in _UNIT_LIB.unit_table:
         if (_UNIT_LIB.unit_table[name].factor!=unit.factor or \
+            _UNIT_LIB.unit_table[name].offset!=unit.offset or \
             _UNIT_LIB.unit_table[name].powers!=unit.powers):
             raise KeyError("Unit %s already defined with " % name +
                             "different factor or powers")
@@ -706,6 +707,7 @@ def add_unit(name, unit, comment=''):
     unit.set_name(name)
     if name in _UNIT_LIB.unit_table:
         if (_UNIT_LIB.unit_table[name].factor!=unit.factor or \
+            _UNIT_LIB.unit_table[name].offset!=unit.offset or \
             _UNIT_LIB.unit_table[name].powers!=unit.powers):
             raise KeyError("Unit %s already defined with " % name +
                             "different factor or powers")
-- 
2.43.0


From 04979de5e64a58b657eea04400d38a47dbc7de4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:49:01 +0000
Subject: [PATCH 48/62] fix: an inactive constraint does not silence the others
 of its parallel derivative group

---
 openmdao/core/problem.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/openmdao/core/problem.py b/openmdao/core/problem.py
index e4c970b..25fbef3 100644
--- a/openmdao/core/problem.py
+++ b/openmdao/core/problem.py
@@ -1721,16 +1721,21 @@ class Problem(object):
                 # linear solve. Instead, allocate zeros for the solution and
                 # let the remaining code partition that into the return array
                 # or dict.
-                if inactives and not fwd and voi in inactives and i in inactives[voi]:
+                active = [voi for voi in params if fwd or not inactives or
+                          voi not in inactives or i not in inactives[voi]]
+                if not active:
                     dx_mat = OrderedDict()
                     for voi in params:
                         vkey = self._get_voi_key(voi, params)
-                        dx_mat[vkey] = np.zeros((len(duvec.vec), ))
+                        dx_mat[vkey] = np.zeros((len(rhs[vkey]), ))
 
                 else:
                     for voi in params:
                         vkey = self._get_voi_key(voi, params)
                         rhs[vkey][:] = 0.0
+                        if voi not in active:
+                            continue
+
                         # only set a -1.0 in the entry if that var is 'owned' by this rank
                         # Note, we solve a slightly modified version of the unified
                         # derivatives equations in OpenMDAO.
-- 
2.43.0


From 286d9f3d404f1bad2bd06f295fea2d465cf12ea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:49:01 +0000
Subject: [PATCH 49/62] fix: parallel derivative groups are solved one by one
 unless the linear solver can solve them at once

---
 openmdao/core/problem.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/openmdao/core/problem.py b/openmdao/core/problem.py
index 25fbef3..3a946b0 100644
--- a/openmdao/core/problem.py
+++ b/openmdao/core/problem.py
@@ -1658,7 +1658,11 @@ class Problem(object):
         for voi_set in all_vois:
             for voi in voi_set:
                 if voi in input_set:
-                    voi_sets.append(voi_set)
+                    # Only LinearGaussSeidel can solve for a group at once.
+                    if isinstance(root.ln_solver, LinearGaussSeidel):
+                        voi_sets.append(voi_set)
+                    else:
+                        voi_sets.extend((v,) for v in voi_set if v in input_set)
                     break
 
         # Add any variables that the user "forgot". TODO: This won't be
-- 
2.43.0


From 621b2046de3fad265833e1972606022ed32aac09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:49:01 +0000
Subject: [PATCH 50/62] fix: derivatives of part of a parallel derivative group
 can be asked for

---
 openmdao/core/problem.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/openmdao/core/problem.py b/openmdao/core/problem.py
index 3a946b0..a9ecfc7 100644
--- a/openmdao/core/problem.py
+++ b/openmdao/core/problem.py
@@ -1754,6 +1754,9 @@ class Problem(object):
                     vkey = self._get_voi_key(param, params)
                     if param is None:
                         param = params[0]
+                    if param not in input_set:
+                        # in the group, but not asked for
+                        continue
 
                     for item in output_list:
 
-- 
2.43.0


From 99db39c46d0936e7c440ea0ef3a83e6eb182965a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:49:33 +0000
Subject: [PATCH 51/62] fix: keep the line endings of unit_library.ini

---
 openmdao/units/unit_library.ini | 440 ++++++++++++++++----------------
 1 file changed, 220 insertions(+), 220 deletions(-)

diff --git a/openmdao/units/unit_library.ini b/openmdao/units/unit_library.ini
index 621981a..fd0c4bb 100644
--- a/openmdao/units/unit_library.ini
+++ b/openmdao/units/unit_library.ini
@@ -1,220 +1,220 @@
-# Default unit library definitions.  Much of this is based on
-# http://www.bipm.org/utils/common/pdf/si_brochure_8_en.pdf
-
-[prefixes]
-# prefix-string: float-multiplier [, comment]
-
-# SI.
-Y: 1.e24
-Z: 1.e21
-E: 1.e18
-P: 1.e15
-T: 1.e12
-G: 1.e9
-M: 1.e6
-k: 1.e3
-h: 1.e2
-da: 1.e1
-d: 1.e-1
-c: 1.e-2
-m: 1.e-3
-u: 1.e-6
-n: 1.e-9
-p: 1.e-12
-f: 1.e-15
-a: 1.e-18
-z: 1.e-21
-y: 1.e-24
-
-# IEC
-Ei: 1152921504606846976, (1 << 60)
-Pi: 1125899906842624,    (1 << 50)
-Ti: 1099511627776,       (1 << 40)
-Gi: 1073741824,          (1 << 30)
-Mi: 1048576,             (1 << 20)
-Ki: 1024,                (1 << 10)
-
-
-[base_units]
-# quantity-name: unit-name
-
-# SI.
-length: m
-mass: kg
-time: s
-current: A
-temperature: K
-amount: mol
-luminous_intensity: cd
-
-# Derived SI (Table 3).
-angle: rad
-solid_angle: sr
-
-# Other.
-money: USD
-passengers: pax
-digital_data: byte
-
-
-[units]
-# unit-name: unit-expression, comment
-# OR
-# unit-name: factor, base-unit, offset, comment
-#
-# Note that unit names cannot be Python reserved words (such as 'in' for inch).
-# Unit names are matched before prefix names are checked.
-# A unit-expression cannot use prefixes (except for 'kg'), however 'pi' is
-# available as a predefined constant.
-
-g: kg/1000, gram
-
-# Derived SI (Table 3).
-Hz: 1/s, hertz
-N: m*kg/s**2, newton
-Pa: N/m**2, pascal
-J: N*m, joule
-W: J/s, watt
-C: A*s, coulomb
-V: W/A, volt
-F: C/V, farad
-ohm: V/A, ohm
-S: A/V, siemens
-Wb: V*s, weber
-T: Wb/m**2, tesla
-H: Wb/A, henry
-degC: 1, K, 273.15, degree celsius
-lm: cd*sr, lumen
-lx: lm/m**2, lux
-Bq: 1/s, becquerel
-Gy: J/kg, gray
-Sv: J/kg, sievert
-kat: mol/s, katal
-
-# Non-SI (Table 6).
-min: 60*s, minute
-h: 3600*s, hour
-d: 86400*s, day
-deg: (pi/180)*rad, degree
-arc_minute: deg/60, arc minute
-arc_second: arc_minute/60, arc second
-ha: 1e4*m**2, hectare
-L: 1e-3*m**3, liter
-t: 1e3*kg, tonne (metric ton)
-
-# Non-SI (Table 7).
-e: 1.60217653e-19*C, elementary charge
-eV: e*V, electron volt
-Da: 1.66053886e-27*kg, dalton
-u: Da, unified atomic mass unit
-ua: 1.49597870691e11*m, astronomical unit
-c0: 299792458.*m/s, speed of light in vacuum
-hbar: 1.05457168e-34*J*s, reduced Planck Constant
-me: 9.1093826e-31*kg, electron mass
-a0: 0.5291772108e-10*m, Bohr radius
-Eh: 4.35974417e-18*J, Hartree energy
-
-# Non-SI (Table 8).
-bar: 1.e5*Pa, pressure
-Ang: 1.e-10*m, angstrom
-NM: 1.852e3*m, nautical mile
-b: 1.e-28*m**2, barn
-kn: NM/h, knot
-
-# Non-SI (Table 9).
-erg: 1.e-7*J, erg
-dyn: 1.e-5*N, dyne
-P: 0.1*Pa*s, poise (dynamic viscosity)
-St: 1.e-4*m**2/s, stokes (kinematic viscosity)
-sb: 1.e4*cd/m**2, stilb (luminance)
-ph: 1.e4*lx, phot (illuminance)
-# 'Gal' skipped due to likely confusion with volume unit.
-Mx: 1.e-8*Wb, maxwell (magnetic flux)
-# 'G' renamed 'gauss' to avoid confusion with acceleration unit.
-gauss: 1e-4*T, gauss (magnetic flux density)
-Oe: (1.e3/(4*pi))*A/m, oersted (magnetic field)
-
-# Backward compatibility.
-degK: K, degree Kelvin
-nmi: NM, nautical mile
-knot: kn, knot
-
-# Other length.
-inch: 2.54e-2*m, inch
-ft: 0.3048*m, foot
-mi: 1.609344e3*m, mile (U.S. statute)
-ly: 9.46073e15*m, light year
-
-# Other mass.
-oz: 28.349523125*g, ounce
-lb: 16*oz, pound mass
-lbm: lb, pound mass
-ton: 2000*lb, ton (short)
-slug: 14.5939029*kg, slug
-
-# Other time.
-wk: 7*d, week
-week: 7*d, week (backward compatibility)
-a: 365.242199*d, year
-yr: a, year
-year: a, year (backward compatibility)
-mo: yr/12, month
-month: yr/12, month (backward compatibility)
-
-# Other temperature.
-degR: K*5./9., degree Rankine
-degF: 1, degR, 459.67, degree Fahrenheit
-
-# Other volume.
-tsp: 4.92892159375e-3*L, teaspoon
-tbsp: 3*tsp, tablespoon
-floz: 2*tbsp, fluid ounce
-cup: 8*floz, cup
-pt: 16*floz, pint
-qt: 2*pt, quart
-galUS: 3.785411*L, gallon (U.S.)
-galUK: 4.54609*L, gallon (U.K.)
-
-# Other miscellaneous.
-lbf: 4.44822162*N, pound force
-
-rev: 2*pi*rad, revolution
-rpm: 2*pi*rad/min, RPM
-rps: 2*pi*rad/s, RPS
-
-cal: 4.184*J, thermochemical calorie
-cali: 4.1868*J, international calorie
-Btu: 1055.05585262*J, British thermal unit
-
-acre: mi**2/640, acre
-hp: 745.7*W, horsepower
-
-atm: 101325.*Pa, standard atmosphere
-torr: atm/760, Torr (1 mm of mercury)
-psi: 6894.75729317*Pa, pounds per square inch
-psf: psi/144, pounds per square foot
-
-mu0: 4.e-7*pi*N/A**2, permeability of vacuum
-eps0: 1/mu0/c0**2, permittivity of vacuum
-Grav: 6.67259e-11*m**3/kg/s**2, universal gravitational constant
-Nav: 6.0221367e23/mol, Avagadros number
-R: 8.31424*J/(mol*K), gas constant
-V0: 22.4136*m**3/(1000*mol), volume of ideal gas
-planck: 2*pi*hbar, Planck constant
-mp: 1.672614e-27*kg, proton rest mass
-mn: 1.674920e-27*kg, neutron rest mass
-sigma: 5.66961e-8*W/(m**2*K**4), Stefan-Boltzmann constant
-Ken: (R/Nav)*K, kelvin as energy unit
-Rinfinity: 1.09737312e7/m, Rydberg constant
-re: 2.817939e-15*m, classic electron radius
-lambdac: 2.4263096e-12*m, Compton wavelength of electron
-lambdap: 1.3214409e-15*m, Compton wavelength of proton
-lambdan: 1.3196217e-15*m, Compton wavelength of neutron
-mue: 9.284851e-24*J/T, electron magnetic moment
-mup: 1.4106203e-26*J/T, proton magnetic moment
-mub: 9.274096e-24*J/T, bohr magneton
-mun: 5.050951e-27*J/T, nuclear magneton
-gammap: 2.6751270e8*rad/(s*T), gyromagnetic ratio of protons in H2O
-gammapc: 2.6751965e8*rad/(s*T), gyromagnetic ratio of protons in H2O corrected for diamagnetism of H2O
-phi0: 2.0678538e-15*Wb, magnetic flux quantum
-hme: 7.273894e-4*J*s/kg, quantum of circulation
+# Default unit library definitions.  Much of this is based on
+# http://www.bipm.org/utils/common/pdf/si_brochure_8_en.pdf
+
+[prefixes]
+# prefix-string: float-multiplier [, comment]
+
+# SI.
+Y: 1.e24
+Z: 1.e21
+E: 1.e18
+P: 1.e15
+T: 1.e12
+G: 1.e9
+M: 1.e6
+k: 1.e3
+h: 1.e2
+da: 1.e1
+d: 1.e-1
+c: 1.e-2
+m: 1.e-3
+u: 1.e-6
+n: 1.e-9
+p: 1.e-12
+f: 1.e-15
+a: 1.e-18
+z: 1.e-21
+y: 1.e-24
+
+# IEC
+Ei: 1152921504606846976, (1 << 60)
+Pi: 1125899906842624,    (1 << 50)
+Ti: 1099511627776,       (1 << 40)
+Gi: 1073741824,          (1 << 30)
+Mi: 1048576,             (1 << 20)
+Ki: 1024,                (1 << 10)
+
+
+[base_units]
+# quantity-name: unit-name
+
+# SI.
+length: m
+mass: kg
+time: s
+current: A
+temperature: K
+amount: mol
+luminous_intensity: cd
+
+# Derived SI (Table 3).
+angle: rad
+solid_angle: sr
+
+# Other.
+money: USD
+passengers: pax
+digital_data: byte
+
+
+[units]
+# unit-name: unit-expression, comment
+# OR
+# unit-name: factor, base-unit, offset, comment
+#
+# Note that unit names cannot be Python reserved words (such as 'in' for inch).
+# Unit names are matched before prefix names are checked.
+# A unit-expression cannot use prefixes (except for 'kg'), however 'pi' is
+# available as a predefined constant.
+
+g: kg/1000, gram
+
+# Derived SI (Table 3).
+Hz: 1/s, hertz
+N: m*kg/s**2, newton
+Pa: N/m**2, pascal
+J: N*m, joule
+W: J/s, watt
+C: A*s, coulomb
+V: W/A, volt
+F: C/V, farad
+ohm: V/A, ohm
+S: A/V, siemens
+Wb: V*s, weber
+T: Wb/m**2, tesla
+H: Wb/A, henry
+degC: 1, K, 273.15, degree celsius
+lm: cd*sr, lumen
+lx: lm/m**2, lux
+Bq: 1/s, becquerel
+Gy: J/kg, gray
+Sv: J/kg, sievert
+kat: mol/s, katal
+
+# Non-SI (Table 6).
+min: 60*s, minute
+h: 3600*s, hour
+d: 86400*s, day
+deg: (pi/180)*rad, degree
+arc_minute: deg/60, arc minute
+arc_second: arc_minute/60, arc second
+ha: 1e4*m**2, hectare
+L: 1e-3*m**3, liter
+t: 1e3*kg, tonne (metric ton)
+
+# Non-SI (Table 7).
+e: 1.60217653e-19*C, elementary charge
+eV: e*V, electron volt
+Da: 1.66053886e-27*kg, dalton
+u: Da, unified atomic mass unit
+ua: 1.49597870691e11*m, astronomical unit
+c0: 299792458.*m/s, speed of light in vacuum
+hbar: 1.05457168e-34*J*s, reduced Planck Constant
+me: 9.1093826e-31*kg, electron mass
+a0: 0.5291772108e-10*m, Bohr radius
+Eh: 4.35974417e-18*J, Hartree energy
+
+# Non-SI (Table 8).
+bar: 1.e5*Pa, pressure
+Ang: 1.e-10*m, angstrom
+NM: 1.852e3*m, nautical mile
+b: 1.e-28*m**2, barn
+kn: NM/h, knot
+
+# Non-SI (Table 9).
+erg: 1.e-7*J, erg
+dyn: 1.e-5*N, dyne
+P: 0.1*Pa*s, poise (dynamic viscosity)
+St: 1.e-4*m**2/s, stokes (kinematic viscosity)
+sb: 1.e4*cd/m**2, stilb (luminance)
+ph: 1.e4*lx, phot (illuminance)
+# 'Gal' skipped due to likely confusion with volume unit.
+Mx: 1.e-8*Wb, maxwell (magnetic flux)
+# 'G' renamed 'gauss' to avoid confusion with acceleration unit.
+gauss: 1e-4*T, gauss (magnetic flux density)
+Oe: (1.e3/(4*pi))*A/m, oersted (magnetic field)
+
+# Backward compatibility.
+degK: K, degree Kelvin
+nmi: NM, nautical mile
+knot: kn, knot
+
+# Other length.
+inch: 2.54e-2*m, inch
+ft: 0.3048*m, foot
+mi: 1.609344e3*m, mile (U.S. statute)
+ly: 9.46073e15*m, light year
+
+# Other mass.
+oz: 28.349523125*g, ounce
+lb: 16*oz, pound mass
+lbm: lb, pound mass
+ton: 2000*lb, ton (short)
+slug: 14.5939029*kg, slug
+
+# Other time.
+wk: 7*d, week
+week: 7*d, week (backward compatibility)
+a: 365.242199*d, year
+yr: a, year
+year: a, year (backward compatibility)
+mo: yr/12, month
+month: yr/12, month (backward compatibility)
+
+# Other temperature.
+degR: K*5./9., degree Rankine
+degF: 1, degR, 459.67, degree Fahrenheit
+
+# Other volume.
+tsp: 4.92892159375e-3*L, teaspoon
+tbsp: 3*tsp, tablespoon
+floz: 2*tbsp, fluid ounce
+cup: 8*floz, cup
+pt: 16*floz, pint
+qt: 2*pt, quart
+galUS: 3.785411*L, gallon (U.S.)
+galUK: 4.54609*L, gallon (U.K.)
+
+# Other miscellaneous.
+lbf: 4.44822162*N, pound force
+
+rev: 2*pi*rad, revolution
+rpm: 2*pi*rad/min, RPM
+rps: 2*pi*rad/s, RPS
+
+cal: 4.184*J, thermochemical calorie
+cali: 4.1868*J, international calorie
+Btu: 1055.05585262*J, British thermal unit
+
+acre: mi**2/640, acre
+hp: 745.7*W, horsepower
+
+atm: 101325.*Pa, standard atmosphere
+torr: atm/760, Torr (1 mm of mercury)
+psi: 6894.75729317*Pa, pounds per square inch
+psf: psi/144, pounds per square foot
+
+mu0: 4.e-7*pi*N/A**2, permeability of vacuum
+eps0: 1/mu0/c0**2, permittivity of vacuum
+Grav: 6.67259e-11*m**3/kg/s**2, universal gravitational constant
+Nav: 6.0221367e23/mol, Avagadros number
+R: 8.31424*J/(mol*K), gas constant
+V0: 22.4136*m**3/(1000*mol), volume of ideal gas
+planck: 2*pi*hbar, Planck constant
+mp: 1.672614e-27*kg, proton rest mass
+mn: 1.674920e-27*kg, neutron rest mass
+sigma: 5.66961e-8*W/(m**2*K**4), Stefan-Boltzmann constant
+Ken: (R/Nav)*K, kelvin as energy unit
+Rinfinity: 1.09737312e7/m, Rydberg constant
+re: 2.817939e-15*m, classic electron radius
+lambdac: 2.4263096e-12*m, Compton wavelength of electron
+lambdap: 1.3214409e-15*m, Compton wavelength of proton
+lambdan: 1.3196217e-15*m, Compton wavelength of neutron
+mue: 9.284851e-24*J/T, electron magnetic moment
+mup: 1.4106203e-26*J/T, proton magnetic moment
+mub: 9.274096e-24*J/T, bohr magneton
+mun: 5.050951e-27*J/T, nuclear magneton
+gammap: 2.6751270e8*rad/(s*T), gyromagnetic ratio of protons in H2O
+gammapc: 2.6751965e8*rad/(s*T), gyromagnetic ratio of protons in H2O corrected for diamagnetism of H2O
+phi0: 2.0678538e-15*Wb, magnetic flux quantum
+hme: 7.273894e-4*J*s/kg, quantum of circulation
-- 
2.43.0


From f22259a2533643d80501951796a2a950c9817c92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:31:55 +0000
Subject: [PATCH 52/62] fix: derivatives can be asked for in the direction that
 was not set up for parallel groups

---
 openmdao/core/problem.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/openmdao/core/problem.py b/openmdao/core/problem.py
index a9ecfc7..562a64d 100644
--- a/openmdao/core/problem.py
+++ b/openmdao/core/problem.py
@@ -1658,8 +1658,9 @@ class Problem(object):
         for voi_set in all_vois:
             for voi in voi_set:
                 if voi in input_set:
-                    # Only LinearGaussSeidel can solve for a group at once.
-                    if isinstance(root.ln_solver, LinearGaussSeidel):
+                    # A group can only be solved for at once if each of its
+                    # members has vectors of its own.
+                    if all(self._get_voi_key(v, voi_set) for v in voi_set):
                         voi_sets.append(voi_set)
                     else:
                         voi_sets.extend((v,) for v in voi_set if v in input_set)
@@ -1846,7 +1847,8 @@ class Problem(object):
         (currently only works with LinearGaussSeidel), or None for those
         solvers that can only do a single linear solve at a time.
         """
-        if (voi in self._driver_vois and
+        # Vectors exist only for the direction that was set up.
+        if (voi in self._driver_vois and voi in self.root.dumat and
                 isinstance(self.root.ln_solver, LinearGaussSeidel)):
             if (len(grp) > 1 or
                     self.root.ln_solver.options['single_voi_relevance_reduction']):
-- 
2.43.0


From d2ae09dfa1b3c4a7f7aef95cf2d12b594bc7a228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:43:06 +0000
Subject: [PATCH 53/62] fix: negative indices of a driver variable select
 entries of that variable

They were offset by the start of the variable like positive ones, so the
derivative was taken with respect to the variable stored before it.
---
 openmdao/core/vec_wrapper.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/openmdao/core/vec_wrapper.py b/openmdao/core/vec_wrapper.py
index ea87137..9da9f3e 100644
--- a/openmdao/core/vec_wrapper.py
+++ b/openmdao/core/vec_wrapper.py
@@ -556,8 +556,10 @@ class VecWrapper(object):
 
         if name in idx_dict:
             #TODO: possible slice conversion
-            idxs = self.to_idx_array(idx_dict[name]) + start
-            if idxs.size > (end-start) or max(idxs) >= end:
+            idxs = self.to_idx_array(idx_dict[name])
+            # negative indices count from the end of the variable
+            idxs = numpy.where(idxs < 0, idxs + end, idxs + start)
+            if idxs.size > (end-start) or max(idxs) >= end or min(idxs) < start:
                 raise RuntimeError("Indices of interest specified for '%s'"
                                    "are too large" % name)
             return idxs
-- 
2.43.0


From 8f665aa33fe3c07243c6dd7d7470cd5f2b45fdcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:43:18 +0000
Subject: [PATCH 54/62] fix: an input with source indices fed by an object
 takes no space in the parameter vector

It has no slice, so counting its size left a hole and shifted every input after
it away from the entries the data transfer writes to.
---
 openmdao/core/vec_wrapper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openmdao/core/vec_wrapper.py b/openmdao/core/vec_wrapper.py
index 9da9f3e..1394cf6 100644
--- a/openmdao/core/vec_wrapper.py
+++ b/openmdao/core/vec_wrapper.py
@@ -1104,7 +1104,7 @@ class TgtVecWrapper(VecWrapper):
                     slc, val = self._setup_var_meta(pathname, meta, vec_size,
                                                     src_acc, store_byobjs)
 
-                    if 'remote' not in meta or not meta['remote']:
+                    if slc is not None:
                         vec_size += meta['size']
 
                     self._dat[scoped_name(pathname)] = Accessor(self, slc, val,
-- 
2.43.0


From cb3eefeb0a93e8725ca0fee0f7b64d509d8160ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:20:50 +0000
Subject: [PATCH 55/62] fix: states that are not connected take part in solves
 for a variable of interest

---
 openmdao/core/relevance.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/openmdao/core/relevance.py b/openmdao/core/relevance.py
index 2fa553a..53d6bfe 100644
--- a/openmdao/core/relevance.py
+++ b/openmdao/core/relevance.py
@@ -219,6 +219,15 @@ class Relevance(object):
                 if tcomp in relcomps and scomp in relcomps:
                     relvars[n].update((prom_tgt, prom_src))
 
+        # states of relevant components take part in their linear solves even
+        # when they are not part of a connection
+        for path, meta in iteritems(self.unknowns_dict):
+            if meta.get('state'):
+                comp = path.rsplit('.', 1)[0]
+                for n, relcomps in iteritems(relevant):
+                    if comp in relcomps:
+                        relvars[n].add(meta['top_promoted_name'])
+
         # finally, add ancestors of relevant systems to the relevant set
         for voi, relsystems in iteritems(relevant):
             to_add = set()
-- 
2.43.0


From f7eae04a5d36ac835f18f049f780e4cbee368b11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:20:50 +0000
Subject: [PATCH 56/62] fix: derivatives of a variable that is not of interest
 are not lost by relevance reduction

---
 openmdao/core/problem.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/openmdao/core/problem.py b/openmdao/core/problem.py
index 562a64d..12e1fe3 100644
--- a/openmdao/core/problem.py
+++ b/openmdao/core/problem.py
@@ -1645,6 +1645,12 @@ class Problem(object):
         # Process our inputs/outputs of interest for parallel groups
         all_vois = self.root._probdata.relevance.vars_of_interest(mode)
 
+        # The vectors of a variable of interest hold only what connects it to
+        # the variables of interest on the other side, so they can't be used
+        # when derivatives of anything else are requested.
+        other_side = set(chain(*relevance.vars_of_interest('rev' if fwd else 'fwd')))
+        has_relevance = other_side.issuperset(output_list)
+
         input_set = set()
         for inp in input_list:
             if isinstance(inp, string_types):
@@ -1660,7 +1666,7 @@ class Problem(object):
                 if voi in input_set:
                     # A group can only be solved for at once if each of its
                     # members has vectors of its own.
-                    if all(self._get_voi_key(v, voi_set) for v in voi_set):
+                    if all(self._get_voi_key(v, voi_set, has_relevance) for v in voi_set):
                         voi_sets.append(voi_set)
                     else:
                         voi_sets.extend((v,) for v in voi_set if v in input_set)
@@ -1690,7 +1696,7 @@ class Problem(object):
 
             # Allocate all of our Right Hand Sides for this parallel set.
             for voi in params:
-                vkey = self._get_voi_key(voi, params)
+                vkey = self._get_voi_key(voi, params, has_relevance)
 
                 duvec = self.root.dumat[vkey]
                 rhs[vkey] = np.empty((len(duvec.vec), ))
@@ -1731,12 +1737,12 @@ class Problem(object):
                 if not active:
                     dx_mat = OrderedDict()
                     for voi in params:
-                        vkey = self._get_voi_key(voi, params)
+                        vkey = self._get_voi_key(voi, params, has_relevance)
                         dx_mat[vkey] = np.zeros((len(rhs[vkey]), ))
 
                 else:
                     for voi in params:
-                        vkey = self._get_voi_key(voi, params)
+                        vkey = self._get_voi_key(voi, params, has_relevance)
                         rhs[vkey][:] = 0.0
                         if voi not in active:
                             continue
@@ -1752,7 +1758,7 @@ class Problem(object):
                     dx_mat = root.ln_solver.solve(rhs, root, mode)
 
                 for param, dx in iteritems(dx_mat):
-                    vkey = self._get_voi_key(param, params)
+                    vkey = self._get_voi_key(param, params, has_relevance)
                     if param is None:
                         param = params[0]
                     if param not in input_set:
@@ -1842,13 +1848,13 @@ class Problem(object):
 
         return J
 
-    def _get_voi_key(self, voi, grp):
+    def _get_voi_key(self, voi, grp, has_relevance=True):
         """Return the voi name, which allows for parallel derivative calculations
         (currently only works with LinearGaussSeidel), or None for those
         solvers that can only do a single linear solve at a time.
         """
         # Vectors exist only for the direction that was set up.
-        if (voi in self._driver_vois and voi in self.root.dumat and
+        if (has_relevance and voi in self._driver_vois and voi in self.root.dumat and
                 isinstance(self.root.ln_solver, LinearGaussSeidel)):
             if (len(grp) > 1 or
                     self.root.ln_solver.options['single_voi_relevance_reduction']):
-- 
2.43.0


From 311d266e4ea602e149dce36e43a314e6f7299d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:20:50 +0000
Subject: [PATCH 57/62] fix: a Newton step does not depend on what an outer
 linear solve left in its inputs

---
 openmdao/solvers/newton.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/openmdao/solvers/newton.py b/openmdao/solvers/newton.py
index 5952818..13bc627 100644
--- a/openmdao/solvers/newton.py
+++ b/openmdao/solvers/newton.py
@@ -185,6 +185,11 @@ class Newton(NonLinearSolver):
                 # Linearize Model with partial derivatives
                 system._sys_linearize(params, unknowns, resids, total_derivs=False)
 
+                # Inputs fed from outside of this system stay put during the
+                # step, so drop what an outer linear solve has left in them.
+                for _, val in system.dpmat[None].vec_val_iter():
+                    val[:] = 0.0
+
                 # Calculate direction to take step
                 arg.vec[:] = -resids.vec
                 with system._dircontext:
-- 
2.43.0


From 4c5abf2161883d5b1dfd3e6aa20656976154c4cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:44:27 +0000
Subject: [PATCH 58/62] fix: derivatives of a component with states but no
 numeric inputs are applied

---
 openmdao/core/group.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/openmdao/core/group.py b/openmdao/core/group.py
index cd1454b..85ee5a8 100644
--- a/openmdao/core/group.py
+++ b/openmdao/core/group.py
@@ -514,7 +514,8 @@ class Group(System):
                         self._do_apply[(s.pathname, voi)] = True
                         break
                 else:
-                    self._do_apply[(s.pathname, voi)] = False
+                    # residuals may still depend on the system's own states
+                    self._do_apply[(s.pathname, voi)] = bool(s.states)
 
         self._relname_map = None  # reclaim some memory
 
-- 
2.43.0


From 363308dc09e3347ba7d3d6b36291c19b0e38629f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:44:27 +0000
Subject: [PATCH 59/62] fix: Newton steps stop at bounds for variables of any
 shape and survive a zero direction outside them

---
 openmdao/core/vec_wrapper.py | 71 ++++++++++++------------------------
 1 file changed, 24 insertions(+), 47 deletions(-)

diff --git a/openmdao/core/vec_wrapper.py b/openmdao/core/vec_wrapper.py
index 1394cf6..9414089 100644
--- a/openmdao/core/vec_wrapper.py
+++ b/openmdao/core/vec_wrapper.py
@@ -897,71 +897,48 @@ class SrcVecWrapper(VecWrapper):
                 # Skip any remote vars. Also, skip any vars that are
                 # pass_by_obj. Gradients are undefined for objects, so we
                 # can't determine how far to go to the bound anyway.
-                if 'remote' in meta or 'pass_by_obj' in meta:
+                if meta.get('remote') or meta.get('pass_by_obj'):
                     continue
 
                 val = self[name]
+                step = numpy.ravel(duvec[name])
                 idx = duvec._dat[name].slice[0]
 
                 upper = meta.get('upper')
                 if upper is not None:
-                    diff = upper - val
-                    alpha_bound = diff/duvec[name]
-                    if isinstance(alpha_bound, float):
+                    diff = numpy.ravel(upper - val)
+                    alpha_bound = diff/step
 
-                        # If we are already violated for any reason,
-                        # bring it back to the boundary.
-                        if diff < 0.0:
-                            alpha[idx] = alpha_bound
-
-                        elif alpha_bound >= 0.0:
-                            if alpha_bound < alpha[idx]:
-                                alpha[idx] = alpha_bound
-
-                    else:
-                        j = 0
-                        for new_val in alpha_bound:
+                    for j, new_val in enumerate(alpha_bound):
 
-                            # If we are already violated for any reason,
-                            # bring it back to the boundary.
-                            if diff[j] < 0.0:
+                        # If we are already violated for any reason,
+                        # bring it back to the boundary, if the direction
+                        # allows it.
+                        if diff[j] < 0.0:
+                            if step[j] != 0.0:
                                 alpha[idx+j] = new_val
 
-                            elif new_val >= 0.0:
-                                if new_val < alpha[idx+j]:
-                                    alpha[idx+j] = new_val
-
-                            j += 1
+                        elif new_val >= 0.0:
+                            if new_val < alpha[idx+j]:
+                                alpha[idx+j] = new_val
 
                 lower = meta.get('lower')
                 if lower is not None:
-                    diff = lower - val
-                    alpha_bound = diff/duvec[name]
-                    if isinstance(alpha_bound, float):
+                    diff = numpy.ravel(lower - val)
+                    alpha_bound = diff/step
 
-                        # If we are already violated for any reason,
-                        # bring it back to the boundary.
-                        if diff > 0.0:
-                            alpha[idx] = alpha_bound
-
-                        elif alpha_bound >= 0.0:
-                            if alpha_bound < alpha[idx]:
-                                alpha[idx] = alpha_bound
-
-                    else:
-                        j = 0
-                        for new_val in alpha_bound:
+                    for j, new_val in enumerate(alpha_bound):
 
-                            # If we are already violated for any reason,
-                            # bring it back to the boundary.
-                            if diff[j] > 0.0:
+                        # If we are already violated for any reason,
+                        # bring it back to the boundary, if the direction
+                        # allows it.
+                        if diff[j] > 0.0:
+                            if step[j] != 0.0:
                                 alpha[idx+j] = new_val
 
-                            elif new_val >= 0.0:
-                                if new_val < alpha[idx+j]:
-                                    alpha[idx+j] = new_val
-
-                            j += 1
+                        elif new_val >= 0.0:
+                            if new_val < alpha[idx+j]:
+                                alpha[idx+j] = new_val
 
         # Return numpy warn to what it was
         finally:
-- 
2.43.0


From 3b6e2766ce7151ae04e678a6be557f739f749181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:15:42 +0000
Subject: [PATCH 60/62] fix: seeded sampling drivers draw from generators of
 their own; print options are restored when a page fails

---
 openmdao/drivers/latinhypercube_driver.py | 45 +++++++++++++----------
 openmdao/drivers/uniform_driver.py        |  8 +++-
 openmdao/util/viewconns.py                |  6 ++-
 3 files changed, 35 insertions(+), 24 deletions(-)

diff --git a/openmdao/drivers/latinhypercube_driver.py b/openmdao/drivers/latinhypercube_driver.py
index 871f5c4..fa5a4d1 100644
--- a/openmdao/drivers/latinhypercube_driver.py
+++ b/openmdao/drivers/latinhypercube_driver.py
@@ -4,7 +4,7 @@ OpenMDAO design-of-experiments Driver implementing the Latin Hypercube and Optim
 
 from collections import OrderedDict
 import os
-from random import shuffle, randint, seed
+import random
 
 from six import iteritems, itervalues
 from six.moves import range, zip
@@ -51,12 +51,17 @@ class LatinHypercubeDriver(PredeterminedRunsDriver):
         # Add up sizes
         self.num_design_vars = sum(meta['size'] for meta in itervalues(design_vars))
 
+        # A seeded driver draws from generators of its own, so that its cases
+        # do not depend on (or change) what anything else draws in between.
         if self.seed is not None:
-            seed(self.seed)
-            np.random.seed(self.seed)
+            rng = random.Random(self.seed)
+            uniform = np.random.RandomState(self.seed).uniform
+        else:
+            rng = random
+            uniform = np.random.uniform
 
         # Generate an LHC of the proper size
-        rand_lhc = self._get_lhc()
+        rand_lhc = self._get_lhc(rng)
 
         # Map LHC to buckets
         buckets = OrderedDict()
@@ -87,8 +92,8 @@ class LatinHypercubeDriver(PredeterminedRunsDriver):
         for i in range(self.num_samples):
             sample = []
             for key, bounds in iteritems(buckets):
-                sample.append([key, np.array([np.random.uniform(bounds[k][i][0],
-                                                                bounds[k][i][1])
+                sample.append([key, np.array([uniform(bounds[k][i][0],
+                                                      bounds[k][i][1])
                                               for k in range(design_vars[key]['size'])])
                                ])
             yield sample
@@ -125,12 +130,12 @@ class LatinHypercubeDriver(PredeterminedRunsDriver):
         for case in run_list:
             yield case
 
-    def _get_lhc(self):
+    def _get_lhc(self, rng=random):
         """Generates a Latin Hypercube based on the number of samples and the
         number of design variables.
         """
 
-        rand_lhc = _rand_latin_hypercube(self.num_samples, self.num_design_vars)
+        rand_lhc = _rand_latin_hypercube(self.num_samples, self.num_design_vars, rng)
         return rand_lhc.astype(int)
 
     def _get_buckets(self, low, high):
@@ -155,17 +160,17 @@ class OptimizedLatinHypercubeDriver(LatinHypercubeDriver):
         self.generations = generations
         self.norm_method = norm_method
 
-    def _get_lhc(self):
+    def _get_lhc(self, rng=random):
         """Generate an Optimized Latin Hypercube
         """
 
-        rand_lhc = _rand_latin_hypercube(self.num_samples, self.num_design_vars)
+        rand_lhc = _rand_latin_hypercube(self.num_samples, self.num_design_vars, rng)
 
         # Optimize our LHC before returning it
         best_lhc = _LHC_Individual(rand_lhc, q=1, p=self.norm_method)
         for q in self.qs:
             lhc_start = _LHC_Individual(rand_lhc, q, self.norm_method)
-            lhc_opt = _mmlhs(lhc_start, self.population, self.generations)
+            lhc_opt = _mmlhs(lhc_start, self.population, self.generations, rng)
             if lhc_opt.mmphi() < best_lhc.mmphi():
                 best_lhc = lhc_opt
 
@@ -217,7 +222,7 @@ class _LHC_Individual(object):
 
         return self.phi
 
-    def perturb(self, mutation_count):
+    def perturb(self, mutation_count, rng=random):
         """ Interchanges pairs of randomly chosen elements within randomly chosen
         columns of a DOE a number of times. The result of this operation will also
         be a Latin hypercube.
@@ -226,13 +231,13 @@ class _LHC_Individual(object):
         new_doe = self.doe.copy()
         n, k = self.doe.shape
         for count in range(mutation_count):
-            col = randint(0, k - 1)
+            col = rng.randint(0, k - 1)
 
             # Choosing two distinct random points
-            el1 = randint(0, n - 1)
-            el2 = randint(0, n - 1)
+            el1 = rng.randint(0, n - 1)
+            el2 = rng.randint(0, n - 1)
             while el1 == el2:
-                el2 = randint(0, n - 1)
+                el2 = rng.randint(0, n - 1)
 
             new_doe[el1, col], new_doe[el2, col] = \
                 new_doe[el2, col], new_doe[el1, col]
@@ -259,13 +264,13 @@ class _LHC_Individual(object):
         return self.doe
 
 
-def _rand_latin_hypercube(n, k):
+def _rand_latin_hypercube(n, k, rng=random):
     # Calculates a random Latin hypercube set of n points in k dimensions
     # within [0,n-1]^k hypercube.
     arr = np.zeros((n, k))
     row = list(range(0, n))
     for i in range(k):
-        shuffle(row)
+        rng.shuffle(row)
         arr[:, i] = row
     return arr
 
@@ -284,7 +289,7 @@ def _is_latin_hypercube(lh):
     return True
 
 
-def _mmlhs(x_start, population, generations):
+def _mmlhs(x_start, population, generations, rng=random):
     """Evolutionary search for most space filling Latin-Hypercube.
     Returns a new LatinHypercube instance with an optimized set of points.
     """
@@ -304,7 +309,7 @@ def _mmlhs(x_start, population, generations):
         phi_improved = phi_best
 
         for offspring in range(population):
-            x_try = x_best.perturb(mutations)
+            x_try = x_best.perturb(mutations, rng)
             phi_try = x_try.mmphi()
 
             if phi_try < phi_improved:
diff --git a/openmdao/drivers/uniform_driver.py b/openmdao/drivers/uniform_driver.py
index 9afc004..1639569 100644
--- a/openmdao/drivers/uniform_driver.py
+++ b/openmdao/drivers/uniform_driver.py
@@ -36,8 +36,12 @@ class UniformDriver(PredeterminedRunsDriver):
     def _build_runlist(self):
         """Build a runlist based on a uniform distribution."""
 
+        # A seeded driver draws from a generator of its own, so that its cases
+        # do not depend on (or change) what anything else draws in between.
         if self.seed is not None:
-            np.random.seed(self.seed)
+            uniform = np.random.RandomState(self.seed).uniform
+        else:
+            uniform = np.random.uniform
 
         for i in moves.range(self.num_samples):
             sample = []
@@ -53,7 +57,7 @@ class UniformDriver(PredeterminedRunsDriver):
                     if isinstance(high, np.ndarray):
                         high = high[k]
 
-                    values.append(np.random.uniform(low, high))
+                    values.append(uniform(low, high))
                 sample.append([key, np.array(values)])
 
             yield sample
diff --git a/openmdao/util/viewconns.py b/openmdao/util/viewconns.py
index 51a5c13..9e63788 100644
--- a/openmdao/util/viewconns.py
+++ b/openmdao/util/viewconns.py
@@ -16,8 +16,10 @@ from openmdao.devtools.webview import webview
 def printoptions(*args, **kwargs):
     original = numpy.get_printoptions()
     numpy.set_printoptions(*args, **kwargs)
-    yield
-    numpy.set_printoptions(**original)
+    try:
+        yield
+    finally:
+        numpy.set_printoptions(**original)
 
 def view_connections(root, outfile='connections.html', show_browser=True,
                      src_filter='', tgt_filter='', precision=6):
-- 
2.43.0


From 1220e55465290e0233ad9c061f497a91ba675cdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:58:01 +0000
Subject: [PATCH 61/62] fix: optimized latin hypercube driver hangs with a
 single sample

---
 openmdao/drivers/latinhypercube_driver.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/openmdao/drivers/latinhypercube_driver.py b/openmdao/drivers/latinhypercube_driver.py
index fa5a4d1..2caa3f1 100644
--- a/openmdao/drivers/latinhypercube_driver.py
+++ b/openmdao/drivers/latinhypercube_driver.py
@@ -230,6 +230,10 @@ class _LHC_Individual(object):
 
         new_doe = self.doe.copy()
         n, k = self.doe.shape
+        if n < 2:
+            # there is no pair of points to interchange
+            mutation_count = 0
+
         for count in range(mutation_count):
             col = rng.randint(0, k - 1)
 
-- 
2.43.0


From 589dc654967be0cb4b2db0986c67877563c1a27e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:58:01 +0000
Subject: [PATCH 62/62] fix: check_call takes a command that timed out for a
 success

---
 openmdao/util/shell_proc.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/openmdao/util/shell_proc.py b/openmdao/util/shell_proc.py
index 0020943..d4f12c3 100644
--- a/openmdao/util/shell_proc.py
+++ b/openmdao/util/shell_proc.py
@@ -217,7 +217,8 @@ def check_call(args, stdin=None, stdout=None, stderr=None, env=None,
                poll_delay=0., timeout=0.):
     """
     Run command with arguments.
-    If non-zero, `return_code` raises :class:`CalledProcessError`.
+    If non-zero, `return_code` raises :class:`CalledProcessError`, and so does
+    a timeout.
 
     args: string or list
         If a string, then this is the command line to execute, and the
@@ -243,5 +244,8 @@ def check_call(args, stdin=None, stdout=None, stderr=None, env=None,
     """
     process = ShellProc(args, stdin, stdout, stderr, env)
     return_code, error_msg = process.wait(poll_delay, timeout)
+    if return_code is None:
+        # timed out, so the process has been terminated
+        raise CalledProcessError(-signal.SIGTERM, args, error_msg)
     if return_code:
         raise CalledProcessError(return_code, args, error_msg)
-- 
2.43.0

