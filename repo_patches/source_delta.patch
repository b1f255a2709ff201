From c593be67264cb9a13136abd48b4fbc76095a8f61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:01:09 +0000
Subject: [PATCH 01/34] fix: DifferentialControlMapperDiffyG keeps each control
 costate in its control's column

The control costates were inserted before the last costate instead of at the
column of the control they belong to, so mapping back deleted a state's costate,
and two or more controls raised a broadcasting error.
---
 beluga/numeric/data_classes/trajectory_mappers.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/beluga/numeric/data_classes/trajectory_mappers.py b/beluga/numeric/data_classes/trajectory_mappers.py
index ec8be83..0ba2a94 100644
--- a/beluga/numeric/data_classes/trajectory_mappers.py
+++ b/beluga/numeric/data_classes/trajectory_mappers.py
@@ -262,11 +262,11 @@ class DifferentialControlMapperDiffyG(SolMapper):
             else:
                 costate_insert = control_costate * np.ones_like(sol.t)
 
-            sol.dual = np.insert(sol.dual, -1, costate_insert, axis=1)
+            sol.dual = np.insert(sol.dual, idx_y, costate_insert, axis=1)
             if len(sol.dual_u) == 0:
-                sol.dual_u = np.array([costate_insert])
+                sol.dual_u = np.array([costate_insert]).T
             else:
-                sol.dual_u = np.insert(sol.dual_u, -1, costate_insert, axis=1)
+                sol.dual_u = np.insert(sol.dual_u, sol.dual_u.shape[1], costate_insert, axis=1)
 
             idx_u_list.append(idx_u)
 
-- 
2.43.0


From 766f84f328967e7dd0029b95eee63436c0daecac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:16:29 +0000
Subject: [PATCH 02/34] fix: product continuation steps rebuild their schedule
 when run again

init() appended to the schedule of the previous run, so a reused step repeated
the old path instead of starting from the new solution.
---
 beluga/continuation/continuation.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/beluga/continuation/continuation.py b/beluga/continuation/continuation.py
index 429d8b7..a16e2e6 100644
--- a/beluga/continuation/continuation.py
+++ b/beluga/continuation/continuation.py
@@ -349,6 +349,8 @@ class ProductStrategy(ContinuationStrategy):
 
         ls_set = [np.linspace(self.vars[var_name].value, self.vars[var_name].target,
                               self._num_subdivisions) for var_name in self.vars.keys()]
+        for var_name in self.vars.keys():
+            self.vars[var_name].steps = []
         for val in itertools.product(*ls_set):
             ii = 0
             for var_name in self.vars.keys():
@@ -472,6 +474,8 @@ class SparseProductStrategy(ContinuationStrategy):
 
         self.num_cases(len(step_list))
 
+        for var_name in self.vars.keys():
+            self.vars[var_name].steps = []
         for step in step_list:
             for n, var_name in enumerate(self.vars.keys()):
                 self.vars[var_name].steps.append(step[n])
-- 
2.43.0


From 0a8cc9273976f544d310cc19ee72898654f80302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:41:26 +0000
Subject: [PATCH 03/34] fix: diffyg dualisation assigns costate and coparameter
 rates in order when parameters are present

---
 beluga/symbolic/data_classes/mapping_functions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/beluga/symbolic/data_classes/mapping_functions.py b/beluga/symbolic/data_classes/mapping_functions.py
index 2887a2b..204a2ff 100644
--- a/beluga/symbolic/data_classes/mapping_functions.py
+++ b/beluga/symbolic/data_classes/mapping_functions.py
@@ -359,8 +359,8 @@ class Dualize(GenericFunctor):
             costate_syms = extract_syms(prob.costates + prob.coparameters)
             omega = make_standard_symplectic_form(state_syms, costate_syms)
             chi_h = make_hamiltonian_vector_field(prob.hamiltonian.expr, omega, state_syms + costate_syms)
-            costate_rates = chi_h[-len(prob.states):]
-            for costate, rate in zip(prob.costates, costate_rates):
+            costate_rates = chi_h[len(state_syms):]
+            for costate, rate in zip(prob.costates + prob.coparameters, costate_rates):
                 costate.eom = rate
             prob.omega = omega
 
-- 
2.43.0


From c03b924972141aa3fd298132ad0f26bf3903060e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:44:24 +0000
Subject: [PATCH 04/34] fix: NormalizeTime scales quadrature and coparameter
 rates by the duration too

---
 beluga/symbolic/data_classes/mapping_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beluga/symbolic/data_classes/mapping_functions.py b/beluga/symbolic/data_classes/mapping_functions.py
index 204a2ff..9b2c33f 100644
--- a/beluga/symbolic/data_classes/mapping_functions.py
+++ b/beluga/symbolic/data_classes/mapping_functions.py
@@ -698,7 +698,7 @@ class NormalizeTime(GenericFunctor):
                                         local_compiler=prob.local_compiler).sympify_self()
         prob.parameters.append(delta_t)
 
-        _dynamic_structs = [prob.states, prob.costates]
+        _dynamic_structs = [prob.states, prob.costates, prob.quads, prob.coparameters]
 
         for state in combine_component_lists(_dynamic_structs):
             state.eom = state.eom * delta_t.sym
-- 
2.43.0


From 01054107bbd8ee687bf042d1d9c008c6c2981ab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:47:26 +0000
Subject: [PATCH 05/34] fix: substitute quantities and switches in constraint
 activators as well

---
 beluga/symbolic/data_classes/components_structures.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/beluga/symbolic/data_classes/components_structures.py b/beluga/symbolic/data_classes/components_structures.py
index 334a772..8fa575e 100644
--- a/beluga/symbolic/data_classes/components_structures.py
+++ b/beluga/symbolic/data_classes/components_structures.py
@@ -329,6 +329,8 @@ class ConstraintStruct(DimensionalExpressionStruct):
             self.lower = self.lower.subs(old, new)
         if self.upper is not None:
             self.upper = self.upper.subs(old, new)
+        if self.activator is not None:
+            self.activator = self.activator.subs(old, new)
 
 
 def extract_syms(structs: Union[List[NamedStruct], NamedStruct]):
-- 
2.43.0


From a7cd92e83fe0048b4c8d77a0734662ea89a7b636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:21:09 +0000
Subject: [PATCH 06/34] fix: shooting judges convergence by the residual at the
 returned point

---
 beluga/numeric/bvp_solvers/Shooting.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/beluga/numeric/bvp_solvers/Shooting.py b/beluga/numeric/bvp_solvers/Shooting.py
index 2d1eb2b..e3fcbce 100644
--- a/beluga/numeric/bvp_solvers/Shooting.py
+++ b/beluga/numeric/bvp_solvers/Shooting.py
@@ -680,23 +680,23 @@ class Shooting(BaseAlgorithm):
             opt = minimize(cost, x_init, method=self.algorithm, tol=self.tolerance, constraints=constraint,
                            options={'maxiter': self.max_iterations})
 
-            err = opt.fun
             x_init = opt.x
-            n_iter = opt.nit
-            converged = opt.success and isclose(err, 0, abs_tol=self.tolerance)
+            err = np.linalg.norm(_constraint_function_wrapper(x_init))
+            n_iter = opt.get('nit', -1)
+            converged = bool(opt.success) and isclose(err, 0, abs_tol=self.tolerance)
 
         elif self.algorithm in scipy_root_algorithms:
             opt = root(_constraint_function_wrapper, x_init, jac=_jacobian_function_wrapper, method=self.algorithm,
                        tol=self.tolerance, options={'maxiter': self.max_iterations})
-            err = opt.fun
             x_init = opt.x
+            err = np.linalg.norm(_constraint_function_wrapper(x_init))
             n_iter = -1
-            converged = opt.success
+            converged = bool(opt.success) and isclose(err, 0, abs_tol=self.tolerance)
 
         elif self.algorithm.lower() == 'fsolve':
             x = fsolve(_constraint_function_wrapper, x_init, fprime=_jacobian_function_wrapper, xtol=self.tolerance)
-            err = np.linalg.norm(_constraint_function_wrapper(x_init))**2
             x_init = x
+            err = np.linalg.norm(_constraint_function_wrapper(x_init))
             n_iter = -1
             converged = isclose(err, 0, abs_tol=self.tolerance)
 
-- 
2.43.0


From 92697debfa6cf1457cc8384ccf117d45cb277a65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:34:38 +0000
Subject: [PATCH 07/34] fix: quick reconstruction calls the quadrature rates
 with the solvers' signature

---
 beluga/numeric/ivp_solvers/ivpsol.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beluga/numeric/ivp_solvers/ivpsol.py b/beluga/numeric/ivp_solvers/ivpsol.py
index 4f2ddfa..281fbbb 100644
--- a/beluga/numeric/ivp_solvers/ivpsol.py
+++ b/beluga/numeric/ivp_solvers/ivpsol.py
@@ -96,7 +96,7 @@ class Propagator(Algorithm):
 
         if quad_func is not None and len(q0) != 0:
             if self.quick_reconstruct:
-                qf = integrate_quads(quad_func, tspan, gamma, *args)
+                qf = integrate_quads(lambda _, _y, *_args: quad_func(_y, *_args), tspan, gamma, *args)
                 gamma.q = np.vstack((q0, np.zeros((len(gamma.t)-2, len(q0))), qf+q0))
             else:
                 gamma = reconstruct(quad_func, gamma, q0, *args)
-- 
2.43.0


From b916853ee31e4450b2d1362abc7a77f7fdf222ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:39:14 +0000
Subject: [PATCH 08/34] fix: SPBVP supplies Jacobians of the system it poses
 (quadratures, no parameters)

---
 beluga/numeric/bvp_solvers/SPBVP.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/beluga/numeric/bvp_solvers/SPBVP.py b/beluga/numeric/bvp_solvers/SPBVP.py
index 6a982a3..58484e1 100644
--- a/beluga/numeric/bvp_solvers/SPBVP.py
+++ b/beluga/numeric/bvp_solvers/SPBVP.py
@@ -63,7 +63,8 @@ class SPBVP(BaseAlgorithm):
                                                        yb[nstates:nstates+nquads], params[:ndyn],
                                                        params[ndyn:ndyn+nnondyn], const)
 
-        if self.derivative_function_jac is not None:
+        # The derivative Jacobian does not cover quadratures, it is then left to be estimated
+        if self.derivative_function_jac is not None and nquads == 0:
             def _fun_jac(t, y, params=np.array([]), const=solinit.const):
                 y = y.T
                 df_dy = np.zeros((y[0].size, y[0].size, t.size))
@@ -86,15 +87,21 @@ class SPBVP(BaseAlgorithm):
         if self.boundarycondition_function_jac is not None:
             if nquads > 0:
                 def _bc_jac(ya, yb, params=np.array([]), const=solinit.const):
-                    dbc_dya, dbc_dyb, dbc_dp = \
+                    dbc_dya, dbc_dyb, dbc_dp, dbc_dqa, dbc_dqb = \
                         self.boundarycondition_function_jac(ya[:nstates], ya[nstates:nstates+nquads], yb[:nstates],
                                                             yb[nstates:nstates+nquads], params[:ndyn],
                                                             params[ndyn:ndyn+nnondyn], const)
+                    dbc_dya = np.hstack((dbc_dya, dbc_dqa))
+                    dbc_dyb = np.hstack((dbc_dyb, dbc_dqb))
+                    if ndyn + nnondyn == 0:
+                        return dbc_dya, dbc_dyb
                     return dbc_dya, dbc_dyb, dbc_dp
             else:
                 def _bc_jac(ya, yb, params=np.array([]), const=solinit.const):
                     dbc_dya, dbc_dyb, dbc_dp = \
                         self.boundarycondition_function_jac(ya, yb, params[:ndyn], params[ndyn:ndyn+nnondyn], const)
+                    if ndyn + nnondyn == 0:
+                        return dbc_dya, dbc_dyb
                     return dbc_dya, dbc_dyb, dbc_dp
         else:
             _bc_jac = None
-- 
2.43.0


From 805b4d02e0ac3651d4cf39d4379348ed6094e2f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:50:57 +0000
Subject: [PATCH 09/34] fix: tables can be declared with current numpy
 (np.float was removed)

---
 beluga/symbolic/data_classes/components_structures.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/beluga/symbolic/data_classes/components_structures.py b/beluga/symbolic/data_classes/components_structures.py
index 8fa575e..9d2e084 100644
--- a/beluga/symbolic/data_classes/components_structures.py
+++ b/beluga/symbolic/data_classes/components_structures.py
@@ -234,8 +234,8 @@ class TableStruct(CallableStruct):
                  dim_consistent=False, local_compiler=None):
 
         self.table_type = table_type
-        self.data = np.array(data, dtype=np.float)
-        self.arg_data = np.array(arg_data, dtype=np.float)
+        self.data = np.array(data, dtype=float)
+        self.arg_data = np.array(arg_data, dtype=float)
         self.dim_consistent = dim_consistent
 
         # TODO Add checks for size of data, arg_data consistent with type
-- 
2.43.0


From f740a9a15527195dbd8c4e85207b88d0fa29c8ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:50:57 +0000
Subject: [PATCH 10/34] fix: spline tables read inside their data at the last
 point and beyond both ends

---
 beluga/symbolic/special_functions/tables.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/beluga/symbolic/special_functions/tables.py b/beluga/symbolic/special_functions/tables.py
index 80d69c7..d4126fd 100644
--- a/beluga/symbolic/special_functions/tables.py
+++ b/beluga/symbolic/special_functions/tables.py
@@ -102,10 +102,11 @@ class TableSpline1D(object):
     def form_eval_function(self, order):
         data_x = self.data_x
         coeff_set = self.coeff
+        last = len(data_x) - 1  # The end intervals include the end points (and extend beyond them)
 
         if order == 0:
             def interp(x):
-                i = np.searchsorted(data_x, x, side='right')
+                i = min(max(np.searchsorted(data_x, x, side='right'), 1), last)
                 coeff = coeff_set[i - 1]
                 t0 = data_x[i - 1]
                 t1 = data_x[i]
@@ -113,7 +114,7 @@ class TableSpline1D(object):
 
         elif order == 1:
             def interp(x):
-                i = np.searchsorted(data_x, x, side='right')
+                i = min(max(np.searchsorted(data_x, x, side='right'), 1), last)
                 coeff = coeff_set[i - 1]
                 t0 = data_x[i - 1]
                 t1 = data_x[i]
@@ -121,7 +122,7 @@ class TableSpline1D(object):
 
         elif order == 2:
             def interp(x):
-                i = np.searchsorted(data_x, x, side='right')
+                i = min(max(np.searchsorted(data_x, x, side='right'), 1), last)
                 coeff = coeff_set[i - 1]
                 t0 = data_x[i - 1]
                 t1 = data_x[i]
@@ -129,7 +130,7 @@ class TableSpline1D(object):
 
         elif order == 3:
             def interp(x):
-                i = np.searchsorted(data_x, x, side='right')
+                i = min(max(np.searchsorted(data_x, x, side='right'), 1), last)
                 coeff = coeff_set[i - 1]
                 return 6*(coeff[0] - coeff[1])
 
-- 
2.43.0


From de6866a4125e01684d6cc8f6347cbea3ea77cc7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:51:22 +0000
Subject: [PATCH 11/34] fix: numerical derivatives of functions numba cannot
 compile fall back instead of raising

---
 .../numeric/numerical_derivatives/complex_step.py  | 14 +++++++-------
 .../numeric/numerical_derivatives/finite_diff.py   |  6 +++---
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/beluga/numeric/numerical_derivatives/complex_step.py b/beluga/numeric/numerical_derivatives/complex_step.py
index 7a8191f..3106b8d 100644
--- a/beluga/numeric/numerical_derivatives/complex_step.py
+++ b/beluga/numeric/numerical_derivatives/complex_step.py
@@ -10,13 +10,13 @@ import inspect
 def gen_csd(func, deriv_order=None, step_size=1e-6, complex_arg=False):
 
     if max(deriv_order) > 2:
-        logging.beluga('Complex-step derivative not supported for order > 2.'
-                       ' Falling back to finite difference for {}'.format(func.__name__))
+        logging.debug('Complex-step derivative not supported for order > 2.'
+                      ' Falling back to finite difference for {}'.format(func.__name__))
         return beluga.numeric.numerical_derivatives.gen_fin_diff(func, deriv_order=deriv_order, step_size=step_size)
 
     if len(np.nonzero(deriv_order)[0]) > 1:
-        logging.beluga('Complex-step derivative not supported for multivariate derivatives.'
-                       ' Falling back to finite difference for {}'.format(func.__name__))
+        logging.debug('Complex-step derivative not supported for multivariate derivatives.'
+                      ' Falling back to finite difference for {}'.format(func.__name__))
         return beluga.numeric.numerical_derivatives.gen_fin_diff(func, deriv_order=deriv_order, step_size=step_size)
     else:
         arg_idx = np.nonzero(deriv_order)[0][0]
@@ -44,7 +44,7 @@ def gen_csd(func, deriv_order=None, step_size=1e-6, complex_arg=False):
             func_im = njit(tuple(arg_list_im))(func)
 
     except errors.NumbaError as e:
-        logging.beluga(e, 'Cannot jit compile {} to compile numerical derivative'.format(func.__name__))
+        logging.debug('Cannot jit compile {} to compile numerical derivative: {}'.format(func.__name__, e))
 
     if arg_len == 1:
         if deriv_order == 1:
@@ -67,7 +67,7 @@ def gen_csd(func, deriv_order=None, step_size=1e-6, complex_arg=False):
         try:
             csd = njit((arg_type,))(csd)
         except errors.NumbaError as e:
-            logging.beluga(e, 'Cannot jit compile numerical derivative of {}'.format(func.__name__))
+            logging.debug('Cannot jit compile numerical derivative of {}: {}'.format(func.__name__, e))
 
     else:
         arg_select = np.concatenate((np.zeros((arg_idx,), dtype=float), np.array([1.]),
@@ -95,7 +95,7 @@ def gen_csd(func, deriv_order=None, step_size=1e-6, complex_arg=False):
             csd = njit((types.UniTuple(arg_type, arg_len),))(csd)
 
         except errors.NumbaError as e:
-            logging.beluga(e, 'Cannot jit compile numerical derivative of {}'.format(func.__name__))
+            logging.debug('Cannot jit compile numerical derivative of {}: {}'.format(func.__name__, e))
 
             if deriv_order == 1:
                 step = 1e-50
diff --git a/beluga/numeric/numerical_derivatives/finite_diff.py b/beluga/numeric/numerical_derivatives/finite_diff.py
index 5366358..a96911e 100644
--- a/beluga/numeric/numerical_derivatives/finite_diff.py
+++ b/beluga/numeric/numerical_derivatives/finite_diff.py
@@ -31,7 +31,7 @@ def gen_fin_diff(func, deriv_order=None, step_size=1e-6, acc_order=1, method='ce
             func = njit(tuple(arg_list))(func)
 
     except errors.NumbaError as e:
-        logging.beluga(e, 'Cannot jit compile {} to compile numerical derivative'.format(func.__name__))
+        logging.debug('Cannot jit compile {} to compile numerical derivative: {}'.format(func.__name__, e))
 
     step_array = []
     coeff_array = []
@@ -74,7 +74,7 @@ def gen_fin_diff(func, deriv_order=None, step_size=1e-6, acc_order=1, method='ce
         try:
             fin_diff = njit((arg_type,))(fin_diff)
         except errors.NumbaError as e:
-            logging.beluga(e, 'Cannot jit compile numerical derivative of {}'.format(func.__name__))
+            logging.debug('Cannot jit compile numerical derivative of {}: {}'.format(func.__name__, e))
 
     else:
         try:
@@ -90,7 +90,7 @@ def gen_fin_diff(func, deriv_order=None, step_size=1e-6, acc_order=1, method='ce
             fin_diff = njit((types.UniTuple(arg_type, arg_len),))(fin_diff)
 
         except errors.NumbaError as e:
-            logging.beluga(e, 'Cannot jit compile numerical derivative of {}'.format(func.__name__))
+            logging.debug('Cannot jit compile numerical derivative of {}: {}'.format(func.__name__, e))
 
             def fin_diff(*args):
                 diff = 0.
-- 
2.43.0


From 38c34d118d99bc59e218f997018c752c0922a398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:51:55 +0000
Subject: [PATCH 12/34] fix: table and custom function expressions can be
 rebuilt; each derivative has its own valid name

---
 .../special_functions/custom_functions.py     | 71 +++++++------------
 beluga/symbolic/special_functions/tables.py   | 40 +++++------
 2 files changed, 43 insertions(+), 68 deletions(-)

diff --git a/beluga/symbolic/special_functions/custom_functions.py b/beluga/symbolic/special_functions/custom_functions.py
index 497c351..691a7bc 100644
--- a/beluga/symbolic/special_functions/custom_functions.py
+++ b/beluga/symbolic/special_functions/custom_functions.py
@@ -44,17 +44,12 @@ class CustomFunctionGenerator(object):
 
 
 class CustomFunctionMeta(Function):
-    def __new__(cls, base_name, base_func, arg_list):
-        obj = super(CustomFunctionMeta, cls).__new__(cls, *arg_list)
-        obj.nargs = (len(arg_list),)
-        obj.arg_list = tuple(arg_list)
-        obj.base_name = base_name
-        if type(base_func) is CPUDispatcher:
-            obj.base_func = base_func
-        else:
-            obj.base_func = jit_compile_func(base_func, arg_list)
-
-        return obj
+    # Set on the class made for each function and order of derivative
+    base_name = None
+    base_func = None
+    order = None
+    local_compiler = None
+    deriv_method = 'c_diff'
 
     def __deepcopy__(self, memodict=None):
         return self
@@ -64,11 +59,11 @@ class CustomFunctionMeta(Function):
         return True
 
     def fdiff(self, argindex=1):
-        if argindex <= self.nargs[0]:
+        if argindex <= len(self.args):
             order = list(self.order)
             order[argindex - 1] += 1
-            return CustomFunction(self.base_name, self.base_func, self.arg_list,
-                                  order=tuple(order), local_compiler=self.local_compiler)
+            return CustomFunction(self.base_name, self.base_func, self.args, order=tuple(order),
+                                  local_compiler=self.local_compiler, deriv_method=self.deriv_method)
         else:
             raise ArgumentIndexError(self, argindex)
 
@@ -81,17 +76,21 @@ class CustomFunction(Function):
         if order is None:
             order = ([0 for _ in range(len(arg_list))])
 
-        name = cls.construct_name(base_name, arg_list, order)
-        obj = type(name, (CustomFunctionMeta,), {})(name, base_func, arg_list)
+        if not type(base_func) is CPUDispatcher:
+            base_func = jit_compile_func(base_func, arg_list)
+
+        name = cls.construct_name(base_name, order)
         if sum(order) == 0:
-            obj.eval_func = base_func
+            eval_func = base_func
         else:
-            obj.eval_func = gen_num_diff(base_func, order=order, method=deriv_method)
-        obj.local_compiler = local_compiler
-        if obj.local_compiler is not None:
-            obj.local_compiler.add_function_local(name, obj.eval_func)
-        obj.order = order
-        return obj
+            eval_func = gen_num_diff(base_func, order=order, method=deriv_method)
+        if local_compiler is not None:
+            local_compiler.add_function_local(name, eval_func)
+        func = type(name, (CustomFunctionMeta,), {'nargs': len(arg_list), 'base_name': base_name,
+                                                  'base_func': staticmethod(base_func), 'order': tuple(order),
+                                                  'eval_func': staticmethod(eval_func),
+                                                  'local_compiler': local_compiler, 'deriv_method': deriv_method})
+        return func(*arg_list)
 
     @staticmethod
     def check_args(arg_list, base_func):
@@ -102,25 +101,9 @@ class CustomFunction(Function):
                               .format(base_func.__name__))
 
     @staticmethod
-    def construct_name(func_name, arg_list, order):
-        total_order = sum(order)
-
-        post = '_'
-        for arg_k, order_k in zip(arg_list, order):
-            if order_k == 0:
-                pass
-            elif order_k == 1:
-                post += 'd' + str(arg_k)
-            else:
-                post += 'd' + str(arg_k) + str(order_k)
-
-        if total_order == 0:
-            pre = ''
-            post = ''
-        elif total_order == 1:
-            pre = 'd'
+    def construct_name(func_name, order):
+        # Arguments are told apart by their position: the same expression may be passed more than once
+        if sum(order) == 0:
+            return func_name
         else:
-            pre = 'd' + str(total_order)
-
-        return pre + func_name + post
-
+            return '_d_' + '_'.join(str(order_k) for order_k in order) + '_' + func_name
diff --git a/beluga/symbolic/special_functions/tables.py b/beluga/symbolic/special_functions/tables.py
index d4126fd..3e55db5 100644
--- a/beluga/symbolic/special_functions/tables.py
+++ b/beluga/symbolic/special_functions/tables.py
@@ -22,13 +22,11 @@ class SymTableGenerator(object):
 
 
 class SymTableMeta(Function):
-    def __new__(cls, table, arg, local_compiler=None):
-        obj = super(SymTableMeta, cls).__new__(cls, arg)
-        obj.nargs = (1,)
-        obj.order = 0
-        obj.table = table
-        obj.local_compiler = local_compiler
-        return obj
+    # Set on the class made for each table and order of derivative
+    nargs = 1
+    table = None
+    order = 0
+    local_compiler = None
 
     @property
     def _diff_wrt(self):
@@ -46,27 +44,21 @@ class SymTableMeta(Function):
 
 class SymTable(SymTableMeta):
     def __new__(cls, table, arg, local_compiler=None, order=0):
-        name = cls.construct_name(str(table), str(arg), order)
-        obj = type(name, (SymTableMeta,), {})(table, arg, local_compiler=local_compiler)
-        obj.table_func = table.form_eval_function(order)
-        obj.local_compiler = local_compiler
-        if obj.local_compiler is not None:
-            obj.local_compiler.add_function_local(name, obj.table_func)
-        obj.order = order
-        return obj
+        name = cls.construct_name(str(table), order)
+        table_func = table.form_eval_function(order)
+        if local_compiler is not None:
+            local_compiler.add_function_local(name, table_func)
+        func = type(name, (SymTableMeta,), {'nargs': 1, 'table': table, 'order': order, 'table_func': staticmethod(table_func),
+                                            'local_compiler': local_compiler})
+        return func(arg)
 
     @staticmethod
-    def construct_name(table_name, arg_name, order):
+    def construct_name(table_name, order):
+        # The derivative does not depend on the name of the argument
         if order == 0:
-            pre = ''
-            post = ''
-        elif order == 1:
-            pre = 'd'
-            post = '_d' + arg_name
+            return table_name
         else:
-            pre = 'd' + str(order)
-            post = '_d' + arg_name + str(order)
-        return pre + table_name + post
+            return '_d_' + str(order) + '_' + table_name
 
 
 class TableSpline1D(object):
-- 
2.43.0


From e6bd31b4a4defaef37e899d1bacc0525c02cccd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:52:08 +0000
Subject: [PATCH 13/34] fix: complex-step derivatives of functions with several
 arguments

---
 .../numeric/numerical_derivatives/complex_step.py  | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/beluga/numeric/numerical_derivatives/complex_step.py b/beluga/numeric/numerical_derivatives/complex_step.py
index 3106b8d..1c45cb0 100644
--- a/beluga/numeric/numerical_derivatives/complex_step.py
+++ b/beluga/numeric/numerical_derivatives/complex_step.py
@@ -78,8 +78,8 @@ def gen_csd(func, deriv_order=None, step_size=1e-6, complex_arg=False):
                 step = 1e-50
 
                 def csd(*args):
-                    args_k = tuple(np.array(args) + step*1j*arg_select)
-                    return func_im(args_k).imag/step
+                    args_k = np.array(args) + step*1j*arg_select
+                    return func_im(*args_k).imag/step
 
             else:
                 im_step_size = math.sqrt(3 + 2 * math.sqrt(2)) * step_size
@@ -88,9 +88,9 @@ def gen_csd(func, deriv_order=None, step_size=1e-6, complex_arg=False):
 
                 def csd(*args):
                     args_array = np.array(args)
-                    args_k_re = tuple(args_array + step_re, arg_len)
-                    args_k_im = tuple(args_array + step_im, arg_len)
-                    return 2 * (func_re(args_k_re) - func_im(args_k_im)).real / im_step_size ** 2
+                    args_k_re = args_array + step_re
+                    args_k_im = args_array + step_im
+                    return 2 * (func_re(*args_k_re) - func_im(*args_k_im)).real / im_step_size ** 2
 
             csd = njit((types.UniTuple(arg_type, arg_len),))(csd)
 
@@ -101,8 +101,8 @@ def gen_csd(func, deriv_order=None, step_size=1e-6, complex_arg=False):
                 step = 1e-50
 
                 def csd(*args):
-                    args_k = tuple(np.array(args) + step * 1j * arg_select, arg_len)
-                    return func_im(args_k) / step
+                    args_k = np.array(args) + step * 1j * arg_select
+                    return func_im(*args_k).imag / step
 
             else:
                 im_step_size = math.sqrt(3 + 2 * math.sqrt(2)) * step_size
-- 
2.43.0


From 1f254a81bdba798bb7dea446738c2752cb584833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:56 +0000
Subject: [PATCH 14/34] fix: leave the user's static initial guess unchanged

The mappers work in place, so the trajectory given to the 'static' guess generator
was overwritten by the first solve and a second solve started from the mapped guess.
---
 beluga/continuation/guess_generators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beluga/continuation/guess_generators.py b/beluga/continuation/guess_generators.py
index 25b1139..a4a1ae8 100644
--- a/beluga/continuation/guess_generators.py
+++ b/beluga/continuation/guess_generators.py
@@ -69,7 +69,7 @@ class GuessGenerator(object):
 
     def static(self, bvp_fn, solinit, ocp_map, ocp_map_inverse):
         """Directly specify initial guess structure"""
-        return ocp_map(self.solinit)
+        return ocp_map(copy.deepcopy(self.solinit))
 
     def setup_auto(self, start=None, direction='forward', time_integrate=1, quad_guess=np.array([]), costate_guess=0.1,
                    control_guess=0.1, use_control_guess=False, param_guess=None):
-- 
2.43.0


From 6370cde1808f2f9b8da324c44f681ed385a20680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:56 +0000
Subject: [PATCH 15/34] fix: keep the settings given to the GuessGenerator
 constructor

The constructor applied its settings and then overwrote them with defaults.
---
 beluga/continuation/guess_generators.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/beluga/continuation/guess_generators.py b/beluga/continuation/guess_generators.py
index a4a1ae8..5a2cf29 100644
--- a/beluga/continuation/guess_generators.py
+++ b/beluga/continuation/guess_generators.py
@@ -33,7 +33,6 @@ class GuessGenerator(object):
         self.generate_funcs = {'auto': self.auto,
                                'static': self.static,
                                'ones': self.ones}
-        self.setup(**kwargs)
         self.dae_num_states = 0
 
         self.mode = 'auto'
@@ -47,6 +46,8 @@ class GuessGenerator(object):
         self.control_guess = None
         self.use_control_guess = False
 
+        self.setup(**kwargs)
+
     def setup(self, mode='auto', **kwargs):
         """Sets up the initial guess generation process"""
         self.mode = mode
-- 
2.43.0


From 6e61d9dc79d8e7a4b389faa558451599a01bc989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:56 +0000
Subject: [PATCH 16/34] fix: spread a scalar control guess over all controls

A scalar control guess was spread over dae_num_states components, which was never set,
and an integer one was not spread at all.
---
 beluga/beluga.py                        | 1 +
 beluga/continuation/guess_generators.py | 4 ++--
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/beluga/beluga.py b/beluga/beluga.py
index e56b641..55cc64f 100755
--- a/beluga/beluga.py
+++ b/beluga/beluga.py
@@ -160,6 +160,7 @@ def solve(
 
     solinit = Trajectory()
     solinit.const = np.array(getattr_from_list(bvp.constants, 'default_val'))
+    guess_generator.dae_num_states = len(ocp.controls)
     solinit = guess_generator.generate(bvp.functional_problem, solinit, ocp_map, ocp_map_inverse)
 
     if initial_helper:
diff --git a/beluga/continuation/guess_generators.py b/beluga/continuation/guess_generators.py
index 5a2cf29..bdfb39e 100644
--- a/beluga/continuation/guess_generators.py
+++ b/beluga/continuation/guess_generators.py
@@ -112,7 +112,7 @@ class GuessGenerator(object):
         else:
             d0 = np.r_[self.costate_guess]
 
-        if isinstance(self.control_guess, float) or isinstance(self.control_guess, float):
+        if isinstance(self.control_guess, float) or isinstance(self.control_guess, int):
             u0 = self.control_guess*np.ones(self.dae_num_states)
         else:
             u0 = self.control_guess
@@ -191,7 +191,7 @@ class GuessGenerator(object):
         else:
             d0 = np.r_[self.costate_guess]
 
-        if isinstance(self.control_guess, float) or isinstance(self.control_guess, float):
+        if isinstance(self.control_guess, float) or isinstance(self.control_guess, int):
             u0 = self.control_guess * np.ones(self.dae_num_states)
         else:
             u0 = self.control_guess
-- 
2.43.0


From bc0f031c062131a0d97a822a7671d56050a5ab3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:56 +0000
Subject: [PATCH 17/34] fix: refuse a constraint parameter under a name already
 taken

---
 beluga/symbolic/data_classes/symbolic_problem.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/beluga/symbolic/data_classes/symbolic_problem.py b/beluga/symbolic/data_classes/symbolic_problem.py
index 08bedbd..a766581 100644
--- a/beluga/symbolic/data_classes/symbolic_problem.py
+++ b/beluga/symbolic/data_classes/symbolic_problem.py
@@ -134,6 +134,7 @@ class Problem:
         return self
 
     def constraint_parameter(self, name, units):
+        self.check_for_duplicate(name)
         self.constraint_parameters.append(NamedDimensionalStruct(name, units, local_compiler=self.local_compiler))
         return self
 
-- 
2.43.0


From 5ffbf23e1ea8287d3cc141b2fe624f227eb8b1cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:56 +0000
Subject: [PATCH 18/34] fix: cost parts not given to set_cost are zero

They were None, which sympify turns into an object that cannot be added or differentiated.
---
 beluga/symbolic/data_classes/symbolic_problem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beluga/symbolic/data_classes/symbolic_problem.py b/beluga/symbolic/data_classes/symbolic_problem.py
index a766581..c795d43 100644
--- a/beluga/symbolic/data_classes/symbolic_problem.py
+++ b/beluga/symbolic/data_classes/symbolic_problem.py
@@ -199,7 +199,7 @@ class Problem:
         return self
 
     # TODO Rename cost
-    def set_cost(self, initial=None, path=None, terminal=None, units=None):
+    def set_cost(self, initial='0', path='0', terminal='0', units=None):
         self.cost = CostStruct(initial=initial, path=path, terminal=terminal, units=units,
                                local_compiler=self.local_compiler)
 
-- 
2.43.0


From 6fcfb24bc1e97072e08bf776e70742f2c9891649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:34:35 +0000
Subject: [PATCH 19/34] fix: saved problems with tables or custom functions can
 be loaded again

The class made for each function kept its own 'nargs', which cannot be set when the class
is rebuilt on loading (and before that its constructor did not accept the arguments
with which it was saved).
---
 beluga/symbolic/special_functions/custom_functions.py | 5 ++---
 beluga/symbolic/special_functions/tables.py           | 2 +-
 2 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/beluga/symbolic/special_functions/custom_functions.py b/beluga/symbolic/special_functions/custom_functions.py
index 691a7bc..cd2e71c 100644
--- a/beluga/symbolic/special_functions/custom_functions.py
+++ b/beluga/symbolic/special_functions/custom_functions.py
@@ -86,9 +86,8 @@ class CustomFunction(Function):
             eval_func = gen_num_diff(base_func, order=order, method=deriv_method)
         if local_compiler is not None:
             local_compiler.add_function_local(name, eval_func)
-        func = type(name, (CustomFunctionMeta,), {'nargs': len(arg_list), 'base_name': base_name,
-                                                  'base_func': staticmethod(base_func), 'order': tuple(order),
-                                                  'eval_func': staticmethod(eval_func),
+        func = type(name, (CustomFunctionMeta,), {'base_name': base_name, 'base_func': staticmethod(base_func),
+                                                  'order': tuple(order), 'eval_func': staticmethod(eval_func),
                                                   'local_compiler': local_compiler, 'deriv_method': deriv_method})
         return func(*arg_list)
 
diff --git a/beluga/symbolic/special_functions/tables.py b/beluga/symbolic/special_functions/tables.py
index 3e55db5..8b0c97d 100644
--- a/beluga/symbolic/special_functions/tables.py
+++ b/beluga/symbolic/special_functions/tables.py
@@ -48,7 +48,7 @@ class SymTable(SymTableMeta):
         table_func = table.form_eval_function(order)
         if local_compiler is not None:
             local_compiler.add_function_local(name, table_func)
-        func = type(name, (SymTableMeta,), {'nargs': 1, 'table': table, 'order': order, 'table_func': staticmethod(table_func),
+        func = type(name, (SymTableMeta,), {'table': table, 'order': order, 'table_func': staticmethod(table_func),
                                             'local_compiler': local_compiler})
         return func(arg)
 
-- 
2.43.0


From 0bc6af8cb49a450a7fa1c52a1ca5a762b49ddd41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:22:42 +0000
Subject: [PATCH 20/34] fix: trajectories without quadratures can be mapped to
 a reduced problem

---
 beluga/numeric/data_classes/trajectory_mappers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/beluga/numeric/data_classes/trajectory_mappers.py b/beluga/numeric/data_classes/trajectory_mappers.py
index 0ba2a94..3ce3cb5 100644
--- a/beluga/numeric/data_classes/trajectory_mappers.py
+++ b/beluga/numeric/data_classes/trajectory_mappers.py
@@ -310,7 +310,8 @@ class MF(SolMapper):
         elif self.remove_symmetry_dict['location'] == 'costates':
             sol.dual = np.delete(sol.dual, np.s_[self.remove_symmetry_dict['index']], axis=1)
 
-        sol.q = np.column_stack((sol.q, qval))
+        quads = sol.q if len(sol.q) > 0 else np.empty((len(sol.t), 0))
+        sol.q = np.column_stack((quads, qval))
 
         return sol
 
-- 
2.43.0


From 63c7ae3d626fb57852e162c6fb015a2eade00167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:08 +0000
Subject: [PATCH 21/34] fix: complex-step derivative of a function numba cannot
 compile

---
 beluga/numeric/numerical_derivatives/complex_step.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/beluga/numeric/numerical_derivatives/complex_step.py b/beluga/numeric/numerical_derivatives/complex_step.py
index 1c45cb0..0ea7555 100644
--- a/beluga/numeric/numerical_derivatives/complex_step.py
+++ b/beluga/numeric/numerical_derivatives/complex_step.py
@@ -45,6 +45,7 @@ def gen_csd(func, deriv_order=None, step_size=1e-6, complex_arg=False):
 
     except errors.NumbaError as e:
         logging.debug('Cannot jit compile {} to compile numerical derivative: {}'.format(func.__name__, e))
+        func_re = func_im = func
 
     if arg_len == 1:
         if deriv_order == 1:
-- 
2.43.0


From ca524e9a2fb547826346a1d54348b58814a9d296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:53 +0000
Subject: [PATCH 22/34] fix: shooting with a process pool passed the controls
 to the dynamics

With n_cpus > 1 every shooting solve raised a TypeError, because the
propagation of the arcs in the pool still handed the control of the start
point to functions that no longer take one.
---
 beluga/numeric/bvp_solvers/Shooting.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/beluga/numeric/bvp_solvers/Shooting.py b/beluga/numeric/bvp_solvers/Shooting.py
index e3fcbce..f679a39 100644
--- a/beluga/numeric/bvp_solvers/Shooting.py
+++ b/beluga/numeric/bvp_solvers/Shooting.py
@@ -284,13 +284,13 @@ class Shooting(BaseAlgorithm):
             u0g[ii] = _u0g
 
         def preload(args):
-            return prop(pickle.loads(derivative_function), pickle.loads(quadrature_function), args[0], args[1], args[2], args[3],
+            return prop(pickle.loads(derivative_function), pickle.loads(quadrature_function), args[0], args[1], args[2],
                         dyn_param, sol.const)
 
         if pool is not None:
-            gamma_set_new = pool.map(preload, zip(tspan, y0g, q0g, u0g))
+            gamma_set_new = pool.map(preload, zip(tspan, y0g, q0g))
         else:
-            gamma_set_new = [preload([T, Y, Q, U]) for T, Y, Q, U in zip(tspan, y0g, q0g, u0g)]
+            gamma_set_new = [preload([T, Y, Q]) for T, Y, Q in zip(tspan, y0g, q0g)]
 
         if n_arcs > 1 and nquads > 0:
             for ii in range(n_arcs - 1):
-- 
2.43.0


From 43a9ec5e6c5d9727da08bc4b03e5275ba8cf0b13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:20:22 +0000
Subject: [PATCH 23/34] fix: a bisection step run again keeps the number of
 cases asked for

The cases inserted while refining a failed interval stayed in the number of
cases of the step, so running the step again built a finer schedule than the
one asked for.
---
 beluga/continuation/continuation.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/beluga/continuation/continuation.py b/beluga/continuation/continuation.py
index a16e2e6..91a8011 100644
--- a/beluga/continuation/continuation.py
+++ b/beluga/continuation/continuation.py
@@ -176,6 +176,7 @@ class ManualStrategy(ContinuationStrategy):
     def reset(self):
         """Resets the internal step counter to zero"""
         self.ctr = 0
+        self._num_cases = self.orig_num_cases
         self.last_sol = None
 
     def clear(self):
-- 
2.43.0


From 3666f5c42674cbf0aa8eb9699ac2f41104c19f04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:46 +0000
Subject: [PATCH 24/34] fix: failed solutions flagged with a numpy bool are not
 used as guesses

get_closest_gamma tested 'converged is False', which is not true for
numpy.bool_(False): a failed solution of a solver that returns such flags
was taken as the guess of the next case.
---
 beluga/continuation/continuation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beluga/continuation/continuation.py b/beluga/continuation/continuation.py
index 91a8011..8184af9 100644
--- a/beluga/continuation/continuation.py
+++ b/beluga/continuation/continuation.py
@@ -97,7 +97,7 @@ class ContinuationStrategy(abc.ABC):
     def get_closest_gamma(self, const):
         norms = []
         for traj in self.gammas:
-            if traj.converged is False:
+            if not traj.converged:
                 norms.append(9e99)
             else:
                 norms.append(gamma_norm(traj.const, const))
-- 
2.43.0


From 2d8cbc13b9f4dc11e7be0f6ae2f0420341218b73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:10:28 +0000
Subject: [PATCH 25/34] fix: symmetries of problems with parameters in Dualize

With method 'diffyg' a symmetry field was padded for the costates only, while
the symplectic form also covers the parameters and the coparameters, so any
problem with a parameter and a symmetry (also the time translation added by
MomentumShift) failed in noether with a ShapeError.
---
 beluga/symbolic/data_classes/mapping_functions.py        | 9 +++++----
 .../differential_geometry/differential_geometry.py       | 2 +-
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/beluga/symbolic/data_classes/mapping_functions.py b/beluga/symbolic/data_classes/mapping_functions.py
index 9b2c33f..6311b66 100644
--- a/beluga/symbolic/data_classes/mapping_functions.py
+++ b/beluga/symbolic/data_classes/mapping_functions.py
@@ -338,15 +338,16 @@ class Dualize(GenericFunctor):
             prob.costates.append(lam)
             prob.hamiltonian.expr += lam.sym * state.eom
 
-        symmetry_costate_addition = np.array([sym_zero for _ in prob.costates])
-        for idx, symmetry in enumerate(prob.symmetries):
-            symmetry.field = np.concatenate((symmetry.field, symmetry_costate_addition))
-
         # Handle coparameters
         for parameter in prob.parameters:
             lam_name = '_lam_{}'.format(parameter.name)
             prob.coparameters.append(DynamicStruct(lam_name, '0', prob.cost.units / parameter.units))
 
+        # Symmetries act on the states only: no motion of the parameters, the costates and the coparameters
+        symmetry_addition = np.array([sym_zero for _ in prob.parameters + prob.costates + prob.coparameters])
+        for idx, symmetry in enumerate(prob.symmetries):
+            symmetry.field = np.concatenate((symmetry.field, symmetry_addition))
+
         prob.constants_of_motion.append(
             NamedDimensionalExpressionStruct('hamiltonian', prob.hamiltonian.expr, prob.hamiltonian.units,
                                             local_compiler=prob.local_compiler).sympify_self())
diff --git a/beluga/symbolic/differential_geometry/differential_geometry.py b/beluga/symbolic/differential_geometry/differential_geometry.py
index 72b5fc2..16063c2 100644
--- a/beluga/symbolic/differential_geometry/differential_geometry.py
+++ b/beluga/symbolic/differential_geometry/differential_geometry.py
@@ -185,7 +185,7 @@ def noether(prob, quantity):
         chi = sympy.Matrix(quantity.field)
         omega_chi = omega.LUsolve(chi)
         gstar = 0
-        for jj, state in enumerate(prob.states + prob.costates):
+        for jj, state in enumerate(prob.states + prob.parameters + prob.costates + prob.coparameters):
             gstar += sympy.integrate(omega_chi[jj], state.sym)
 
         unit = prob.constants_of_motion[0].units / quantity.units
-- 
2.43.0


From 19aa083458a129aeb59237074718347a251a33e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:10:42 +0000
Subject: [PATCH 26/34] fix: no time-translation symmetry when the path cost
 depends on time

MomentumShift declared the symmetry from the rates alone; with a path cost
that depends on time, Dualize('diffyg') then derived a constant of motion
(the costate of time) that is not constant, and the reduction replaced it
by a parameter.
---
 beluga/symbolic/data_classes/mapping_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beluga/symbolic/data_classes/mapping_functions.py b/beluga/symbolic/data_classes/mapping_functions.py
index 6311b66..9e79a68 100644
--- a/beluga/symbolic/data_classes/mapping_functions.py
+++ b/beluga/symbolic/data_classes/mapping_functions.py
@@ -166,7 +166,7 @@ class MomentumShift(GenericFunctor):
         for symmetry in prob.symmetries:
             symmetry.field = np.append(symmetry.field, sympy.Integer(0))
 
-        independent_symmetry = True
+        independent_symmetry = prob.cost.path.diff(new_state.sym) == 0
         for state in prob.states:
             if state.eom.diff(new_state.sym) != 0:
                 independent_symmetry = False
-- 
2.43.0


From 84143076f184fe2514d3cfcb2d937f705a5eca27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:35:25 +0000
Subject: [PATCH 27/34] fix: units of the constants of motion derived from
 symmetries

noether gave a momentum the units of the Hamiltonian (cost per time) over those
of the symmetry; the momentum along a symmetry has the units of the cost over
those of the symmetry, as the costates have. Reduction turns it into a
parameter, so the scaled reduced problem was a different problem.
---
 beluga/symbolic/differential_geometry/differential_geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beluga/symbolic/differential_geometry/differential_geometry.py b/beluga/symbolic/differential_geometry/differential_geometry.py
index 16063c2..fa688a3 100644
--- a/beluga/symbolic/differential_geometry/differential_geometry.py
+++ b/beluga/symbolic/differential_geometry/differential_geometry.py
@@ -188,7 +188,7 @@ def noether(prob, quantity):
         for jj, state in enumerate(prob.states + prob.parameters + prob.costates + prob.coparameters):
             gstar += sympy.integrate(omega_chi[jj], state.sym)
 
-        unit = prob.constants_of_motion[0].units / quantity.units
+        unit = prob.cost.units / quantity.units
 
         return gstar, unit
 
-- 
2.43.0


From 12de558214e2b7f7255dc880d4c2b007bad9c3e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:35:25 +0000
Subject: [PATCH 28/34] fix: integrate_quads over trajectories that run
 backward in time

The bounds and the node search assumed increasing times, so a backward
propagation with quick_reconstruct returned the initial quadratures.
---
 beluga/numeric/ivp_solvers/ivpsol.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/beluga/numeric/ivp_solvers/ivpsol.py b/beluga/numeric/ivp_solvers/ivpsol.py
index 281fbbb..571b9f4 100644
--- a/beluga/numeric/ivp_solvers/ivpsol.py
+++ b/beluga/numeric/ivp_solvers/ivpsol.py
@@ -154,17 +154,20 @@ def integrate_quads(quadfun, tspan, gamma, *args):
     :param args: Additional arguments needed by quadfun.
     :return: Value of the quads at :math:`t_f`.
     """
-    if tspan[0] < gamma.t[0]:
+    # Trajectories may run backward in time
+    direction = 1 if gamma.t[-1] >= gamma.t[0] else -1
+
+    if direction * tspan[0] < direction * gamma.t[0]:
         raise Exception('Time span out of integration bounds.')
 
-    if tspan[-1] > gamma.t[-1]:
+    if direction * tspan[-1] > direction * gamma.t[-1]:
         raise Exception('Time span out of integration bounds.')
 
     t_len = len(gamma.t)
     x_set_temp = np.arange(0, t_len, 1)
 
-    ind0 = int(np.ceil(np.interp(tspan[0], gamma.t, x_set_temp)))
-    indf = int(np.ceil(np.interp(tspan[-1], gamma.t, x_set_temp)))
+    ind0 = int(np.ceil(np.interp(direction * tspan[0], direction * gamma.t, x_set_temp)))
+    indf = int(np.ceil(np.interp(direction * tspan[-1], direction * gamma.t, x_set_temp)))
 
     if tspan[0] != gamma.t[ind0]:
         t_interp = np.array([tspan[0]])
-- 
2.43.0


From d278047e6c1bdd1fa710b358ec1ce2d33cf8a713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:50:37 +0000
Subject: [PATCH 29/34] fix: continuation steps from integer constants are not
 truncated

---
 beluga/continuation/continuation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beluga/continuation/continuation.py b/beluga/continuation/continuation.py
index 8184af9..1911403 100644
--- a/beluga/continuation/continuation.py
+++ b/beluga/continuation/continuation.py
@@ -127,7 +127,7 @@ class ContinuationStrategy(abc.ABC):
 
         # Update auxiliary variables using previously calculated step sizes
         total_change = 0.0
-        const0 = copy.deepcopy(self.gammas[-1].const)
+        const0 = np.array(self.gammas[-1].const, dtype=float)
         for var_name in self.vars:
             jj = self.constant_names.index(var_name)
             const0[jj] = self.vars[var_name].steps[self.ctr]
-- 
2.43.0


From 7ccac1313fee8a744d026f3ddd7d1724befd8268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:50:37 +0000
Subject: [PATCH 30/34] fix: constants matched to states are not truncated to
 integers

---
 beluga/continuation/guess_generators.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/beluga/continuation/guess_generators.py b/beluga/continuation/guess_generators.py
index bdfb39e..4c819ef 100644
--- a/beluga/continuation/guess_generators.py
+++ b/beluga/continuation/guess_generators.py
@@ -236,6 +236,7 @@ def match_constants_to_states(prob: Problem, sol: Trajectory):
     initial_bc = dict(zip(state_names, initial_states))
     terminal_bc = dict(zip(state_names, terminal_states))
 
+    sol.const = np.array(sol.const, dtype=float)
     constant_names = getattr_from_list(prob.constants, 'name')
     for ii, bc0 in enumerate(initial_bc):
         if bc0 + '_0' in constant_names:
-- 
2.43.0


From 98fb7863a3ce59cbae884c6972adffc955b57ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:13:04 +0000
Subject: [PATCH 31/34] fix: no time-translation symmetry when a switch or path
 constraint depends on time

---
 beluga/symbolic/data_classes/mapping_functions.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/beluga/symbolic/data_classes/mapping_functions.py b/beluga/symbolic/data_classes/mapping_functions.py
index 9e79a68..2a80353 100644
--- a/beluga/symbolic/data_classes/mapping_functions.py
+++ b/beluga/symbolic/data_classes/mapping_functions.py
@@ -166,7 +166,12 @@ class MomentumShift(GenericFunctor):
         for symmetry in prob.symmetries:
             symmetry.field = np.append(symmetry.field, sympy.Integer(0))
 
-        independent_symmetry = prob.cost.path.diff(new_state.sym) == 0
+        # Switches and path constraints enter the rates and the path cost later on
+        exprs = [prob.cost.path] + [switch.sym_func for switch in prob.switches]
+        for constraint in prob.constraints['path']:
+            exprs += [expr for expr in (constraint.expr, constraint.lower, constraint.upper) if expr is not None]
+
+        independent_symmetry = all(expr.diff(new_state.sym) == 0 for expr in exprs)
         for state in prob.states:
             if state.eom.diff(new_state.sym) != 0:
                 independent_symmetry = False
-- 
2.43.0


From c917d8e276d13b98baaf569a4b2c78f588945258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:49 +0000
Subject: [PATCH 32/34] fix: a control candidate that is not real is not chosen
 over one that is

---
 beluga/numeric/compilation/component_compilation.py | 2 +-
 beluga/numeric/data_classes/trajectory_mappers.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/beluga/numeric/compilation/component_compilation.py b/beluga/numeric/compilation/component_compilation.py
index e2a35cb..8661c05 100644
--- a/beluga/numeric/compilation/component_compilation.py
+++ b/beluga/numeric/compilation/component_compilation.py
@@ -28,7 +28,7 @@ def compile_control(control_options, args, ham_func, lambdify_func=jit_lambdify)
             ham = ham_func(_y, u, _p, _k)
             for n in range(1, num_options):
                 ham_i = ham_func(_y, u_set[n, :], _p, _k)
-                if ham_i < ham:
+                if ham_i < ham or np.isnan(ham):
                     u = u_set[n, :]
                     ham = ham_i
 
diff --git a/beluga/numeric/data_classes/trajectory_mappers.py b/beluga/numeric/data_classes/trajectory_mappers.py
index 3ce3cb5..15b9d5a 100644
--- a/beluga/numeric/data_classes/trajectory_mappers.py
+++ b/beluga/numeric/data_classes/trajectory_mappers.py
@@ -210,7 +210,7 @@ class AlgebraicControlMapper(SolMapper):
                 ham = ham_func(_t, _y, _lam, u, _p, _k)
                 for n in range(1, num_options):
                     ham_i = ham_func(_t, _y, _lam, u_set[n, :], _p, _k)
-                    if ham_i < ham:
+                    if ham_i < ham or np.isnan(ham):
                         u = u_set[n, :]
                         ham = ham_i
 
-- 
2.43.0


From 32facd5937843fb3438050263b640d91b97bbf01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:08:15 +0000
Subject: [PATCH 33/34] fix: complex-step derivatives of compiled functions
 with powers of negative arguments

Compiled complex powers leave rounding errors of order 1e-16 in the imaginary
part at negative arguments; divided by a step of 1e-50 these swamped the
derivative (d/dx x**3 at -1.3 came out as 8e34).
---
 beluga/numeric/numerical_derivatives/complex_step.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/beluga/numeric/numerical_derivatives/complex_step.py b/beluga/numeric/numerical_derivatives/complex_step.py
index 0ea7555..4d599d5 100644
--- a/beluga/numeric/numerical_derivatives/complex_step.py
+++ b/beluga/numeric/numerical_derivatives/complex_step.py
@@ -49,7 +49,7 @@ def gen_csd(func, deriv_order=None, step_size=1e-6, complex_arg=False):
 
     if arg_len == 1:
         if deriv_order == 1:
-            step = 1e-50
+            step = 1e-8
 
             def csd(arg):
                 return func_im(arg + step*1j).imag/step
@@ -76,7 +76,7 @@ def gen_csd(func, deriv_order=None, step_size=1e-6, complex_arg=False):
 
         try:
             if deriv_order == 1:
-                step = 1e-50
+                step = 1e-8
 
                 def csd(*args):
                     args_k = np.array(args) + step*1j*arg_select
@@ -99,7 +99,7 @@ def gen_csd(func, deriv_order=None, step_size=1e-6, complex_arg=False):
             logging.debug('Cannot jit compile numerical derivative of {}: {}'.format(func.__name__, e))
 
             if deriv_order == 1:
-                step = 1e-50
+                step = 1e-8
 
                 def csd(*args):
                     args_k = np.array(args) + step * 1j * arg_select
-- 
2.43.0


From 5ffd53dd2d4cd41f97a774b73fac57123ea750b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:46:28 +0000
Subject: [PATCH 34/34] fix: fixed-step propagation over a whole number of
 steps

Rounding in arange put the last step beyond the end point, which solve_ivp refuses,
or a rounding error before it, which ruins the quadrature over the last interval.
---
 beluga/numeric/ivp_solvers/ivpsol.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/beluga/numeric/ivp_solvers/ivpsol.py b/beluga/numeric/ivp_solvers/ivpsol.py
index 571b9f4..83ba369 100644
--- a/beluga/numeric/ivp_solvers/ivpsol.py
+++ b/beluga/numeric/ivp_solvers/ivpsol.py
@@ -85,7 +85,10 @@ class Propagator(Algorithm):
                                     rtol=self.reltol, atol=self.abstol, max_step=self.maxstep, method=self.stepper)
             else:
                 T = np.arange(tspan[0], tspan[-1], self.maxstep)
-                if T[-1] != tspan[-1]:
+                # Rounding may put the last step just before the end point or beyond it
+                if len(T) > 1 and T[-1] > tspan[-1] - 1e-6 * self.maxstep:
+                    T[-1] = tspan[-1]
+                else:
                     T = np.hstack((T, tspan[-1]))
                 int_sol = solve_ivp(lambda t, _y: eom_func(_y, *args), [tspan[0], tspan[-1]], y0,
                                     rtol=self.reltol, atol=self.abstol, method=self.stepper, t_eval=T)
-- 
2.43.0

