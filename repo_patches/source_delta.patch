From bbbf062f72180d2fe292611c8a4eb3170607584c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:13:35 +0000
Subject: [PATCH 01/80] fix: discretization grid starts at the problem's
 initial time

---
 yaocptool/methods/base/solutionmethodsbase.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/yaocptool/methods/base/solutionmethodsbase.py b/yaocptool/methods/base/solutionmethodsbase.py
index a56f1db..d243d0b 100644
--- a/yaocptool/methods/base/solutionmethodsbase.py
+++ b/yaocptool/methods/base/solutionmethodsbase.py
@@ -107,7 +107,9 @@ class SolutionMethodsBase(SolutionMethodInterface):
 
     @cached_property
     def time_breakpoints(self) -> List[float]:
-        return [self.delta_t * k for k in range(self.finite_elements + 1)]
+        return [
+            self.problem.t_0 + self.delta_t * k for k in range(self.finite_elements + 1)
+        ]
 
     @property
     def time_interpolation_controls(self) -> List[List[float]]:
-- 
2.43.0


From 209d063cd29f4b8877d247638ee3650b9a546323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:13:35 +0000
Subject: [PATCH 02/80] fix: collocation with degree 1 uses the linear
 polynomial through both points

---
 yaocptool/methods/base/solutionmethodsbase.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yaocptool/methods/base/solutionmethodsbase.py b/yaocptool/methods/base/solutionmethodsbase.py
index d243d0b..d470ea8 100644
--- a/yaocptool/methods/base/solutionmethodsbase.py
+++ b/yaocptool/methods/base/solutionmethodsbase.py
@@ -166,7 +166,7 @@ class SolutionMethodsBase(SolutionMethodInterface):
         if tau is None:
             tau = self.model.tau  # Collocation point
 
-        if degree == 1:
+        if degree == 1 and not point_at_t0:
             if size > 0:
                 points = vertcat(*[SX.sym(name[s], 1, degree) for s in range(size)])
             else:
-- 
2.43.0


From eb3f3705977989432e88e97f02b1756705a6ac04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:13:35 +0000
Subject: [PATCH 03/80] fix: do not constrain the first control move when no
 last control is known

---
 yaocptool/methods/base/solutionmethodsbase.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/yaocptool/methods/base/solutionmethodsbase.py b/yaocptool/methods/base/solutionmethodsbase.py
index d470ea8..32b90d8 100644
--- a/yaocptool/methods/base/solutionmethodsbase.py
+++ b/yaocptool/methods/base/solutionmethodsbase.py
@@ -275,7 +275,10 @@ class SolutionMethodsBase(SolutionMethodInterface):
 
         # Discretize the problem
         opt_problem = self.discretizer.discretize(
-            p=p_mx, x_0=p_mx_x_0, theta=theta, last_u=p_last_u
+            p=p_mx,
+            x_0=p_mx_x_0,
+            theta=theta,
+            last_u=p_last_u if self.last_control_as_parameter else None,
         )
 
         if has_parameters:
-- 
2.43.0


From 18d1e850fa5c13506c3b000d92bcd711e030a7f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:13:35 +0000
Subject: [PATCH 04/80] fix: pass the given last control to the optimization
 problem

---
 yaocptool/methods/base/solutionmethodsbase.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/yaocptool/methods/base/solutionmethodsbase.py b/yaocptool/methods/base/solutionmethodsbase.py
index 32b90d8..def0306 100644
--- a/yaocptool/methods/base/solutionmethodsbase.py
+++ b/yaocptool/methods/base/solutionmethodsbase.py
@@ -388,6 +388,8 @@ class SolutionMethodsBase(SolutionMethodInterface):
                 )
 
             last_u = self.problem.last_u
+
+        if self.last_control_as_parameter:
             par_last_u = last_u
 
         par = vertcat(p, theta_vector, par_x_0, par_last_u)
-- 
2.43.0


From 82dadee29d8f8ec3e55aeb8e5e3e6550ec55f625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:29:55 +0000
Subject: [PATCH 05/80] fix: polynomial with a point at zero accepts an empty
 variable

---
 yaocptool/methods/base/solutionmethodsbase.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yaocptool/methods/base/solutionmethodsbase.py b/yaocptool/methods/base/solutionmethodsbase.py
index def0306..d97fa47 100644
--- a/yaocptool/methods/base/solutionmethodsbase.py
+++ b/yaocptool/methods/base/solutionmethodsbase.py
@@ -180,7 +180,7 @@ class SolutionMethodsBase(SolutionMethodInterface):
                         *[SX.sym(name[s], 1, degree + 1) for s in range(size)]
                     )
                 else:
-                    points = SX.sym("empty_sx", size, degree)
+                    points = SX.sym("empty_sx", size, degree + 1)
                 tau, ell_list = self._create_lagrangian_polynomial_basis(
                     degree, starting_index=0, tau=tau
                 )
-- 
2.43.0


From f3cd462eb94d6d0879ac27623e9b5956be0433d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:33:49 +0000
Subject: [PATCH 06/80] fix: "x <= c" constraints bound the expression from
 above

---
 yaocptool/optimization/abstract_optimization_problem.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/yaocptool/optimization/abstract_optimization_problem.py b/yaocptool/optimization/abstract_optimization_problem.py
index 712479c..6cbc3ff 100644
--- a/yaocptool/optimization/abstract_optimization_problem.py
+++ b/yaocptool/optimization/abstract_optimization_problem.py
@@ -1,6 +1,6 @@
 from typing import Any, Dict, List, Optional, TypedDict, Union
 
-from casadi import DM, MX, Function, depends_on, inf, is_equal, repmat, vertcat
+from casadi import DM, MX, Function, depends_on, inf, repmat, vertcat
 
 from yaocptool import is_equality, is_inequality
 
@@ -372,7 +372,7 @@ class AbstractOptimizationProblem(object):
                 # by default all inequalities are treated as 'less than' or 'less or equal', e.g.: x<=1 or 1<=x
                 # if the term on the rhs term is the non-symbolic term, then it is a 'x<=1' inequality,
                 # where the independent term is the upper bound
-                if is_equal(indep_term_dm, expr.dep(1)):
+                if not depends_on(expr.dep(1), vertcat(self.x, self.p)):
                     self.include_inequality(dep_term, ub=indep_term_dm)
                 # otherwise, it is a '1<=x' inequality, where the independent term is the lower bound
                 else:
-- 
2.43.0


From 6555e7a1130b6c4bcd8ae02cc6b1591960688464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:33:49 +0000
Subject: [PATCH 07/80] fix: recognize strict inequalities as inequality
 constraints

---
 yaocptool/util/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yaocptool/util/util.py b/yaocptool/util/util.py
index 45f1a5d..dce5e9e 100644
--- a/yaocptool/util/util.py
+++ b/yaocptool/util/util.py
@@ -240,7 +240,7 @@ def is_inequality(expr: Union[SX, MX]):
     :return: True if 'expr' is an inequality, False otherwise
     :rtype: bool
     """
-    return isinstance(expr, (MX, SX)) and (expr.op() == OP_LE or expr.op == OP_LT)
+    return isinstance(expr, (MX, SX)) and (expr.op() == OP_LE or expr.op() == OP_LT)
 
 
 def is_equality(expr: Union[SX, MX]):
-- 
2.43.0


From 378c498ccb78037509a49bd1ab1625ce0246643b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:33:49 +0000
Subject: [PATCH 08/80] fix: included variables accept integer bounds

---
 yaocptool/optimization/abstract_optimization_problem.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/yaocptool/optimization/abstract_optimization_problem.py b/yaocptool/optimization/abstract_optimization_problem.py
index 6cbc3ff..f24992e 100644
--- a/yaocptool/optimization/abstract_optimization_problem.py
+++ b/yaocptool/optimization/abstract_optimization_problem.py
@@ -132,9 +132,9 @@ class AbstractOptimizationProblem(object):
             upper bound, a vector of ub  with size of the given variable will be used as a upper bound.
             (default = [inf]*size)
         """
-        if isinstance(lb, float):
+        if isinstance(lb, (float, int)):
             lb = vertcat(lb)
-        if isinstance(ub, float):
+        if isinstance(ub, (float, int)):
             ub = vertcat(ub)
 
         if lb.numel() == 1 and variable.numel() > 1:
-- 
2.43.0


From 1c64c4b7cc67d1aa9688450a732326aee21caed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:34:23 +0000
Subject: [PATCH 09/80] fix: rebuild the solver when the optimization problem
 changes after a solve

---
 yaocptool/optimization/abstract_optimization_problem.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/yaocptool/optimization/abstract_optimization_problem.py b/yaocptool/optimization/abstract_optimization_problem.py
index f24992e..47fb20b 100644
--- a/yaocptool/optimization/abstract_optimization_problem.py
+++ b/yaocptool/optimization/abstract_optimization_problem.py
@@ -170,6 +170,7 @@ class AbstractOptimizationProblem(object):
         self.x = vertcat(self.x, variable)
         self.x_lb = vertcat(self.x_lb, lb)
         self.x_ub = vertcat(self.x_ub, ub)
+        self._solver = None  # the problem changed, any existing solver is outdated
 
     def create_parameter(self, name: str, size: int = 1) -> MX:
         """
@@ -191,6 +192,7 @@ class AbstractOptimizationProblem(object):
         :param MX|SX par: parameter to be included
         """
         self.p = vertcat(self.p, par)
+        self._solver = None  # the problem changed, any existing solver is outdated
 
     def set_objective(self, expr: Union[MX, List[MX], float, int]):
         """
@@ -209,6 +211,7 @@ class AbstractOptimizationProblem(object):
                 "Given objective has shape = {}".format(expr.shape)
             )
         self.f = expr
+        self._solver = None  # the problem changed, any existing solver is outdated
 
     def include_inequality(
         self,
@@ -286,6 +289,7 @@ class AbstractOptimizationProblem(object):
         self.g = vertcat(self.g, expr)
         self.g_lb = vertcat(self.g_lb, lb)
         self.g_ub = vertcat(self.g_ub, ub)
+        self._solver = None  # the problem changed, any existing solver is outdated
 
     def include_equality(self, expr: MX, rhs: Optional[Union[DM, float]] = None):
         """Include a equality with the following form
@@ -328,6 +332,7 @@ class AbstractOptimizationProblem(object):
         self.g = vertcat(self.g, expr)
         self.g_lb = vertcat(self.g_lb, rhs)
         self.g_ub = vertcat(self.g_ub, rhs)
+        self._solver = None  # the problem changed, any existing solver is outdated
 
     def include_constraint(self, expr: MX):
         """Includes an inequality or inequality to the optimization problem,
-- 
2.43.0


From a8aa797b308ef0fc524481bfa92798c780ca6c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:41:47 +0000
Subject: [PATCH 10/80] fix: included models keep the parametrization of their
 controls

---
 yaocptool/modelling/system_model.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/yaocptool/modelling/system_model.py b/yaocptool/modelling/system_model.py
index 8fe0dc8..f9f8168 100644
--- a/yaocptool/modelling/system_model.py
+++ b/yaocptool/modelling/system_model.py
@@ -378,7 +378,12 @@ class SystemModel(ContinuousStateMixin, AlgebraicMixin, ControlMixin, ParameterM
             # include variables
             self.include_state(model.x, x_0=model.x_0)
             self.include_algebraic(model.y)
-            self.include_control(model.u)
+            self.u = vertcat(self.u, model.u)
+            self.u_expr = vertcat(self.u_expr, model.u_expr)
+            self.u_par = vertcat(self.u_par, model.u_par)
+            self._parametrized_controls = (
+                self._parametrized_controls + model._parametrized_controls
+            )
             self.include_parameter(model.p)
             self.include_theta(model.theta)
 
-- 
2.43.0


From 091a38a0949200008e50176efaffaacc0794521c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:47:32 +0000
Subject: [PATCH 11/80] fix: removing a state also removes its initial
 condition symbol

---
 yaocptool/modelling/mixins/continuous_states_mixin.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/yaocptool/modelling/mixins/continuous_states_mixin.py b/yaocptool/modelling/mixins/continuous_states_mixin.py
index c746088..a203d11 100644
--- a/yaocptool/modelling/mixins/continuous_states_mixin.py
+++ b/yaocptool/modelling/mixins/continuous_states_mixin.py
@@ -7,7 +7,11 @@ from casadi import SX, substitute, vec, vertcat
 
 from yaocptool.modelling.mixins.base_mixin import BaseMixin
 from yaocptool.modelling.utils import Derivative, EqualityEquation
-from yaocptool.util.util import remove_variables_from_vector
+from yaocptool.util.util import (
+    find_variables_indices_in_vector,
+    remove_variables_from_vector,
+    remove_variables_from_vector_by_indices,
+)
 
 
 class ContinuousStateMixin(BaseMixin):
@@ -72,7 +76,9 @@ class ContinuousStateMixin(BaseMixin):
         return x_0
 
     def remove_state(self, var: SX):
+        indices = find_variables_indices_in_vector(var, self.x)
         self.x = remove_variables_from_vector(var, self.x)
+        self.x_0 = remove_variables_from_vector_by_indices(indices, self.x_0)
 
         for x_i in var.nz:
             del self._ode[x_i]
-- 
2.43.0


From 22f2c7345331e3021fe6cae39b449c18e87edf41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:48:36 +0000
Subject: [PATCH 12/80] fix: deep copies of a model are complete and share no
 variable with it

---
 yaocptool/modelling/system_model.py | 38 +++++++++++++++++++----------
 1 file changed, 25 insertions(+), 13 deletions(-)

diff --git a/yaocptool/modelling/system_model.py b/yaocptool/modelling/system_model.py
index f9f8168..a360152 100644
--- a/yaocptool/modelling/system_model.py
+++ b/yaocptool/modelling/system_model.py
@@ -490,9 +490,8 @@ class SystemModel(ContinuousStateMixin, AlgebraicMixin, ControlMixin, ParameterM
 
         :rtype: SystemModel
         """
-        model_copy = SystemModel(
-            name=self.name, model_name_as_prefix=self.model_name_as_prefix
-        )
+        # the names being copied already have the prefix
+        model_copy = SystemModel(name=self.name)
         x_copy = SX(0, 1)
         y_copy = SX(0, 1)
         u_copy = SX(0, 1)
@@ -531,22 +530,35 @@ class SystemModel(ContinuousStateMixin, AlgebraicMixin, ControlMixin, ParameterM
                 ]
             )
 
-        if self.n_u_par > 0:
+        # controls that are not parametrized are part of both u and u_par
+        for u_par_i in self.u_par.nz:
+            indices = find_variables_indices_in_vector(u_par_i, self.u)
             u_par_copy = vertcat(
-                *[SX.sym(self.u_par[i].name()) for i in range(self.n_u_par)]
+                u_par_copy, u_copy[indices] if indices else SX.sym(u_par_i.name())
             )
 
         model_copy.include_equations(ode=self.ode, alg=self.alg)
-        model_copy.u_par = self.u_par
+        model_copy.u_par = u_par_copy
         model_copy.u_expr = self.u_expr
+        model_copy._parametrized_controls = [
+            u_copy[find_variables_indices_in_vector(u_i, self.u)]
+            for u_i in self._parametrized_controls
+        ]
 
-        model_copy.replace_variable(self.x, x_copy)
-        model_copy.replace_variable(self.y, y_copy)
-        model_copy.replace_variable(self.u, u_copy)
-        model_copy.replace_variable(self.p, p_copy)
-        model_copy.replace_variable(self.theta, theta_copy)
-        model_copy.replace_variable(self.u_par, u_par_copy)
-
+        for original, replacement in (
+            (self.t, model_copy.t),
+            (self.tau, model_copy.tau),
+            (self.x, x_copy),
+            (self.y, y_copy),
+            (self.u, u_copy),
+            (self.p, p_copy),
+            (self.theta, theta_copy),
+            (self.u_par, u_par_copy),
+        ):
+            if original.numel() > 0:
+                model_copy.replace_variable(original, replacement)
+
+        model_copy.model_name_as_prefix = self.model_name_as_prefix
         model_copy.has_adjoint_variables = self.has_adjoint_variables
 
         return model_copy
-- 
2.43.0


From e31a487a4760bfdb6125021fce9052bb465ad9d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:26:22 +0000
Subject: [PATCH 13/80] fix: simulation results report their step and number of
 intervals

---
 yaocptool/modelling/simulation_result.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/yaocptool/modelling/simulation_result.py b/yaocptool/modelling/simulation_result.py
index 770feee..512bd48 100644
--- a/yaocptool/modelling/simulation_result.py
+++ b/yaocptool/modelling/simulation_result.py
@@ -22,10 +22,10 @@ class SimulationResult(DataSet):
         **kwargs
     ):
         self.model_name = model_name
-        self.delta_t = (delta_t,)
+        self.delta_t = delta_t
         self.t_0 = t_0
         self.t_f = t_f
-        self.finite_elements = 0
+        self.finite_elements = finite_elements
 
         DataSet.__init__(self, **kwargs)
         self.plot_style = "plot"
-- 
2.43.0


From d2adadf1198d03a1452873d671836642d5d413e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:26:26 +0000
Subject: [PATCH 14/80] fix: simulating a problem covers the requested horizon
 from the given start

---
 yaocptool/modelling/ocp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/yaocptool/modelling/ocp.py b/yaocptool/modelling/ocp.py
index c8eeb37..6ba1a34 100644
--- a/yaocptool/modelling/ocp.py
+++ b/yaocptool/modelling/ocp.py
@@ -1047,14 +1047,14 @@ class OptimalControlProblem(object):
 
         if finite_elements is not None and isinstance(t_f, (DM, float, int)):
             delta_t = (t_f - t_0) / finite_elements
-            t_f = [delta_t * t for t in range(1, finite_elements)]
+            t_f = [t_0 + delta_t * k for k in range(1, finite_elements + 1)]
 
         x_0 = x_0 if x_0 is not None else self.x_0
 
         return self.model.simulate(
             x_0=x_0,
             t_f=t_f,
-            t_0=self.t_0,
+            t_0=t_0,
             u=u if u is not None else self.u_guess,
             p=p,
             theta=theta,
-- 
2.43.0


From bfbbc03dd066cde7921b8780c6df689dd9b78aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:31:14 +0000
Subject: [PATCH 15/80] fix: the size of an entry is found from its first data

---
 yaocptool/modelling/dataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yaocptool/modelling/dataset.py b/yaocptool/modelling/dataset.py
index 1caab4f..a182274 100644
--- a/yaocptool/modelling/dataset.py
+++ b/yaocptool/modelling/dataset.py
@@ -151,7 +151,7 @@ class DataSet:
         self.data[entry].time = horzcat(self.data[entry].time, time)
 
         if self.data[entry].size is None:
-            self.data["entry"].size = value.size1()
+            self.data[entry].size = value.size1()
 
     def get_copy(self) -> "DataSet":
         """
-- 
2.43.0


From f6f6f72b2b3354f0e47c1b66e80852c72d0edb7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:31:19 +0000
Subject: [PATCH 16/80] fix: sorting a data set skips entries without data

---
 yaocptool/modelling/dataset.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/yaocptool/modelling/dataset.py b/yaocptool/modelling/dataset.py
index a182274..b56553b 100644
--- a/yaocptool/modelling/dataset.py
+++ b/yaocptool/modelling/dataset.py
@@ -207,6 +207,9 @@ class DataSet:
 
         for entry in entries:
             entry_length = self.data[entry].time.shape[1]
+            if not entry_length:
+                continue
+
             time = [self.data[entry].time[i] for i in range(entry_length)]
             values = [
                 self.data[entry].values[:, i]
-- 
2.43.0


From b30523146f6b42e70f593e8ffca745fafa09d7a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:31:26 +0000
Subject: [PATCH 17/80] fix: extending a data set accepts entries it does not
 have

---
 yaocptool/modelling/dataset.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/yaocptool/modelling/dataset.py b/yaocptool/modelling/dataset.py
index b56553b..e45e689 100644
--- a/yaocptool/modelling/dataset.py
+++ b/yaocptool/modelling/dataset.py
@@ -174,6 +174,12 @@ class DataSet:
         """
 
         for entry in other_dataset.data:
+            if entry not in self.data:
+                self.create_entry(
+                    entry,
+                    size=other_dataset.get_entry_size(entry),
+                    names=other_dataset.get_entry_names(entry),
+                )
             if self.get_entry_size(entry) != other_dataset.get_entry_size(entry):
                 raise ValueError(
                     "The size of the same entry is different in the two datasets, "
@@ -181,12 +187,6 @@ class DataSet:
                         self.get_entry_size(entry), other_dataset.get_entry_size(entry)
                     )
                 )
-            if entry not in self.data:
-                self.create_entry(
-                    entry,
-                    size=other_dataset.get_entry_size(entry),
-                    names=other_dataset.get_entry_names(entry),
-                )
             self.insert_data(
                 entry,
                 time=other_dataset.data[entry].time,
-- 
2.43.0


From 3aff9ab62439f67656d52acbd1a16dea1404ca2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:37:19 +0000
Subject: [PATCH 18/80] fix: bounds of included states may be given as lists

---
 yaocptool/modelling/ocp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/yaocptool/modelling/ocp.py b/yaocptool/modelling/ocp.py
index 6ba1a34..9405aa7 100644
--- a/yaocptool/modelling/ocp.py
+++ b/yaocptool/modelling/ocp.py
@@ -309,9 +309,9 @@ class OptimalControlProblem(object):
         if isinstance(x_0, list):
             x_0 = vertcat(*x_0)
         if isinstance(x_min, list):
-            x_min = DM(*x_min)
+            x_min = vertcat(*x_min)
         if isinstance(x_max, list):
-            x_max = DM(*x_max)
+            x_max = vertcat(*x_max)
 
         if var.numel() != x_max.numel():
             raise ValueError(
-- 
2.43.0


From 27fe8687feb486211b9cf23e62db3d2f9afb00f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:37:23 +0000
Subject: [PATCH 19/80] fix: keep the guess given with the first algebraic
 variables

---
 yaocptool/modelling/ocp.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/yaocptool/modelling/ocp.py b/yaocptool/modelling/ocp.py
index 9405aa7..fe425ff 100644
--- a/yaocptool/modelling/ocp.py
+++ b/yaocptool/modelling/ocp.py
@@ -375,7 +375,9 @@ class OptimalControlProblem(object):
                 )
             )
 
-        if self.y_guess is not None:
+        if y_guess is not None and self.model.n_y == 0:
+            self.y_guess = vertcat(y_guess)
+        elif self.y_guess is not None:
             if y_guess is None:
                 self.y_guess = vertcat(self.y_guess, DM.zeros(var.numel()))
             else:
-- 
2.43.0


From eb61d2857b2518d25310bab6f3405585f65ad354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:37:29 +0000
Subject: [PATCH 20/80] fix: the last control loses the values of removed and
 connected controls

---
 yaocptool/modelling/ocp.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/yaocptool/modelling/ocp.py b/yaocptool/modelling/ocp.py
index fe425ff..93fa5f5 100644
--- a/yaocptool/modelling/ocp.py
+++ b/yaocptool/modelling/ocp.py
@@ -615,6 +615,10 @@ class OptimalControlProblem(object):
             self.u_guess = remove_variables_from_vector_by_indices(
                 to_remove, self.u_guess
             )
+        if self.last_u is not None:
+            self.last_u = remove_variables_from_vector_by_indices(
+                to_remove, self.last_u
+            )
 
         self.model.remove_control(var)
 
@@ -1018,6 +1022,8 @@ class OptimalControlProblem(object):
 
         if self.u_guess is not None:
             self.u_guess = remove_variables_from_vector_by_indices(ind_u, self.u_guess)
+        if self.last_u is not None:
+            self.last_u = remove_variables_from_vector_by_indices(ind_u, self.last_u)
 
         self.delta_u_max = remove_variables_from_vector_by_indices(
             ind_u, self.delta_u_max
-- 
2.43.0


From 0b6bb4ae8402d80a8f3025968a602dc5f566d4e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:37:34 +0000
Subject: [PATCH 21/80] fix: connecting by replacement also replaces the input
 in the problem

---
 yaocptool/modelling/ocp.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/yaocptool/modelling/ocp.py b/yaocptool/modelling/ocp.py
index 93fa5f5..0fbe0b4 100644
--- a/yaocptool/modelling/ocp.py
+++ b/yaocptool/modelling/ocp.py
@@ -1008,6 +1008,8 @@ class OptimalControlProblem(object):
 
         ind_u = find_variables_indices_in_vector(u, self.model.u)
 
+        if replace:
+            self.replace_variable(u, y)
         self.model.connect(u, y, replace=replace)
 
         if not replace:
-- 
2.43.0


From 6c087baa7690d1fbf969899969ffeb3fab6945ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:37:40 +0000
Subject: [PATCH 22/80] fix: connecting keeps the algebraic guess complete

---
 yaocptool/modelling/ocp.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/yaocptool/modelling/ocp.py b/yaocptool/modelling/ocp.py
index 0fbe0b4..798b21c 100644
--- a/yaocptool/modelling/ocp.py
+++ b/yaocptool/modelling/ocp.py
@@ -1013,8 +1013,13 @@ class OptimalControlProblem(object):
         self.model.connect(u, y, replace=replace)
 
         if not replace:
-            if self.u_guess is not None and self.y_guess is not None:
-                self.y_guess = vertcat(self.y_guess, self.u_guess[ind_u])
+            if self.y_guess is not None:
+                self.y_guess = vertcat(
+                    self.y_guess,
+                    self.u_guess[ind_u]
+                    if self.u_guess is not None
+                    else DM.zeros(len(ind_u)),
+                )
 
             self.y_max = vertcat(self.y_max, self.u_max[ind_u])
             self.y_min = vertcat(self.y_min, self.u_min[ind_u])
-- 
2.43.0


From 2f0a49c03f18cfc36ad7c6f0d0993fc52f98c902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:37:47 +0000
Subject: [PATCH 23/80] fix: merging keeps guesses when the other problem has
 no such variables

---
 yaocptool/modelling/ocp.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/yaocptool/modelling/ocp.py b/yaocptool/modelling/ocp.py
index 798b21c..3295192 100644
--- a/yaocptool/modelling/ocp.py
+++ b/yaocptool/modelling/ocp.py
@@ -873,7 +873,7 @@ class OptimalControlProblem(object):
                 self.last_u = problem.last_u
             elif self.last_u is not None and problem.last_u is not None:
                 self.last_u = vertcat(self.last_u, problem.last_u)
-            else:
+            elif problem.model.n_u > 0:
                 self.last_u = None
 
             if (
@@ -884,7 +884,7 @@ class OptimalControlProblem(object):
                 self.y_guess = problem.y_guess
             elif self.y_guess is not None and problem.y_guess is not None:
                 self.y_guess = vertcat(self.y_guess, problem.y_guess)
-            else:
+            elif problem.model.n_y > 0:
                 self.y_guess = None
 
             if (
@@ -895,7 +895,7 @@ class OptimalControlProblem(object):
                 self.u_guess = problem.u_guess
             elif self.u_guess is not None and problem.u_guess is not None:
                 self.u_guess = vertcat(self.u_guess, problem.u_guess)
-            else:
+            elif problem.model.n_u > 0:
                 self.u_guess = None
 
             self.positive_objective = (
-- 
2.43.0


From f5dfce948c59bf6c08e7ba6eb4714ad239f7db00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:37:52 +0000
Subject: [PATCH 24/80] fix: merged problems share one time variable

---
 yaocptool/modelling/ocp.py | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/yaocptool/modelling/ocp.py b/yaocptool/modelling/ocp.py
index 3295192..f93b01f 100644
--- a/yaocptool/modelling/ocp.py
+++ b/yaocptool/modelling/ocp.py
@@ -852,18 +852,25 @@ class OptimalControlProblem(object):
             self.p_opt_min = vertcat(self.p_opt_min, problem.p_opt_min)
             self.theta_opt_min = vertcat(self.theta_opt_min, problem.theta_opt_min)
 
-            self.h = vertcat(self.h, problem.h)
-            self.h_initial = vertcat(self.h_initial, problem.h_initial)
-            self.h_final = vertcat(self.h_final, problem.h_final)
+            other_time = vertcat(problem.model.t, problem.model.tau)
 
-            self.g_eq = vertcat(self.g_eq, problem.g_eq)
-            self.g_ineq = vertcat(self.g_ineq, problem.g_ineq)
+            def in_own_time(expr):
+                return substitute(
+                    vertcat(expr), other_time, vertcat(self.model.t, self.model.tau)
+                )
+
+            self.h = vertcat(self.h, in_own_time(problem.h))
+            self.h_initial = vertcat(self.h_initial, in_own_time(problem.h_initial))
+            self.h_final = vertcat(self.h_final, in_own_time(problem.h_final))
+
+            self.g_eq = vertcat(self.g_eq, in_own_time(problem.g_eq))
+            self.g_ineq = vertcat(self.g_ineq, in_own_time(problem.g_ineq))
             self.time_g_eq = self.time_g_eq + problem.time_g_eq
             self.time_g_ineq = self.time_g_ineq + problem.time_g_ineq
 
-            self.L = self.L + problem.L
-            self.V = self.V + problem.V
-            self.S = self.S + problem.S
+            self.L = self.L + in_own_time(problem.L)
+            self.V = self.V + in_own_time(problem.V)
+            self.S = self.S + in_own_time(problem.S)
 
             if (
                 self.last_u is None
-- 
2.43.0


From 2da01ab3bcfb1a90018c383ecd8c10e9ee917052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:37:57 +0000
Subject: [PATCH 25/80] fix: creating a quadratic cost leaves the given
 dictionary unchanged

---
 yaocptool/modelling/ocp.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/yaocptool/modelling/ocp.py b/yaocptool/modelling/ocp.py
index f93b01f..8926df8 100644
--- a/yaocptool/modelling/ocp.py
+++ b/yaocptool/modelling/ocp.py
@@ -787,6 +787,7 @@ class OptimalControlProblem(object):
     def create_quadratic_cost(self, par_dict: Dict[str, DM]):
         self.L = SX(0)
         self.V = SX(0)
+        par_dict = dict(par_dict)
         if "x_ref" not in par_dict:
             par_dict["x_ref"] = DM.zeros(self.model.n_x)
         if "u_ref" not in par_dict:
-- 
2.43.0


From 9c3075852911e19794e30621cb6dae40cadf124f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:46:28 +0000
Subject: [PATCH 26/80] fix: relaxing path equalities looks at the equalities
 of the problem

---
 yaocptool/methods/augmented_lagrangian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yaocptool/methods/augmented_lagrangian.py b/yaocptool/methods/augmented_lagrangian.py
index 6694473..2ee7146 100644
--- a/yaocptool/methods/augmented_lagrangian.py
+++ b/yaocptool/methods/augmented_lagrangian.py
@@ -214,7 +214,7 @@ class AugmentedLagrangian(SolutionMethodInterface, metaclass=OptionsOverride):
         if self.model.alg[self.relax_algebraic_index].numel() > 0:
             self._relax_algebraic_equations()
 
-        if self.model.alg[self.relax_time_equality_index].numel() > 0:
+        if self.relax_time_equality_index:
             self._relax_time_equalities()
 
         if self.relax_state_bounds:
-- 
2.43.0


From f422fa1dbfd1ea267010c1d6c0a512826e58bfe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:46:33 +0000
Subject: [PATCH 27/80] fix: multipliers are updated with the violation of
 their own equation

---
 yaocptool/methods/augmented_lagrangian.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/yaocptool/methods/augmented_lagrangian.py b/yaocptool/methods/augmented_lagrangian.py
index 2ee7146..7f4b6f9 100644
--- a/yaocptool/methods/augmented_lagrangian.py
+++ b/yaocptool/methods/augmented_lagrangian.py
@@ -214,12 +214,13 @@ class AugmentedLagrangian(SolutionMethodInterface, metaclass=OptionsOverride):
         if self.model.alg[self.relax_algebraic_index].numel() > 0:
             self._relax_algebraic_equations()
 
-        if self.relax_time_equality_index:
-            self._relax_time_equalities()
-
+        # same order as in the violation vector: algebraic (and bounds), then equalities
         if self.relax_state_bounds:
             self._relax_states_constraints()
 
+        if self.relax_time_equality_index:
+            self._relax_time_equalities()
+
         if not self.options.debug_skip_initialize:
             if not self.options.debug_skip_parametrize:
                 self._parametrize_nu()
-- 
2.43.0


From efad5bd6f1f36b7baead3c3e970394701cc9827d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:46:38 +0000
Subject: [PATCH 28/80] fix: multipliers follow the discretization given to the
 inner solver

---
 yaocptool/methods/augmented_lagrangian.py | 47 +++++++++++------------
 1 file changed, 23 insertions(+), 24 deletions(-)

diff --git a/yaocptool/methods/augmented_lagrangian.py b/yaocptool/methods/augmented_lagrangian.py
index 7f4b6f9..5d6f169 100644
--- a/yaocptool/methods/augmented_lagrangian.py
+++ b/yaocptool/methods/augmented_lagrangian.py
@@ -147,8 +147,7 @@ class AugmentedLagrangian(SolutionMethodInterface, metaclass=OptionsOverride):
             via an algebraic variable
         :param kwargs:
         """
-        if solver_options is None:
-            solver_options = {}
+        solver_options = dict(solver_options) if solver_options is not None else {}
         if options is None:
             options = {}
 
@@ -209,6 +208,28 @@ class AugmentedLagrangian(SolutionMethodInterface, metaclass=OptionsOverride):
 
         self.mu = DM()
 
+        #  make sure that the ocp_solver and the augmented_lagrangian has the same options
+        for attr in ["degree", "finite_elements"]:
+            if (
+                attr in solver_options
+                and attr in kwargs
+                and solver_options[attr] != kwargs[attr]
+            ):
+                exc_mess = "Trying to pass attribute '{}' for '{}' and '{}' that are not equal: {} != {}"
+                raise ValueError(
+                    exc_mess.format(
+                        attr,
+                        self.__class__.__name__,
+                        ocp_solver_class.__name__,
+                        kwargs[attr],
+                        solver_options[attr],
+                    )
+                )
+            elif attr in solver_options:
+                setattr(self.options, attr, solver_options[attr])
+            else:
+                solver_options[attr] = getattr(self.options, attr)
+
         # RELAXATION
 
         if self.model.alg[self.relax_algebraic_index].numel() > 0:
@@ -237,28 +258,6 @@ class AugmentedLagrangian(SolutionMethodInterface, metaclass=OptionsOverride):
                 finite_elements=self.options.finite_elements,
             )
 
-        #  make sure that the ocp_solver and the augmented_lagrangian has the same options
-        for attr in ["degree", "finite_elements"]:
-            if (
-                attr in solver_options
-                and attr in kwargs
-                and solver_options[attr] != kwargs[attr]
-            ):
-                exc_mess = "Trying to pass attribute '{}' for '{}' and '{}' that are not equal: {} != {}"
-                raise ValueError(
-                    exc_mess.format(
-                        attr,
-                        self.__class__.__name__,
-                        ocp_solver_class.__name__,
-                        kwargs[attr],
-                        solver_options[attr],
-                    )
-                )
-            elif attr in solver_options:
-                setattr(self.options, attr, solver_options[attr])
-            else:
-                solver_options[attr] = getattr(self.options, attr)
-
         #  solver_options["integrator_type"] = self.integrator_type
 
         # Initialize OCP solver
-- 
2.43.0


From 7967c9fe2ca8c7179011b3db9eea102d985e6881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:46:44 +0000
Subject: [PATCH 29/80] fix: relaxed variables keep their own guess

---
 yaocptool/methods/augmented_lagrangian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yaocptool/methods/augmented_lagrangian.py b/yaocptool/methods/augmented_lagrangian.py
index 5d6f169..f34a39d 100644
--- a/yaocptool/methods/augmented_lagrangian.py
+++ b/yaocptool/methods/augmented_lagrangian.py
@@ -312,7 +312,7 @@ class AugmentedLagrangian(SolutionMethodInterface, metaclass=OptionsOverride):
 
         # include the relaxed y_sym as controls
         u_guess = (
-            self.problem.y_guess[self.relax_algebraic_index]
+            self.problem.y_guess[self.relax_algebraic_var_index]
             if self.problem.y_guess is not None
             else None
         )
-- 
2.43.0


From 9ca045c1ae913beed8a573c6281980789871eeb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:46:48 +0000
Subject: [PATCH 30/80] fix: updating the penalty leaves the given value
 unchanged

---
 yaocptool/methods/augmented_lagrangian.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/yaocptool/methods/augmented_lagrangian.py b/yaocptool/methods/augmented_lagrangian.py
index f34a39d..d441271 100644
--- a/yaocptool/methods/augmented_lagrangian.py
+++ b/yaocptool/methods/augmented_lagrangian.py
@@ -8,6 +8,7 @@ Created on Sat Oct 22 16:53:36 2016
 import logging
 import time
 from collections import defaultdict
+from copy import copy
 from dataclasses import dataclass
 from typing import Any, Dict, List, Literal, Optional, Type, TypedDict, Union
 
@@ -657,6 +658,7 @@ class AugmentedLagrangian(SolutionMethodInterface, metaclass=OptionsOverride):
             raise ValueError(f"Unkwon `mu_update_rule`: {self.options.mu_update_rule}")
 
     def _update_mu_primal(self, error: DM, last_error: Optional[DM]):
+        self.mu = copy(self.mu)
         for ind, (mu, err, last_err) in enumerate(
             zip(self.mu.nz, error.nz, last_error.nz)
         ):
-- 
2.43.0


From 020974542777a514627600b2fc6287b33ea839b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:48:34 +0000
Subject: [PATCH 31/80] fix: updating only improved multipliers updates them at
 every point

---
 yaocptool/methods/augmented_lagrangian.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/yaocptool/methods/augmented_lagrangian.py b/yaocptool/methods/augmented_lagrangian.py
index d441271..5a1aa87 100644
--- a/yaocptool/methods/augmented_lagrangian.py
+++ b/yaocptool/methods/augmented_lagrangian.py
@@ -779,13 +779,15 @@ class AugmentedLagrangian(SolutionMethodInterface, metaclass=OptionsOverride):
                     and any((errors > 0).nz)
                     and self.last_violation_error is not None
                 ):
+                    self.nu_tilde = {el: copy(nu) for el, nu in self.nu_tilde.items()}
                     for ind, (error, last_error) in enumerate(
                         zip(errors.nz, self.last_violation_error.nz)
                     ):
                         if (error - last_error) < 0:
                             self.last_violation_error[ind] = error
+                            rows = list(range(ind, nu_tilde[0].numel(), self.n_relax))
                             for el in self.nu_tilde:
-                                self.nu_tilde[el][ind] = nu_tilde[el][ind]
+                                self.nu_tilde[el][rows] = nu_tilde[el][rows]
                         else:
                             LOGGER.info("Error is greater than zero")
                 else:
-- 
2.43.0


From d9e95ad9fa2f0f538646148709fd44d98ac1c227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:48:39 +0000
Subject: [PATCH 32/80] fix: relaxing state bounds works on problems with a
 control guess

---
 yaocptool/methods/augmented_lagrangian.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/yaocptool/methods/augmented_lagrangian.py b/yaocptool/methods/augmented_lagrangian.py
index 5a1aa87..62d234b 100644
--- a/yaocptool/methods/augmented_lagrangian.py
+++ b/yaocptool/methods/augmented_lagrangian.py
@@ -362,7 +362,14 @@ class AugmentedLagrangian(SolutionMethodInterface, metaclass=OptionsOverride):
 
                 self.relaxed_alg = vertcat(self.relaxed_alg, new_alg)
                 self.problem.include_control(
-                    y_x, u_min=self.problem.x_min[i], u_max=self.problem.x_max[i]
+                    y_x,
+                    u_min=self.problem.x_min[i],
+                    u_max=self.problem.x_max[i],
+                    u_guess=(
+                        self.problem.x_0[i]
+                        if self.problem.u_guess is not None
+                        else None
+                    ),
                 )
                 self.problem.x_max[i] = inf
                 self.problem.x_min[i] = -inf
-- 
2.43.0


From f90c5e53b6eb1f4363c1306e038ea33ae86845a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:49:20 +0000
Subject: [PATCH 33/80] fix: relaxing algebraic equations works on problems
 with only a control guess

---
 yaocptool/methods/augmented_lagrangian.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/yaocptool/methods/augmented_lagrangian.py b/yaocptool/methods/augmented_lagrangian.py
index 62d234b..1625a5e 100644
--- a/yaocptool/methods/augmented_lagrangian.py
+++ b/yaocptool/methods/augmented_lagrangian.py
@@ -312,11 +312,11 @@ class AugmentedLagrangian(SolutionMethodInterface, metaclass=OptionsOverride):
         self._include_relax_in_objective(alg_relax)
 
         # include the relaxed y_sym as controls
-        u_guess = (
-            self.problem.y_guess[self.relax_algebraic_var_index]
-            if self.problem.y_guess is not None
-            else None
-        )
+        u_guess = None
+        if self.problem.y_guess is not None:
+            u_guess = self.problem.y_guess[self.relax_algebraic_var_index]
+        elif self.problem.u_guess is not None:
+            u_guess = DM.zeros(len(self.relax_algebraic_var_index))
 
         self.problem.include_control(
             self.model.y[self.relax_algebraic_var_index],
-- 
2.43.0


From 5ae2287796a6698480d749582fb66856c12d6cdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:12:08 +0000
Subject: [PATCH 34/80] fix: intermediary nodes share the start time of the
 network

---
 yaocptool/modelling/network/network.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/yaocptool/modelling/network/network.py b/yaocptool/modelling/network/network.py
index a3e440c..5b05bd9 100644
--- a/yaocptool/modelling/network/network.py
+++ b/yaocptool/modelling/network/network.py
@@ -298,6 +298,7 @@ class Network:
         new_problem = OptimalControlProblem(
             name="OCP_Dummy_{}_to_{}".format(node1.name, node2.name),
             model=new_model,
+            t_0=node1.problem.t_0,
             t_f=node1.problem.t_f,
         )
 
-- 
2.43.0


From 787e0f8dba0825e2ea821a387fdf42c4d7be9175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:12:15 +0000
Subject: [PATCH 35/80] fix: inserting intermediary nodes keeps unconnected
 nodes

---
 yaocptool/modelling/network/network.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/yaocptool/modelling/network/network.py b/yaocptool/modelling/network/network.py
index 5b05bd9..e3c2815 100644
--- a/yaocptool/modelling/network/network.py
+++ b/yaocptool/modelling/network/network.py
@@ -274,7 +274,9 @@ class Network:
             )
             for (node1, node2) in self.graph.edges
         }
+        old_nodes = list(self.graph.nodes)
         self.graph = networkx.DiGraph()
+        self.graph.add_nodes_from(old_nodes)
 
         for (node1, node2), (y, u) in old_connections.items():
             self.insert_intermediary_node(y, u, node1, node2)
-- 
2.43.0


From f9706800e3141289a2b36da0aa2074aad8456e55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:12:20 +0000
Subject: [PATCH 36/80] fix: assigned node ids are unique

---
 yaocptool/modelling/network/network.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/yaocptool/modelling/network/network.py b/yaocptool/modelling/network/network.py
index e3c2815..4a7e49b 100644
--- a/yaocptool/modelling/network/network.py
+++ b/yaocptool/modelling/network/network.py
@@ -126,13 +126,13 @@ class Network:
         if not isinstance(nodes, list):
             nodes = [nodes]
 
+        self.graph.add_nodes_from(nodes)
+
         # if node does not have an id
         for node in nodes:
             if node.node_id is None:
                 self._set_node_an_id(node)
 
-        self.graph.add_nodes_from(nodes)
-
     def remove_connection(self, node1, node2):
 
         """
@@ -231,6 +231,10 @@ class Network:
         :return: node id
         :rtype: int
         """
+        used_ids = {other.node_id for other in self.graph}
+        while self._nodes_id_counter in used_ids:
+            self._nodes_id_counter += 1
+
         node.node_id = self._nodes_id_counter
         self._nodes_id_counter += 1
 
-- 
2.43.0


From 0274882dfaa887b7fa5058556cd10a9fad965a66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:20:00 +0000
Subject: [PATCH 37/80] fix: do not write the optimal parameters into the
 caller's p and theta

---
 yaocptool/methods/base/solutionmethodsbase.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/yaocptool/methods/base/solutionmethodsbase.py b/yaocptool/methods/base/solutionmethodsbase.py
index d97fa47..e5a2978 100644
--- a/yaocptool/methods/base/solutionmethodsbase.py
+++ b/yaocptool/methods/base/solutionmethodsbase.py
@@ -1,6 +1,7 @@
 from __future__ import annotations
 
 import warnings
+from copy import deepcopy
 from functools import cached_property
 from typing import TYPE_CHECKING, Any, Dict, List, Literal, Optional, Tuple, Union
 
@@ -488,8 +489,8 @@ class SolutionMethodsBase(SolutionMethodInterface):
 
         # Initial condition, theta, and parameters used
         optimization_result.x_0 = x_0
-        optimization_result.theta = theta
-        optimization_result.p = p
+        optimization_result.theta = deepcopy(theta)
+        optimization_result.p = deepcopy(p)
 
         # From the problem
         for attr in ["t_0", "t_f"]:
-- 
2.43.0


From 69c7d2cad911111b8ec416ceab6f30a1af9a820d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:20:06 +0000
Subject: [PATCH 38/80] fix: do not share solver options between solution
 methods

---
 yaocptool/methods/base/solutionmethodsbase.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yaocptool/methods/base/solutionmethodsbase.py b/yaocptool/methods/base/solutionmethodsbase.py
index e5a2978..fac0706 100644
--- a/yaocptool/methods/base/solutionmethodsbase.py
+++ b/yaocptool/methods/base/solutionmethodsbase.py
@@ -68,7 +68,7 @@ class SolutionMethodsBase(SolutionMethodInterface):
         self.integrator_type = integrator_type
         self.discretization_scheme = discretization_scheme
         self.initial_condition_as_parameter = initial_condition_as_parameter
-        self.nlpsol_opts: Dict[str, Any] = nlpsol_opts
+        self.nlpsol_opts: Dict[str, Any] = dict(nlpsol_opts)
         self.initial_guess_heuristic = initial_guess_heuristic
         self.last_control_as_parameter = last_control_as_parameter
         self.initial_guess_model = None
-- 
2.43.0


From 25e25b5f796d3187469a7805b1fb569695f671b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:20:13 +0000
Subject: [PATCH 39/80] fix: solve with initial_condition_as_parameter=False

---
 yaocptool/methods/base/solutionmethodsbase.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/yaocptool/methods/base/solutionmethodsbase.py b/yaocptool/methods/base/solutionmethodsbase.py
index fac0706..946df39 100644
--- a/yaocptool/methods/base/solutionmethodsbase.py
+++ b/yaocptool/methods/base/solutionmethodsbase.py
@@ -253,7 +253,7 @@ class SolutionMethodsBase(SolutionMethodInterface):
         has_parameters = (
             self.model.n_p + self.model.n_theta > 0
             or self.initial_condition_as_parameter
-            or self.problem.last_u is not None
+            or self.last_control_as_parameter
         )
 
         # parameters MX
@@ -264,7 +264,10 @@ class SolutionMethodsBase(SolutionMethodInterface):
         theta = {i: vec(theta_mx[:, i]) for i in range(self.finite_elements)}
 
         # initial cond MX
-        p_mx_x_0 = MX.sym("mx_x_0_p", self.model.n_x)
+        if self.initial_condition_as_parameter:
+            p_mx_x_0 = MX.sym("mx_x_0_p", self.model.n_x)
+        else:
+            p_mx_x_0 = MX()
 
         # last control MX
         if self.last_control_as_parameter:
@@ -277,7 +280,7 @@ class SolutionMethodsBase(SolutionMethodInterface):
         # Discretize the problem
         opt_problem = self.discretizer.discretize(
             p=p_mx,
-            x_0=p_mx_x_0,
+            x_0=p_mx_x_0 if self.initial_condition_as_parameter else None,
             theta=theta,
             last_u=p_last_u if self.last_control_as_parameter else None,
         )
-- 
2.43.0


From 13d54c0bf6d06124fbd10ce0f198bbdf6adde1d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:37:41 +0000
Subject: [PATCH 40/80] fix: the first measurement of a simulated plant is its
 output

---
 yaocptool/mpc/plant.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yaocptool/mpc/plant.py b/yaocptool/mpc/plant.py
index 3af29ba..4f6874c 100644
--- a/yaocptool/mpc/plant.py
+++ b/yaocptool/mpc/plant.py
@@ -62,7 +62,6 @@ class PlantSimulation(PlantInterface):
         self.t_s = float(t_s)
 
         self.x = x_0
-        self.measurement = x_0
         self.u = u_0 if u_0 is not None else DM.zeros(self.model.n_u)
         self.t = self.t_0 = float(t_0)
 
@@ -101,6 +100,7 @@ class PlantSimulation(PlantInterface):
         self._initialize_dataset()
 
         meas_data = self._measure(self.x, self.y_guess)
+        self.measurement = meas_data["measurement"]
 
         self._save_data(self.x, self.y_guess, self.u, **meas_data)
         if self.has_noise and self.noise_seed is not None:
-- 
2.43.0


From 0016b3eee0faf8d65f7c276c2e0881ec44bc3075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:37:47 +0000
Subject: [PATCH 41/80] fix: set_control replaces a control function set before

---
 yaocptool/mpc/plant.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/yaocptool/mpc/plant.py b/yaocptool/mpc/plant.py
index 4f6874c..09180af 100644
--- a/yaocptool/mpc/plant.py
+++ b/yaocptool/mpc/plant.py
@@ -146,6 +146,7 @@ class PlantSimulation(PlantInterface):
                 )
             )
         self.u = u
+        self.u_function = None
 
         # go to next time
         self._advance()
-- 
2.43.0


From ff4a0519fca567680a78e0f560f7b33daae620c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:37:54 +0000
Subject: [PATCH 42/80] fix: MPC does not stop in a debugger

---
 yaocptool/mpc/mpc.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/yaocptool/mpc/mpc.py b/yaocptool/mpc/mpc.py
index 9f2d65f..6fa7539 100644
--- a/yaocptool/mpc/mpc.py
+++ b/yaocptool/mpc/mpc.py
@@ -131,7 +131,6 @@ class MPC:
         #      if len(initial_guess_dict) == 1:
         #          initial_guess_dict = initial_guess_dict[0]
 
-        __import__("ipdb").set_trace()
         solutions = self.solution_method.solve(
             x_0=x_k, initial_guess=self.initial_guess, p=p, last_u=u_k
         )
-- 
2.43.0


From dc6fd23d48f8e6ef10f2a2948771900d7cc0a630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:38:01 +0000
Subject: [PATCH 43/80] fix: MPC applies the control it computed or was given

---
 yaocptool/mpc/mpc.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/yaocptool/mpc/mpc.py b/yaocptool/mpc/mpc.py
index 6fa7539..3239254 100644
--- a/yaocptool/mpc/mpc.py
+++ b/yaocptool/mpc/mpc.py
@@ -148,7 +148,10 @@ class MPC:
 
     def _make_control_function(self, control_parameters):
         u_pol, u_par = create_polynomial_approximation(
-            self.plant.model.tau, self.plant.model.n_u, self.solution_method.degree, "u"
+            self.plant.model.tau,
+            self.plant.model.n_u,
+            self.solution_method.degree_control,
+            "u",
         )
 
         u_pol = substitute(u_pol, u_par, control_parameters)
@@ -172,8 +175,10 @@ class MPC:
 
         :param u: DM
         """
-        #  self.plant.set_control(u)
+        self.plant.set_control(u)  # this advances the simulation
 
+    def send_control_function(self):
+        """Sent the polynomial control of the first finite element of the last solution to the plant."""
         self.plant.set_control_function(
             self._make_control_function(
                 self._get_solution_parameters(
@@ -235,8 +240,11 @@ class MPC:
                     )
                 )
 
-            # FIXME: Trying with function
-            self.send_control(new_u)  # this advances the simulation
+            # this advances the simulation
+            if getattr(self.solution_method, "degree_control", 1) > 1:
+                self.send_control_function()
+            else:
+                self.send_control(new_u)
 
             if k >= iterations - 1:
                 print("End of MPC.un".center(30, "="))
-- 
2.43.0


From 3163b65f95c4f109feb11aec75e60c3aa8b7d28b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:38:07 +0000
Subject: [PATCH 44/80] fix: MPC works with multiple shooting

---
 yaocptool/mpc/mpc.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/yaocptool/mpc/mpc.py b/yaocptool/mpc/mpc.py
index 3239254..733157d 100644
--- a/yaocptool/mpc/mpc.py
+++ b/yaocptool/mpc/mpc.py
@@ -303,7 +303,9 @@ class MPC:
             self.send_control(u)  # this advances the simulation
 
     def step(self, decision_variables):
-        collocation_scheme: CollocationScheme = self.solution_method.discretizer  # type: ignore
+        collocation_scheme = getattr(self.solution_method, "discretizer", None)
+        if not isinstance(collocation_scheme, CollocationScheme):
+            return decision_variables
 
         perturbation_percentage = 0.0
         decision_variables *= 1 + perturbation_percentage * (
-- 
2.43.0


From ea4997680bc01fdf2fa288a8ed06f4f936501c7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:38:12 +0000
Subject: [PATCH 45/80] fix: MPC passes its theta to the solution method

---
 yaocptool/mpc/mpc.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/yaocptool/mpc/mpc.py b/yaocptool/mpc/mpc.py
index 733157d..dc8a9a1 100644
--- a/yaocptool/mpc/mpc.py
+++ b/yaocptool/mpc/mpc.py
@@ -132,7 +132,11 @@ class MPC:
         #          initial_guess_dict = initial_guess_dict[0]
 
         solutions = self.solution_method.solve(
-            x_0=x_k, initial_guess=self.initial_guess, p=p, last_u=u_k
+            x_0=x_k,
+            initial_guess=self.initial_guess,
+            p=p,
+            theta=self.theta,
+            last_u=u_k,
         )
         self.initial_guess = self.step(solutions.raw_decision_variables)
 
-- 
2.43.0


From 8881a34e91966c50e9c15a80876c072c1cbe3bc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:38:17 +0000
Subject: [PATCH 46/80] fix: MPC.run(0) runs indefinitely

---
 yaocptool/mpc/mpc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yaocptool/mpc/mpc.py b/yaocptool/mpc/mpc.py
index dc8a9a1..d61f5e5 100644
--- a/yaocptool/mpc/mpc.py
+++ b/yaocptool/mpc/mpc.py
@@ -250,7 +250,7 @@ class MPC:
             else:
                 self.send_control(new_u)
 
-            if k >= iterations - 1:
+            if iterations > 0 and k >= iterations - 1:
                 print("End of MPC.un".center(30, "="))
                 break
 
-- 
2.43.0


From d80094029028be0b696bbad58393f4612fdcd1a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:19:50 +0000
Subject: [PATCH 47/80] fix: the Kalman filters use the current names of the
 model's variables

---
 .../estimation/extended_kalman_filter.py      | 97 +++++++++++--------
 yaocptool/estimation/pce_kalman_filter.py     | 28 +++---
 .../estimation/unscented_kalman_filter.py     | 71 ++++++++------
 3 files changed, 116 insertions(+), 80 deletions(-)

diff --git a/yaocptool/estimation/extended_kalman_filter.py b/yaocptool/estimation/extended_kalman_filter.py
index 9fc18a2..5f034a8 100644
--- a/yaocptool/estimation/extended_kalman_filter.py
+++ b/yaocptool/estimation/extended_kalman_filter.py
@@ -70,34 +70,49 @@ class ExtendedKalmanFilter(EstimatorAbstract):
 
         # Data set
         self.dataset = DataSet(name=self.model.name)
-        self.dataset.data["x"]["size"] = self.model.n_x
-        self.dataset.data["x"]["names"] = [
-            "ekf_" + self.model.x_sym[i].name() for i in range(self.model.n_x)
-        ]
-
-        self.dataset.data["y"]["size"] = self.model.n_y
-        self.dataset.data["y"]["names"] = [
-            "ekf_" + self.model.y_sym[i].name() for i in range(self.model.n_y)
-        ]
-
-        self.dataset.data["P"]["size"] = self.model.n_x ** 2
-        self.dataset.data["P"]["names"] = [
-            "ekf_P_" + str(i) + str(j)
-            for i in range(self.model.n_x)
-            for j in range(self.model.n_x)
-        ]
-
-        self.dataset.data["P_y"]["size"] = self.model.n_y ** 2
-        self.dataset.data["P_y"]["names"] = [
-            "ekf_P_y_" + str(i) + str(j)
-            for i in range(self.model.n_y)
-            for j in range(self.model.n_y)
-        ]
-
-        self.dataset.data["meas"]["size"] = self.n_meas
-        self.dataset.data["meas"]["names"] = [
-            "ekf_meas_" + str(i) for i in range(self.n_meas)
-        ]
+        self.dataset.create_entry(
+            "x",
+            self.model.n_x,
+            [
+                "ekf_" + self.model.x[i].name() for i in range(self.model.n_x)
+            ],
+        )
+
+        self.dataset.create_entry(
+            "y",
+            self.model.n_y,
+            [
+                "ekf_" + self.model.y[i].name() for i in range(self.model.n_y)
+            ],
+        )
+
+        self.dataset.create_entry(
+            "P",
+            self.model.n_x ** 2,
+            [
+                "ekf_P_" + str(i) + str(j)
+                for i in range(self.model.n_x)
+                for j in range(self.model.n_x)
+            ],
+        )
+
+        self.dataset.create_entry(
+            "P_y",
+            self.model.n_y ** 2,
+            [
+                "ekf_P_y_" + str(i) + str(j)
+                for i in range(self.model.n_y)
+                for j in range(self.model.n_y)
+            ],
+        )
+
+        self.dataset.create_entry(
+            "meas",
+            self.n_meas,
+            [
+                "ekf_meas_" + str(i) for i in range(self.n_meas)
+            ],
+        )
 
     @property
     def n_meas(self):
@@ -178,14 +193,14 @@ class ExtendedKalmanFilter(EstimatorAbstract):
 
         # Obtain the matrix G (linearized measurement model)
         measurement_sym = self._get_measurement_from_prediction(
-            self.model.x_sym, self.model.y_sym, self.model.u_sym
+            self.model.x, self.model.y, self.model.u
         )
         dh_dx_aug_sym = jacobian(
-            measurement_sym, vertcat(self.model.x_sym, self.model.y_sym)
+            measurement_sym, vertcat(self.model.x, self.model.y)
         )
         f_dh_dx_aug = Function(
             "dh_dx_aug",
-            [self.model.x_sym, self.model.y_sym, self.model.u_sym],
+            [self.model.x, self.model.y, self.model.u],
             [dh_dx_aug_sym],
         )
 
@@ -239,27 +254,27 @@ class ExtendedKalmanFilter(EstimatorAbstract):
         :type model: SystemModel
         """
         aug_model = SystemModel("aug_linearized_EKF_model")
-        aug_model.include_state(self.model.x_sym)
-        aug_model.include_state(self.model.y_sym)
-        aug_model.include_control(self.model.u_sym)
-        aug_model.include_parameter(self.model.p_sym)
-        aug_model.include_theta(self.model.theta_sym)
+        aug_model.include_state(self.model.x)
+        aug_model.include_state(self.model.y)
+        aug_model.include_control(self.model.u)
+        aug_model.include_parameter(self.model.p)
+        aug_model.include_theta(self.model.theta)
 
         # remove u_par (self.model.u_par model.u_par)
         all_sym = list(self.model.all_sym)
 
         # Mean
         a_func = Function(
-            "A_matrix", all_sym, [jacobian(self.model.ode, self.model.x_sym)]
+            "A_matrix", all_sym, [jacobian(self.model.ode, self.model.x)]
         )
         b_func = Function(
-            "B_matrix", all_sym, [jacobian(self.model.ode, self.model.y_sym)]
+            "B_matrix", all_sym, [jacobian(self.model.ode, self.model.y)]
         )
         c_func = Function(
-            "C_matrix", all_sym, [jacobian(self.model.alg, self.model.x_sym)]
+            "C_matrix", all_sym, [jacobian(self.model.alg, self.model.x)]
         )
         d_func = Function(
-            "D_matrix", all_sym, [jacobian(self.model.alg, self.model.y_sym)]
+            "D_matrix", all_sym, [jacobian(self.model.alg, self.model.y)]
         )
 
         x_lin = aug_model.create_parameter("x_lin", self.model.n_x)
@@ -281,7 +296,7 @@ class ExtendedKalmanFilter(EstimatorAbstract):
             ),
         )
 
-        x_aug = vertcat(model.x_sym, model.y_sym)
+        x_aug = vertcat(model.x, model.y)
         aug_model.include_equations(ode=[mtimes(a_aug_matrix, x_aug)])
 
         # Covariance
diff --git a/yaocptool/estimation/pce_kalman_filter.py b/yaocptool/estimation/pce_kalman_filter.py
index e9fa0d4..493d1cf 100644
--- a/yaocptool/estimation/pce_kalman_filter.py
+++ b/yaocptool/estimation/pce_kalman_filter.py
@@ -72,17 +72,23 @@ class PCEKalmanFilter(EstimatorAbstract):
         )
 
         self.dataset = DataSet(name=self.model.name)
-        self.dataset.data["x"]["size"] = self.model.n_x
-        self.dataset.data["x"]["names"] = [
-            "est_" + self.model.x_sym[i].name() for i in range(self.model.n_x)
-        ]
-
-        self.dataset.data["P"]["size"] = self.model.n_x ** 2
-        self.dataset.data["P"]["names"] = [
-            "P_" + str(i) + str(j)
-            for i in range(self.model.n_x)
-            for j in range(self.model.n_x)
-        ]
+        self.dataset.create_entry(
+            "x",
+            self.model.n_x,
+            [
+                "est_" + self.model.x[i].name() for i in range(self.model.n_x)
+            ],
+        )
+
+        self.dataset.create_entry(
+            "P",
+            self.model.n_x ** 2,
+            [
+                "P_" + str(i) + str(j)
+                for i in range(self.model.n_x)
+                for j in range(self.model.n_x)
+            ],
+        )
 
     @property
     def n_pol_parameters(self):
diff --git a/yaocptool/estimation/unscented_kalman_filter.py b/yaocptool/estimation/unscented_kalman_filter.py
index 44e5c6d..09f35ab 100644
--- a/yaocptool/estimation/unscented_kalman_filter.py
+++ b/yaocptool/estimation/unscented_kalman_filter.py
@@ -61,34 +61,49 @@ class UnscentedKalmanFilter(EstimatorAbstract):
 
         # Data set
         self.dataset = DataSet(name=self.model.name)
-        self.dataset.data["x"]["size"] = self.model.n_x
-        self.dataset.data["x"]["names"] = [
-            "ukf_" + self.model.x_sym[i].name() for i in range(self.model.n_x)
-        ]
-
-        self.dataset.data["y"]["size"] = self.model.n_y
-        self.dataset.data["y"]["names"] = [
-            "ukf_" + self.model.y_sym[i].name() for i in range(self.model.n_y)
-        ]
-
-        self.dataset.data["P"]["size"] = self.model.n_x ** 2
-        self.dataset.data["P"]["names"] = [
-            "ukf_P_" + str(i) + str(j)
-            for i in range(self.model.n_x)
-            for j in range(self.model.n_x)
-        ]
-
-        self.dataset.data["P_y"]["size"] = self.model.n_y ** 2
-        self.dataset.data["P_y"]["names"] = [
-            "ukf_P_y_" + str(i) + str(j)
-            for i in range(self.model.n_y)
-            for j in range(self.model.n_y)
-        ]
-
-        self.dataset.data["meas"]["size"] = self.n_meas
-        self.dataset.data["meas"]["names"] = [
-            "ukf_meas_" + str(i) for i in range(self.n_meas)
-        ]
+        self.dataset.create_entry(
+            "x",
+            self.model.n_x,
+            [
+                "ukf_" + self.model.x[i].name() for i in range(self.model.n_x)
+            ],
+        )
+
+        self.dataset.create_entry(
+            "y",
+            self.model.n_y,
+            [
+                "ukf_" + self.model.y[i].name() for i in range(self.model.n_y)
+            ],
+        )
+
+        self.dataset.create_entry(
+            "P",
+            self.model.n_x ** 2,
+            [
+                "ukf_P_" + str(i) + str(j)
+                for i in range(self.model.n_x)
+                for j in range(self.model.n_x)
+            ],
+        )
+
+        self.dataset.create_entry(
+            "P_y",
+            self.model.n_y ** 2,
+            [
+                "ukf_P_y_" + str(i) + str(j)
+                for i in range(self.model.n_y)
+                for j in range(self.model.n_y)
+            ],
+        )
+
+        self.dataset.create_entry(
+            "meas",
+            self.n_meas,
+            [
+                "ukf_meas_" + str(i) for i in range(self.n_meas)
+            ],
+        )
 
         # Choose the UKF implementation
         if self.implementation == "standard":
-- 
2.43.0


From ef84b0770b8510502e8c5b29341d85b6b953b240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:19:57 +0000
Subject: [PATCH 48/80] fix: the EKF linearises with the control and parameters
 in use

---
 yaocptool/estimation/extended_kalman_filter.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/yaocptool/estimation/extended_kalman_filter.py b/yaocptool/estimation/extended_kalman_filter.py
index 5f034a8..46992f0 100644
--- a/yaocptool/estimation/extended_kalman_filter.py
+++ b/yaocptool/estimation/extended_kalman_filter.py
@@ -179,9 +179,13 @@ class ExtendedKalmanFilter(EstimatorAbstract):
 
         # Covariance
         all_sym_values = self.model.put_values_in_all_sym_format(
-            t=self.t, x=x_pred, y=y_pred, p=self.p, theta=self.theta
+            t=self.t,
+            x=x_pred,
+            y=y_pred,
+            p=self.p,
+            theta=self.theta[0] if self.theta is not None else None,
+            u_par=u_k,
         )
-        all_sym_values = all_sym_values
 
         a_aug_matrix = self.a_aug_matrix_func(*all_sym_values)
         transition_matrix = expm(a_aug_matrix * self.t_s)
-- 
2.43.0


From 7313432dec4a3d35ad9f07f25c409f2c4c4aad38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:20:02 +0000
Subject: [PATCH 49/80] fix: the Kalman filters advance their time

---
 yaocptool/estimation/extended_kalman_filter.py  | 1 +
 yaocptool/estimation/pce_kalman_filter.py       | 1 +
 yaocptool/estimation/unscented_kalman_filter.py | 1 +
 3 files changed, 3 insertions(+)

diff --git a/yaocptool/estimation/extended_kalman_filter.py b/yaocptool/estimation/extended_kalman_filter.py
index 46992f0..0b94272 100644
--- a/yaocptool/estimation/extended_kalman_filter.py
+++ b/yaocptool/estimation/extended_kalman_filter.py
@@ -242,6 +242,7 @@ class ExtendedKalmanFilter(EstimatorAbstract):
         self.x_mean = x_mean[: self.model.n_x]
         self._p_k_aug = p_k
         self.p_k = p_k[: self.model.n_x, : self.model.n_x]
+        self.t += self.t_s
 
         # Save in the data set
         self.dataset.insert_data("x", t_k, self.x_mean)
diff --git a/yaocptool/estimation/pce_kalman_filter.py b/yaocptool/estimation/pce_kalman_filter.py
index 493d1cf..0323cb9 100644
--- a/yaocptool/estimation/pce_kalman_filter.py
+++ b/yaocptool/estimation/pce_kalman_filter.py
@@ -144,6 +144,7 @@ class PCEKalmanFilter(EstimatorAbstract):
 
         self.x_mean = x_hat_k
         self.p_k = p_k
+        self.t += self.t_s
 
         self.dataset.insert_data("x", t_k, self.x_mean)
         self.dataset.insert_data("P", t_k, vec(self.p_k))
diff --git a/yaocptool/estimation/unscented_kalman_filter.py b/yaocptool/estimation/unscented_kalman_filter.py
index 09f35ab..a04a98a 100644
--- a/yaocptool/estimation/unscented_kalman_filter.py
+++ b/yaocptool/estimation/unscented_kalman_filter.py
@@ -256,6 +256,7 @@ class UnscentedKalmanFilter(EstimatorAbstract):
         self.x_mean = x_mean[: self.model.n_x]
         self._p_k_aug = cov_x_aug_pred
         self.p_k = cov_x_aug[: self.model.n_x, : self.model.n_x]
+        self.t += self.t_s
 
         # Save in the data set
         self.dataset.insert_data("x", t_k, self.x_mean)
-- 
2.43.0


From 93641d0cc7a02071a25d2635991b805f80e99a84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:20:09 +0000
Subject: [PATCH 50/80] fix: the covariance of the algebraics is recorded as a
 vector

---
 yaocptool/estimation/extended_kalman_filter.py  | 4 +++-
 yaocptool/estimation/unscented_kalman_filter.py | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/yaocptool/estimation/extended_kalman_filter.py b/yaocptool/estimation/extended_kalman_filter.py
index 0b94272..7134736 100644
--- a/yaocptool/estimation/extended_kalman_filter.py
+++ b/yaocptool/estimation/extended_kalman_filter.py
@@ -249,7 +249,9 @@ class ExtendedKalmanFilter(EstimatorAbstract):
         self.dataset.insert_data("y", t_k, x_mean[self.model.n_x :])
         self.dataset.insert_data("meas", t_k, meas_corr)
         self.dataset.insert_data("P", t_k, vec(self.p_k))
-        self.dataset.insert_data("P_y", t_k, p_k[self.model.n_x :, self.model.n_x :])
+        self.dataset.insert_data(
+            "P_y", t_k, vec(p_k[self.model.n_x :, self.model.n_x :])
+        )
 
         return self.x_mean, self.p_k
 
diff --git a/yaocptool/estimation/unscented_kalman_filter.py b/yaocptool/estimation/unscented_kalman_filter.py
index a04a98a..19d2412 100644
--- a/yaocptool/estimation/unscented_kalman_filter.py
+++ b/yaocptool/estimation/unscented_kalman_filter.py
@@ -264,7 +264,7 @@ class UnscentedKalmanFilter(EstimatorAbstract):
         self.dataset.insert_data("meas", t_k, meas_corr)
         self.dataset.insert_data("P", t_k, vec(self.p_k))
         self.dataset.insert_data(
-            "P_y", t_k, cov_x_aug[self.model.n_x :, self.model.n_x :]
+            "P_y", t_k, vec(cov_x_aug[self.model.n_x :, self.model.n_x :])
         )
 
         return x_mean, cov_x_aug
-- 
2.43.0


From d37be863990bd14d510625773a4e0120eef02c68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:20:16 +0000
Subject: [PATCH 51/80] fix: the UKF returns the estimate of the states

---
 yaocptool/estimation/unscented_kalman_filter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yaocptool/estimation/unscented_kalman_filter.py b/yaocptool/estimation/unscented_kalman_filter.py
index 19d2412..361a429 100644
--- a/yaocptool/estimation/unscented_kalman_filter.py
+++ b/yaocptool/estimation/unscented_kalman_filter.py
@@ -267,7 +267,7 @@ class UnscentedKalmanFilter(EstimatorAbstract):
             "P_y", t_k, vec(cov_x_aug[self.model.n_x :, self.model.n_x :])
         )
 
-        return x_mean, cov_x_aug
+        return self.x_mean, self.p_k
 
     def _estimate_square_root_ukf(self, t_k, y_k, u_k):
         raise NotImplementedError
-- 
2.43.0


From fca26d9812f31b81ae376b2d86511dc962579787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:20:21 +0000
Subject: [PATCH 52/80] fix: PCE filter covariances use the norms of the
 polynomials

---
 yaocptool/estimation/pce_kalman_filter.py | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/yaocptool/estimation/pce_kalman_filter.py b/yaocptool/estimation/pce_kalman_filter.py
index 0323cb9..8d971a3 100644
--- a/yaocptool/estimation/pce_kalman_filter.py
+++ b/yaocptool/estimation/pce_kalman_filter.py
@@ -67,7 +67,7 @@ class PCEKalmanFilter(EstimatorAbstract):
                 )
             )
 
-        self._ls_factor, _, _ = get_ls_factor(
+        self._ls_factor, self._exp_psi, _ = get_ls_factor(
             self.n_uncertain, self.n_samples, self.pc_order
         )
 
@@ -209,10 +209,7 @@ class PCEKalmanFilter(EstimatorAbstract):
         p_k_minus = DM.zeros(self.model.n_x, self.model.n_x)
         for i in range(self.model.n_x):
             for j in range(self.model.n_x):
-                p_k_minus[i, j] = (
-                    sum([a_x[i][k] * a_x[j][k] for k in range(1, self.n_samples)])
-                    + self.r_v[i, j]
-                )
+                p_k_minus[i, j] = self._covariance(a_x[i], a_x[j]) + self.r_v[i, j]
 
         # calculate the measurement for each sample
         y_cal_k_at_k_minus_1 = []
@@ -242,24 +239,25 @@ class PCEKalmanFilter(EstimatorAbstract):
         p_yk_yk = DM.zeros(n_meas, n_meas)
         for i in range(n_meas):
             for j in range(n_meas):
-                p_yk_yk[i, j] = sum(
-                    [a_meas[i][k] * a_meas[j][k] for k in range(1, self.n_samples)]
-                )
+                p_yk_yk[i, j] = self._covariance(a_meas[i], a_meas[j])
         p_yk_yk = p_yk_yk + self.r_n
 
         # get cross-covariance
         p_xk_yk = DM.zeros(self.model.n_x, n_meas)
         for i in range(self.model.n_x):
             for j in range(n_meas):
-                p_xk_yk[i, j] = sum(
-                    [a_x[i][k] * a_meas[j][k] for k in range(1, self.n_samples)]
-                )
+                p_xk_yk[i, j] = self._covariance(a_x[i], a_meas[j])
 
         # k_gain = mtimes(p_xk_yk, inv(p_yk_yk))
         k_gain = solve(p_yk_yk.T, p_xk_yk.T).T
 
         return x_hat_k_minus, p_k_minus, y_meas_hat_k_minus, p_yk_yk, k_gain
 
+    def _covariance(self, a_i, a_j):
+        return sum(
+            a_i[k] * a_j[k] * self._exp_psi[k] for k in range(1, a_i.numel())
+        )
+
     def _get_sampled_states(self, x_mean, x_cov):
         x_samples = sample_parameter_normal_distribution_with_sobol(
             x_mean, x_cov, self.n_samples
-- 
2.43.0


From 446a7f18e4103e053fb85f65a74d053b10cad356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:20:27 +0000
Subject: [PATCH 53/80] fix: the EKF and UKF work on models with one state

---
 yaocptool/estimation/extended_kalman_filter.py  | 4 ++--
 yaocptool/estimation/unscented_kalman_filter.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/yaocptool/estimation/extended_kalman_filter.py b/yaocptool/estimation/extended_kalman_filter.py
index 7134736..a05d075 100644
--- a/yaocptool/estimation/extended_kalman_filter.py
+++ b/yaocptool/estimation/extended_kalman_filter.py
@@ -222,7 +222,7 @@ class ExtendedKalmanFilter(EstimatorAbstract):
         # Correct prediction of the state estimation
         x_mean = x_aug_f + mtimes(k_gain, (y_k - meas_pred))
         meas_corr = self._get_measurement_from_prediction(
-            x_mean[: self.model.n_x], x_mean[self.model.n_x :], u_f
+            x_mean[: self.model.n_x], x_mean[self.model.n_x :, 0], u_f
         )
         if self.verbosity > 1:
             print("Predicted state: {}".format(x_pred))
@@ -246,7 +246,7 @@ class ExtendedKalmanFilter(EstimatorAbstract):
 
         # Save in the data set
         self.dataset.insert_data("x", t_k, self.x_mean)
-        self.dataset.insert_data("y", t_k, x_mean[self.model.n_x :])
+        self.dataset.insert_data("y", t_k, x_mean[self.model.n_x :, 0])
         self.dataset.insert_data("meas", t_k, meas_corr)
         self.dataset.insert_data("P", t_k, vec(self.p_k))
         self.dataset.insert_data(
diff --git a/yaocptool/estimation/unscented_kalman_filter.py b/yaocptool/estimation/unscented_kalman_filter.py
index 361a429..940ed48 100644
--- a/yaocptool/estimation/unscented_kalman_filter.py
+++ b/yaocptool/estimation/unscented_kalman_filter.py
@@ -236,7 +236,7 @@ class UnscentedKalmanFilter(EstimatorAbstract):
         # Correct prediction of the state estimation
         x_mean = x_aug_pred + mtimes(k_gain, (y_k - meas_pred))
         meas_corr = self._get_measurement_from_prediction(
-            x_mean[: self.model.n_x], x_mean[self.model.n_x :], u_k
+            x_mean[: self.model.n_x], x_mean[self.model.n_x :, 0], u_k
         )
         print("Predicted state: {}".format(x_pred))
         print("Prediction error: {}".format(y_k - meas_pred))
@@ -260,7 +260,7 @@ class UnscentedKalmanFilter(EstimatorAbstract):
 
         # Save in the data set
         self.dataset.insert_data("x", t_k, self.x_mean)
-        self.dataset.insert_data("y", t_k, x_mean[self.model.n_x :])
+        self.dataset.insert_data("y", t_k, x_mean[self.model.n_x :, 0])
         self.dataset.insert_data("meas", t_k, meas_corr)
         self.dataset.insert_data("P", t_k, vec(self.p_k))
         self.dataset.insert_data(
-- 
2.43.0


From 7fb75bd202c153e665a1b234f97527173938f66f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:13:52 +0000
Subject: [PATCH 54/80] fix: PCEConverter follows the current model interface

---
 yaocptool/modelling/stochastic_ocp.py |   6 +-
 yaocptool/stochastic/pce.py           | 138 +++++++++++++-------------
 yaocptool/util/util.py                |   2 +-
 3 files changed, 71 insertions(+), 75 deletions(-)

diff --git a/yaocptool/modelling/stochastic_ocp.py b/yaocptool/modelling/stochastic_ocp.py
index b2efbaa..972f882 100644
--- a/yaocptool/modelling/stochastic_ocp.py
+++ b/yaocptool/modelling/stochastic_ocp.py
@@ -119,15 +119,15 @@ class StochasticOCP(OptimalControlProblem):
 
     def get_p_without_p_unc(self):
         return remove_variables_from_vector_by_indices(
-            self.get_p_unc_indices(), self.model.p_sym
+            self.get_p_unc_indices(), self.model.p
         )
 
     def get_p_unc_indices(self):
-        return find_variables_indices_in_vector(self.p_unc, self.model.p_sym)
+        return find_variables_indices_in_vector(self.p_unc, self.model.p)
 
     def get_uncertain_initial_cond_indices(self):
         return find_variables_indices_in_vector(
-            self.uncertain_initial_conditions, self.model.x_0_sym
+            self.uncertain_initial_conditions, self.model.x_0
         )
 
     def include_time_chance_inequality(self, ineq, prob, rhs=None, when="default"):
diff --git a/yaocptool/stochastic/pce.py b/yaocptool/stochastic/pce.py
index 805e648..248c25c 100644
--- a/yaocptool/stochastic/pce.py
+++ b/yaocptool/stochastic/pce.py
@@ -117,25 +117,25 @@ class PCEConverter:
         cost = self.socp.L
 
         original_vars = vertcat(
-            self.socp.model.x_sym,
-            self.socp.model.y_sym,
-            self.socp.model.u_sym,
-            self.socp.model.p_sym,
-            self.socp.model.theta_sym,
-            self.socp.model.t_sym,
-            self.socp.model.tau_sym,
-            self.socp.model.x_0_sym,
+            self.socp.model.x,
+            self.socp.model.y,
+            self.socp.model.u,
+            self.socp.model.p,
+            self.socp.model.theta,
+            self.socp.model.t,
+            self.socp.model.tau,
+            self.socp.model.x_0,
         )
 
         new_vars = vertcat(
-            model_s.x_sym,
-            model_s.y_sym,
-            model_s.u_sym,
-            model_s.p_sym,
-            model_s.theta_sym,
-            model_s.t_sym,
-            model_s.tau_sym,
-            model_s.x_0_sym,
+            model_s.x,
+            model_s.y,
+            model_s.u,
+            model_s.p,
+            model_s.theta,
+            model_s.t,
+            model_s.tau,
+            model_s.x_0,
         )
 
         cost = substitute(cost, original_vars, new_vars)
@@ -259,12 +259,8 @@ class PCEConverter:
         problem = OptimalControlProblem(model)
         problem.name = self.socp.name + "_PCE"
 
-        problem.p_opt = substitute(
-            self.socp.p_opt, self.socp.get_p_without_p_unc(), problem.model.p_sym
-        )
-        problem.theta_opt = substitute(
-            self.socp.theta_opt, self.socp.model.theta_sym, problem.model.theta_sym
-        )
+        problem.p_opt = self.socp.p_opt
+        problem.theta_opt = self.socp.theta_opt
 
         problem.x_max = repmat(vertcat(self.socp.x_max, inf), self.n_samples)
         problem.y_max = repmat(self.socp.y_max, self.n_samples)
@@ -282,35 +278,35 @@ class PCEConverter:
 
         problem.t_f = self.socp.t_f
 
-        if depends_on(self.socp.g_eq, self.socp.model.x_sym) or depends_on(
-            self.socp.g_eq, self.socp.model.y_sym
+        if depends_on(self.socp.g_eq, self.socp.model.x) or depends_on(
+            self.socp.g_eq, self.socp.model.y
         ):
             raise NotImplementedError(
-                'Case where "g_eq" depends on "model.x_sym" or "model.y_sym" is not implemented '
+                'Case where "g_eq" depends on "model.x" or "model.y" is not implemented '
             )
 
-        if depends_on(self.socp.g_ineq, self.socp.model.x_sym) or depends_on(
-            self.socp.g_ineq, self.socp.model.y_sym
+        if depends_on(self.socp.g_ineq, self.socp.model.x) or depends_on(
+            self.socp.g_ineq, self.socp.model.y
         ):
             raise NotImplementedError(
-                'Case where "g_ineq" depends on "model.x_sym" '
-                'or "model.y_sym" is not implemented '
+                'Case where "g_ineq" depends on "model.x" '
+                'or "model.y" is not implemented '
             )
 
         original_vars = vertcat(
-            self.socp.model.u_sym,
+            self.socp.model.u,
             self.socp.get_p_without_p_unc(),
-            self.socp.model.theta_sym,
-            self.socp.model.t_sym,
-            self.socp.model.tau_sym,
+            self.socp.model.theta,
+            self.socp.model.t,
+            self.socp.model.tau,
         )
 
         new_vars = vertcat(
-            problem.model.u_sym,
-            problem.model.p_sym,
-            problem.model.theta_sym,
-            problem.model.t_sym,
-            problem.model.tau_sym,
+            problem.model.u,
+            problem.model.p,
+            problem.model.theta,
+            problem.model.t,
+            problem.model.tau,
         )
 
         if not self.socp.n_h_initial == self.socp.model.n_x:
@@ -329,7 +325,7 @@ class PCEConverter:
 
         for i in range(self.socp.n_uncertain_initial_condition):
             ind = self.socp.get_uncertain_initial_cond_indices()[i]
-            x_ind_s = problem.model.x_0_sym[ind :: (self.socp.model.n_x + 1)]
+            x_ind_s = problem.model.x_0[ind :: (self.socp.model.n_x + 1)]
             problem.h_initial = substitute(
                 problem.h_initial,
                 x_ind_s,
@@ -373,16 +369,16 @@ class PCEConverter:
         sampled_parameters_p_unc = sampled_parameters[: self.socp.n_p_unc, :]
         model = SystemModel(name=self.socp.model.name + "_PCE")
 
-        model.include_control(self.socp.model.u_sym)
+        model.include_control(self.socp.model.u)
         model.include_parameter(self.socp.get_p_without_p_unc())
-        model.include_theta(self.socp.model.theta_sym)
+        model.include_theta(self.socp.model.theta)
 
-        u_global = model.u_sym
-        p_global = model.p_sym
-        theta_global = model.theta_sym
+        u_global = model.u
+        p_global = model.p
+        theta_global = model.theta
 
-        t_global = model.t_sym
-        tau_global = model.tau_sym
+        t_global = model.t
+        tau_global = model.tau
 
         cost_list = []
         for s in range(self.n_samples):
@@ -391,23 +387,23 @@ class PCEConverter:
             # cost of sample
             cost_ode = self._create_cost_ode_of_sample(model_s)
             cost_s = model_s.create_state("cost_" + str(s))
-            model_s.include_system_equations(ode=cost_ode)
+            model_s.include_equations(ode=cost_ode, x=cost_s)
 
             # replace the parameter variable with the sampled variable
-            p_unc_s = model_s.p_sym.get(False, self.socp.get_p_unc_indices())
+            p_unc_s = model_s.p.get(False, self.socp.get_p_unc_indices())
 
             model_s.replace_variable(p_unc_s, sampled_parameters_p_unc[:, s])
             model_s.remove_parameter(p_unc_s)
 
             # replace the model variables with the global variables
-            model_s.replace_variable(model_s.u_sym, u_global)
-            model_s.replace_variable(model_s.p_sym, p_global)
-            model_s.replace_variable(model_s.theta_sym, theta_global)
-            model_s.remove_control(model_s.u_sym)
-            model_s.remove_parameter(model_s.p_sym)
-            model_s.remove_theta(model_s.theta_sym)
-            model_s.t_sym = t_global
-            model_s.tau_sym = tau_global
+            model_s.replace_variable(model_s.u, u_global)
+            model_s.replace_variable(model_s.p, p_global)
+            model_s.replace_variable(model_s.theta, theta_global)
+            model_s.remove_control(model_s.u)
+            model_s.remove_parameter(model_s.p)
+            model_s.remove_theta(model_s.theta)
+            model_s.t = t_global
+            model_s.tau = tau_global
 
             # merge the sample model in the unique model
             model.merge(model_s)
@@ -428,34 +424,34 @@ class PCEConverter:
         """
         expr_list = []
         for s in range(self.n_samples):
-            x_s = model.x_sym[
+            x_s = model.x[
                 s * (self.socp.model.n_x + 1) : (s + 1) * (self.socp.model.n_x + 1)
             ][: self.socp.model.n_x]
-            x_0_s = model.x_0_sym[
+            x_0_s = model.x_0[
                 s * (self.socp.model.n_x + 1) : (s + 1) * (self.socp.model.n_x + 1)
             ][: self.socp.model.n_x]
-            y_s = model.y_sym[s * self.socp.model.n_y : (s + 1) * self.socp.model.n_y]
+            y_s = model.y[s * self.socp.model.n_y : (s + 1) * self.socp.model.n_y]
 
             original_vars = vertcat(
-                self.socp.model.x_sym,
-                self.socp.model.y_sym,
-                self.socp.model.u_sym,
+                self.socp.model.x,
+                self.socp.model.y,
+                self.socp.model.u,
                 self.socp.get_p_without_p_unc(),
-                self.socp.model.theta_sym,
-                self.socp.model.t_sym,
-                self.socp.model.tau_sym,
-                self.socp.model.x_0_sym,
+                self.socp.model.theta,
+                self.socp.model.t,
+                self.socp.model.tau,
+                self.socp.model.x_0,
                 self.socp.p_unc,
             )
 
             new_vars = vertcat(
                 x_s,
                 y_s,
-                model.u_sym,
-                model.p_sym,
-                model.theta_sym,
-                model.t_sym,
-                model.tau_sym,
+                model.u,
+                model.p,
+                model.theta,
+                model.t,
+                model.tau,
                 x_0_s,
                 self.sampled_parameters[:, s],
             )
diff --git a/yaocptool/util/util.py b/yaocptool/util/util.py
index dce5e9e..a08860e 100644
--- a/yaocptool/util/util.py
+++ b/yaocptool/util/util.py
@@ -88,7 +88,7 @@ def remove_variables_from_vector(var: SymbolicMT, vector: SymbolicMT) -> Symboli
     :return:
     """
     to_remove = find_variables_indices_in_vector(var, vector)
-    if len(to_remove) == 0:
+    if len(to_remove) == 0 and var.numel() > 0:
         raise ValueError(
             '"var" not found in "vector", var={}, vector={}'.format(var, vector)
         )
-- 
2.43.0


From 6de5f089f3f5c38ac20ff044fa80344edc4ab929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:13:59 +0000
Subject: [PATCH 55/80] fix: the samples of a PCE problem share its time
 variable

---
 yaocptool/stochastic/pce.py | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/yaocptool/stochastic/pce.py b/yaocptool/stochastic/pce.py
index 248c25c..b76cd70 100644
--- a/yaocptool/stochastic/pce.py
+++ b/yaocptool/stochastic/pce.py
@@ -377,9 +377,6 @@ class PCEConverter:
         p_global = model.p
         theta_global = model.theta
 
-        t_global = model.t
-        tau_global = model.tau
-
         cost_list = []
         for s in range(self.n_samples):
             model_s = self.socp.model.get_deepcopy()
@@ -402,8 +399,6 @@ class PCEConverter:
             model_s.remove_control(model_s.u)
             model_s.remove_parameter(model_s.p)
             model_s.remove_theta(model_s.theta)
-            model_s.t = t_global
-            model_s.tau = tau_global
 
             # merge the sample model in the unique model
             model.merge(model_s)
-- 
2.43.0


From c4622a5f10d35a9bd4acb80365c4c5bbd3eedd67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:14:05 +0000
Subject: [PATCH 56/80] fix: PCE problems with uncertain initial conditions can
 be converted

---
 yaocptool/stochastic/pce.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/yaocptool/stochastic/pce.py b/yaocptool/stochastic/pce.py
index b76cd70..7b52ee3 100644
--- a/yaocptool/stochastic/pce.py
+++ b/yaocptool/stochastic/pce.py
@@ -387,10 +387,11 @@ class PCEConverter:
             model_s.include_equations(ode=cost_ode, x=cost_s)
 
             # replace the parameter variable with the sampled variable
-            p_unc_s = model_s.p.get(False, self.socp.get_p_unc_indices())
+            if self.socp.n_p_unc > 0:
+                p_unc_s = model_s.p.get(False, self.socp.get_p_unc_indices())
 
-            model_s.replace_variable(p_unc_s, sampled_parameters_p_unc[:, s])
-            model_s.remove_parameter(p_unc_s)
+                model_s.replace_variable(p_unc_s, sampled_parameters_p_unc[:, s])
+                model_s.remove_parameter(p_unc_s)
 
             # replace the model variables with the global variables
             model_s.replace_variable(model_s.u, u_global)
@@ -448,7 +449,7 @@ class PCEConverter:
                 model.t,
                 model.tau,
                 x_0_s,
-                self.sampled_parameters[:, s],
+                self.sampled_parameters[: self.socp.n_p_unc, s],
             )
 
             new_exp = substitute(expr, original_vars, new_vars)
-- 
2.43.0


From 71a50929c52a0450ceba1e2bdddcdedfa2f16a11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:14:11 +0000
Subject: [PATCH 57/80] fix: further initial conditions are kept by the PCE
 conversion

---
 yaocptool/stochastic/pce.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yaocptool/stochastic/pce.py b/yaocptool/stochastic/pce.py
index 7b52ee3..d93a618 100644
--- a/yaocptool/stochastic/pce.py
+++ b/yaocptool/stochastic/pce.py
@@ -313,7 +313,7 @@ class PCEConverter:
             problem.h_initial = vertcat(
                 problem.h_initial,
                 substitute(
-                    self.socp.h_initial[: self.socp.model.n_x], original_vars, new_vars
+                    self.socp.h_initial[self.socp.model.n_x :], original_vars, new_vars
                 ),
             )
         problem.h_final = substitute(self.socp.h_final, original_vars, new_vars)
-- 
2.43.0


From 346a46321c1bb031d893e9d03813f3dd901c8bf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:14:16 +0000
Subject: [PATCH 58/80] fix: the PCE problem starts at the stochastic problem's
 initial time

---
 yaocptool/stochastic/pce.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/yaocptool/stochastic/pce.py b/yaocptool/stochastic/pce.py
index d93a618..281436c 100644
--- a/yaocptool/stochastic/pce.py
+++ b/yaocptool/stochastic/pce.py
@@ -276,6 +276,7 @@ class PCEConverter:
         problem.p_opt_min = self.socp.p_opt_min
         problem.theta_opt_min = self.socp.theta_opt_min
 
+        problem.t_0 = self.socp.t_0
         problem.t_f = self.socp.t_f
 
         if depends_on(self.socp.g_eq, self.socp.model.x) or depends_on(
@@ -357,7 +358,7 @@ class PCEConverter:
         )
 
         problem.parametrized_control = self.socp.parametrized_control
-        problem.positive_objective = self.socp.parametrized_control
+        problem.positive_objective = self.socp.positive_objective
         problem.NULL_OBJ = self.socp.NULL_OBJ
 
         if not is_equal(self.socp.S, 0) or not is_equal(self.socp.V, 0):
-- 
2.43.0


From f1a11bd581e04624f146ae351f5247b8c2a1cc73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:14:21 +0000
Subject: [PATCH 59/80] fix: coefficient of the tenth Hermite polynomial

---
 yaocptool/stochastic/pce.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yaocptool/stochastic/pce.py b/yaocptool/stochastic/pce.py
index 281436c..a9d73b7 100644
--- a/yaocptool/stochastic/pce.py
+++ b/yaocptool/stochastic/pce.py
@@ -486,7 +486,7 @@ def get_ls_factor(n_uncertain, n_samples, pc_order, lamb=0.0):
     he10fcn = Function(
         "He10fcn",
         [x],
-        [x ** 10 - 45 * x ** 8 + 640 * x ** 6 - 3150 * x ** 4 + 4725 * x ** 2 - 945],
+        [x ** 10 - 45 * x ** 8 + 630 * x ** 6 - 3150 * x ** 4 + 4725 * x ** 2 - 945],
     )
     helist = [
         he0fcn,
-- 
2.43.0


From 30ab00a59e3e1f2535e9b7e66fd69a454772130f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:14:25 +0000
Subject: [PATCH 60/80] fix: chance constraints check the size of their
 probabilities

---
 yaocptool/modelling/stochastic_ocp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yaocptool/modelling/stochastic_ocp.py b/yaocptool/modelling/stochastic_ocp.py
index 972f882..fd2e7e6 100644
--- a/yaocptool/modelling/stochastic_ocp.py
+++ b/yaocptool/modelling/stochastic_ocp.py
@@ -167,7 +167,7 @@ class StochasticOCP(OptimalControlProblem):
                 'Given inequality does not have the same dimensions of the provided "rhs". '
                 "Size of ineq: {}, size of rhs: {}".format(ineq.shape, rhs.shape)
             )
-        if not ineq.numel() == rhs.numel():
+        if not ineq.numel() == prob.numel():
             raise ValueError(
                 'Given inequality does not have the same dimensions of the provided "prob". '
                 "Size of ineq: {}, size of prob: {}".format(ineq.shape, prob.shape)
-- 
2.43.0


From 8aec36ba10f0ab3a6a9ae229359cb0234f51f430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:00:02 +0000
Subject: [PATCH 61/80] fix: PCE conversion of a model without parameters

---
 yaocptool/stochastic/pce.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/yaocptool/stochastic/pce.py b/yaocptool/stochastic/pce.py
index a9d73b7..79a7e22 100644
--- a/yaocptool/stochastic/pce.py
+++ b/yaocptool/stochastic/pce.py
@@ -396,7 +396,8 @@ class PCEConverter:
 
             # replace the model variables with the global variables
             model_s.replace_variable(model_s.u, u_global)
-            model_s.replace_variable(model_s.p, p_global)
+            if model_s.n_p > 0:
+                model_s.replace_variable(model_s.p, p_global)
             model_s.replace_variable(model_s.theta, theta_global)
             model_s.remove_control(model_s.u)
             model_s.remove_parameter(model_s.p)
-- 
2.43.0


From 9fb25755e14cbb5048554ebdef0eee895935da5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:23 +0000
Subject: [PATCH 62/80] fix: linearize builds a model with the states and
 controls

---
 yaocptool/modelling/system_model.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/yaocptool/modelling/system_model.py b/yaocptool/modelling/system_model.py
index a360152..866a32d 100644
--- a/yaocptool/modelling/system_model.py
+++ b/yaocptool/modelling/system_model.py
@@ -720,7 +720,11 @@ class SystemModel(ContinuousStateMixin, AlgebraicMixin, ControlMixin, ParameterM
             x_bar, u_bar
         )
 
-        linear_model = SystemModel(n_x=self.n_x, n_u=self.n_u)
+        linear_model = SystemModel()
+        for name in self.x_names:
+            linear_model.create_state(name)
+        for name in self.u_names:
+            linear_model.create_control(name)
         linear_model.include_equations(
             ode=[mtimes(a_matrix, linear_model.x) + mtimes(b_matrix, linear_model.u)]
         )
-- 
2.43.0


From 138c5db7cf65551e204fb7866fea498c7a0bd9fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:29 +0000
Subject: [PATCH 63/80] fix: find_equilibrium searches over x, y and u

---
 yaocptool/modelling/system_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yaocptool/modelling/system_model.py b/yaocptool/modelling/system_model.py
index 866a32d..72fc1a6 100644
--- a/yaocptool/modelling/system_model.py
+++ b/yaocptool/modelling/system_model.py
@@ -767,7 +767,7 @@ class SystemModel(ContinuousStateMixin, AlgebraicMixin, ControlMixin, ParameterM
         eqs = vertcat(self.ode, self.alg, additional_eqs)
         eqs = substitute(eqs, self.t, t_0)
         eqs = substitute(eqs, self.tau, 0)
-        f_eqs = Function("f_equilibrium", [vertcat(*self.all_sym[1:-1])], [eqs])
+        f_eqs = Function("f_equilibrium", [vertcat(self.x, self.y, self.u)], [eqs])
 
         rf = rootfinder("rf_equilibrium", "nlpsol", f_eqs, rootfinder_options)
         res = rf(guess)
-- 
2.43.0


From 523f50320da31db3edb10b6347c26d0393cb932f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:36 +0000
Subject: [PATCH 64/80] fix: positions out of bounds or from the end when
 removing variables

---
 yaocptool/util/util.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/yaocptool/util/util.py b/yaocptool/util/util.py
index a08860e..d029817 100644
--- a/yaocptool/util/util.py
+++ b/yaocptool/util/util.py
@@ -108,7 +108,7 @@ def remove_variables_from_vector_by_indices(
     """
     if indices:
         numel = vector.numel()
-        if max(indices) > numel:
+        if max(indices) >= numel:
             raise ValueError(
                 "Found indices out of bounds. Index violating: {}, indices: {}".format(
                     max(indices), indices
@@ -121,7 +121,11 @@ def remove_variables_from_vector_by_indices(
                 )
             )
 
-    remaining_ind = [ind for ind in range(vector.numel()) if ind not in indices]
+    remaining_ind = [
+        ind
+        for ind in range(vector.numel())
+        if ind not in indices and ind - vector.numel() not in indices
+    ]
     vector = vector[remaining_ind]
 
     if vector.shape == (1, 0):
-- 
2.43.0


From e64d4f60a0563b34b549157b8d6d4c42f5cba511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:03 +0000
Subject: [PATCH 65/80] fix: distributed options on Python 3.11 and later

---
 yaocptool/methods/network/distributedaugmetedlagrangian.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/yaocptool/methods/network/distributedaugmetedlagrangian.py b/yaocptool/methods/network/distributedaugmetedlagrangian.py
index b09863c..9b8c14e 100644
--- a/yaocptool/methods/network/distributedaugmetedlagrangian.py
+++ b/yaocptool/methods/network/distributedaugmetedlagrangian.py
@@ -9,7 +9,7 @@ import logging
 import random
 import time
 from collections import defaultdict
-from dataclasses import asdict, dataclass
+from dataclasses import asdict, dataclass, field
 from typing import Dict, List, Literal, Optional, Tuple, Type, Union, cast
 
 import matplotlib.pyplot as plt
@@ -55,7 +55,9 @@ class DistributedAugmentedLagrangianOptions:
     ] = "cyclic"
     debug_skip_replace_by_approximation: bool = False
 
-    al_options: AugmentedLagrangianOptions = AugmentedLagrangianOptions()
+    al_options: AugmentedLagrangianOptions = field(
+        default_factory=AugmentedLagrangianOptions
+    )
 
     def __post_init__(self):
         if not isinstance(self.al_options, AugmentedLagrangianOptions):
-- 
2.43.0


From c8c7a289eb509825743d345537b00b05fbd17ae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:56 +0000
Subject: [PATCH 66/80] fix: blocks of the distributed method cover all nodes

---
 .../methods/network/distributedaugmetedlagrangian.py | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/yaocptool/methods/network/distributedaugmetedlagrangian.py b/yaocptool/methods/network/distributedaugmetedlagrangian.py
index 9b8c14e..6c2d944 100644
--- a/yaocptool/methods/network/distributedaugmetedlagrangian.py
+++ b/yaocptool/methods/network/distributedaugmetedlagrangian.py
@@ -13,7 +13,6 @@ from dataclasses import asdict, dataclass, field
 from typing import Dict, List, Literal, Optional, Tuple, Type, Union, cast
 
 import matplotlib.pyplot as plt
-import networkx.algorithms.coloring
 from casadi import DM, SX, inf, inv, vertcat
 from erised import Proxy
 
@@ -85,15 +84,8 @@ class DistributedAugmentedLagrangian(SolutionMethodInterface):
         if blocks is not None:
             self.blocks = blocks
         else:
-            coloring: Dict[Node, int] = networkx.algorithms.coloring.greedy_color(
-                self.network.graph
-            )
-            self.blocks = {
-                group_number: [node for node, _ in group]
-                for group_number, group in itertools.groupby(
-                    coloring.items(), key=lambda item: item[1]
-                )
-            }
+            # nodes in the same block are not connected
+            self.blocks = dict(enumerate(self.network.get_map_coloring_groups()))
 
         self.nodes_proxies: Dict[Node, Proxy] = {}
 
-- 
2.43.0


From 85ace46e37b3d031ffdcb2a90b0ea6ceb66d8aba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:39 +0000
Subject: [PATCH 67/80] fix: intermediary nodes use their updated multipliers

---
 .../network/intermediary_node_solution_method.py      | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/yaocptool/methods/network/intermediary_node_solution_method.py b/yaocptool/methods/network/intermediary_node_solution_method.py
index 8953020..65d2cb5 100644
--- a/yaocptool/methods/network/intermediary_node_solution_method.py
+++ b/yaocptool/methods/network/intermediary_node_solution_method.py
@@ -1,3 +1,4 @@
+from copy import copy
 from typing import Dict
 
 from casadi.casadi import (
@@ -129,7 +130,7 @@ class IntermediaryNodeSolutionMethod(AugmentedLagrangian):
         errors = DM([mmax(fabs(row)) for row in vertsplit(vertcat(rel_alg, rel_eq), 1)])
 
         nu_tilde = {
-            el: vertcat(nu_p1_c_next_el, nu_c_p2_next_el)
+            el: vertcat(nu_p1_c_next_el.T, nu_c_p2_next_el.T)
             for el, (nu_p1_c_next_el, nu_c_p2_next_el) in enumerate(
                 zip(
                     horzsplit(nu_p1_c_next, self.options.degree),
@@ -144,13 +145,16 @@ class IntermediaryNodeSolutionMethod(AugmentedLagrangian):
                 and any((errors > 0).nz)
                 and self.last_violation_error is not None
             ):
+                degree = self.options.degree
+                self.nu_tilde = {el: copy(nu) for el, nu in self.nu_tilde.items()}
                 for ind, (error, last_error) in enumerate(
                     zip(errors.nz, self.last_violation_error.nz)
                 ):
                     if (error - last_error) < 0:
                         self.last_violation_error[ind] = error
+                        rows = list(range(ind * degree, (ind + 1) * degree))
                         for el in self.nu_tilde:
-                            self.nu_tilde[el][ind] = nu_tilde[el][ind]
+                            self.nu_tilde[el][rows] = nu_tilde[el][rows]
                     else:
                         print("Error is greater than zero")
             else:
@@ -158,6 +162,9 @@ class IntermediaryNodeSolutionMethod(AugmentedLagrangian):
         return errors
 
     def solve(self, theta, p=None, *args, **kwargs):
+        if self.nu_tilde is not None:
+            self.nu = self.nu_tilde
+
         theta_k = self.join_nu_to_theta(theta, self.nu)
         p_k = vertcat(p, self.mu) if p is not None else self.mu
 
-- 
2.43.0


From 1afed33dc88920d9845d021b557e3ce6e716b4d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:18 +0000
Subject: [PATCH 68/80] fix: intermediary nodes of several variables

---
 .../intermediary_node_solution_method.py      | 86 +++++++------------
 1 file changed, 31 insertions(+), 55 deletions(-)

diff --git a/yaocptool/methods/network/intermediary_node_solution_method.py b/yaocptool/methods/network/intermediary_node_solution_method.py
index 65d2cb5..426438c 100644
--- a/yaocptool/methods/network/intermediary_node_solution_method.py
+++ b/yaocptool/methods/network/intermediary_node_solution_method.py
@@ -9,6 +9,7 @@ from casadi.casadi import (
     horzcat,
     horzsplit,
     mmax,
+    vec,
     vertcat,
     vertsplit,
 )
@@ -38,22 +39,8 @@ class IntermediaryNodeSolutionMethod(AugmentedLagrangian):
     def _create_nu_update_func(self):
         mu_k, y_p1, u_p2, nu_p1_c, nu_c_p2 = self._get_symb_variables()
 
-        vectorize = lambda var: horzcat(
-            *[horzcat(*var[el]) for el in range(self.options.finite_elements)]
-        )
-
-        u_c = vectorize(
-            [
-                [MX.sym(f"u_c_{el}_{deg}") for deg in range(self.options.degree)]
-                for el in range(self.options.finite_elements)
-            ]
-        )
-        y_c = vectorize(
-            [
-                [MX.sym(f"y_c_{el}_{deg}") for deg in range(self.options.degree)]
-                for el in range(self.options.finite_elements)
-            ]
-        )
+        u_c = MX.sym("u_c", y_p1.shape)
+        y_c = MX.sym("y_c", u_p2.shape)
 
         nu_p1_c_next = nu_p1_c + mu_k * (u_c - y_p1)
         nu_c_p2_next = nu_c_p2 + mu_k * (u_p2 - y_c)
@@ -70,34 +57,35 @@ class IntermediaryNodeSolutionMethod(AugmentedLagrangian):
     def _get_symb_variables(self):
         mu_k = MX.sym("mu_k")
 
-        y_p1 = [
-            [MX.sym("y_p1_{el}_{deg}") for deg in range(self.options.degree)]
-            for el in range(self.options.finite_elements)
-        ]
-        u_p2 = [
-            [MX.sym("u_p2_{el}_{deg}") for deg in range(self.options.degree)]
-            for el in range(self.options.finite_elements)
-        ]
+        # a row for each connected variable, a column for each interpolation point
+        n_points = self.options.finite_elements * self.options.degree
+        y_p1, u_p2, nu_p1_c, nu_c_p2 = (
+            MX.sym(name, self._n_connections, n_points)
+            for name in ["y_p1", "u_p2", "nu_p1_c", "nu_c_p2"]
+        )
+        return mu_k, y_p1, u_p2, nu_p1_c, nu_c_p2
 
-        nu_p1_c = [
-            [MX.sym("nu_p1_{el}_{deg}") for deg in range(self.options.degree)]
-            for el in range(self.options.finite_elements)
-        ]
-        nu_c_p2 = [
-            [MX.sym("nu_p2_{el}_{deg}") for deg in range(self.options.degree)]
+    @property
+    def _n_connections(self) -> int:
+        return len(self.relax_algebraic_index)
+
+    def _split_theta(self, theta: Dict[int, DM]):
+        # y_p1, u_p2, nu_p1_c, nu_c_p2: one after the other, by variable
+        elements = [
+            vertsplit(theta[el], self.options.degree)
             for el in range(self.options.finite_elements)
         ]
-
-        vectorize = lambda var: horzcat(
-            *[horzcat(*var[el]) for el in range(self.options.finite_elements)]
-        )
-        y_p1, u_p2, nu_p1_c, nu_c_p2 = (
-            vectorize(y_p1),
-            vectorize(u_p2),
-            vectorize(nu_p1_c),
-            vectorize(nu_c_p2),
+        return (
+            vertcat(
+                *[
+                    horzcat(*[element[ind].T for element in elements])
+                    for ind in range(
+                        i * self._n_connections, (i + 1) * self._n_connections
+                    )
+                ]
+            )
+            for i in range(4)
         )
-        return mu_k, y_p1, u_p2, nu_p1_c, nu_c_p2
 
     def _compute_new_nu_and_error(
         self,
@@ -113,13 +101,7 @@ class IntermediaryNodeSolutionMethod(AugmentedLagrangian):
         if self.options.debug_skip_compute_nu_and_error:
             return errors
 
-        split_vector = lambda ind: horzcat(
-            *[
-                vertsplit(theta[el], self.options.degree)[ind].T
-                for el in range(self.options.finite_elements)
-            ]
-        )
-        y_p1, u_p2, nu_p1_c, nu_c_p2 = (split_vector(i) for i in range(4))
+        y_p1, u_p2, nu_p1_c, nu_c_p2 = self._split_theta(theta)
         u_c = raw_solution_dict["x"]
         y_c = u_c
 
@@ -130,7 +112,7 @@ class IntermediaryNodeSolutionMethod(AugmentedLagrangian):
         errors = DM([mmax(fabs(row)) for row in vertsplit(vertcat(rel_alg, rel_eq), 1)])
 
         nu_tilde = {
-            el: vertcat(nu_p1_c_next_el.T, nu_c_p2_next_el.T)
+            el: vertcat(vec(nu_p1_c_next_el.T), vec(nu_c_p2_next_el.T))
             for el, (nu_p1_c_next_el, nu_c_p2_next_el) in enumerate(
                 zip(
                     horzsplit(nu_p1_c_next, self.options.degree),
@@ -168,13 +150,7 @@ class IntermediaryNodeSolutionMethod(AugmentedLagrangian):
         theta_k = self.join_nu_to_theta(theta, self.nu)
         p_k = vertcat(p, self.mu) if p is not None else self.mu
 
-        split_vector = lambda ind: horzcat(
-            *[
-                vertsplit(theta_k[el], self.options.degree)[ind].T
-                for el in range(self.options.finite_elements)
-            ]
-        )
-        y_p1, u_p2, nu_p1_c, nu_c_p2 = (split_vector(i) for i in range(4))
+        y_p1, u_p2, nu_p1_c, nu_c_p2 = self._split_theta(theta_k)
 
         u_c = self.u_c_function(p_k[0], y_p1, u_p2, nu_p1_c, nu_c_p2)
         raw_solution_dict = {"x": u_c}
-- 
2.43.0


From 46b3bde2d64b65071386cd8553f37deb4b6e7b0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:03 +0000
Subject: [PATCH 69/80] fix: intermediary nodes use the penalty of each
 equation

---
 .../intermediary_node_solution_method.py      | 20 +++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/yaocptool/methods/network/intermediary_node_solution_method.py b/yaocptool/methods/network/intermediary_node_solution_method.py
index 426438c..971ab7a 100644
--- a/yaocptool/methods/network/intermediary_node_solution_method.py
+++ b/yaocptool/methods/network/intermediary_node_solution_method.py
@@ -9,6 +9,7 @@ from casadi.casadi import (
     horzcat,
     horzsplit,
     mmax,
+    repmat,
     vec,
     vertcat,
     vertsplit,
@@ -32,7 +33,8 @@ class IntermediaryNodeSolutionMethod(AugmentedLagrangian):
 
     def _create_solve_function(self):
         mu_k, y_p1, u_p2, nu_p1_c, nu_c_p2 = self._get_symb_variables()
-        u_c = (nu_c_p2 - nu_p1_c) / (2 * mu_k) + (y_p1 + u_p2) / 2
+        mu_p1, mu_p2 = self._split_mu(mu_k)
+        u_c = (nu_c_p2 - nu_p1_c + mu_p1 * y_p1 + mu_p2 * u_p2) / (mu_p1 + mu_p2)
 
         return Function("f_u_c", [mu_k, y_p1, u_p2, nu_p1_c, nu_c_p2], [u_c])
 
@@ -42,8 +44,9 @@ class IntermediaryNodeSolutionMethod(AugmentedLagrangian):
         u_c = MX.sym("u_c", y_p1.shape)
         y_c = MX.sym("y_c", u_p2.shape)
 
-        nu_p1_c_next = nu_p1_c + mu_k * (u_c - y_p1)
-        nu_c_p2_next = nu_c_p2 + mu_k * (u_p2 - y_c)
+        mu_p1, mu_p2 = self._split_mu(mu_k)
+        nu_p1_c_next = nu_p1_c + mu_p1 * (u_c - y_p1)
+        nu_c_p2_next = nu_c_p2 + mu_p2 * (u_p2 - y_c)
 
         algebraic_error = u_c - y_p1
         equality_error = u_p2 - y_c
@@ -55,7 +58,7 @@ class IntermediaryNodeSolutionMethod(AugmentedLagrangian):
         )
 
     def _get_symb_variables(self):
-        mu_k = MX.sym("mu_k")
+        mu_k = MX.sym("mu_k", 2 * self._n_connections)
 
         # a row for each connected variable, a column for each interpolation point
         n_points = self.options.finite_elements * self.options.degree
@@ -69,6 +72,11 @@ class IntermediaryNodeSolutionMethod(AugmentedLagrangian):
     def _n_connections(self) -> int:
         return len(self.relax_algebraic_index)
 
+    def _split_mu(self, mu: MX):
+        # each relaxed equation has its own penalty
+        n_points = self.options.finite_elements * self.options.degree
+        return (repmat(val, 1, n_points) for val in vertsplit(mu, self._n_connections))
+
     def _split_theta(self, theta: Dict[int, DM]):
         # y_p1, u_p2, nu_p1_c, nu_c_p2: one after the other, by variable
         elements = [
@@ -106,7 +114,7 @@ class IntermediaryNodeSolutionMethod(AugmentedLagrangian):
         y_c = u_c
 
         (nu_p1_c_next, nu_c_p2_next, rel_alg, rel_eq) = self.new_nu_func(
-            p[0], y_p1, u_p2, nu_p1_c, nu_c_p2, u_c, y_c
+            p, y_p1, u_p2, nu_p1_c, nu_c_p2, u_c, y_c
         )
 
         errors = DM([mmax(fabs(row)) for row in vertsplit(vertcat(rel_alg, rel_eq), 1)])
@@ -152,7 +160,7 @@ class IntermediaryNodeSolutionMethod(AugmentedLagrangian):
 
         y_p1, u_p2, nu_p1_c, nu_c_p2 = self._split_theta(theta_k)
 
-        u_c = self.u_c_function(p_k[0], y_p1, u_p2, nu_p1_c, nu_c_p2)
+        u_c = self.u_c_function(p_k, y_p1, u_p2, nu_p1_c, nu_c_p2)
         raw_solution_dict = {"x": u_c}
 
         return self.create_optimization_result(raw_solution_dict, p_k, theta_k)
-- 
2.43.0


From 0b0d0778f9f8d9439199cc82c8f5d1267e18c39e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:43 +0000
Subject: [PATCH 70/80] fix: workers use the results of the previous blocks

---
 yaocptool/methods/network/distributedaugmetedlagrangian.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/yaocptool/methods/network/distributedaugmetedlagrangian.py b/yaocptool/methods/network/distributedaugmetedlagrangian.py
index 6c2d944..7ec3bc4 100644
--- a/yaocptool/methods/network/distributedaugmetedlagrangian.py
+++ b/yaocptool/methods/network/distributedaugmetedlagrangian.py
@@ -342,6 +342,8 @@ class DistributedAugmentedLagrangian(SolutionMethodInterface):
                     if result.success
                 }
             )
+            # the next blocks use the results of this one
+            self._last_result.update(result_dict)
 
         return result_dict
 
-- 
2.43.0


From ae36d2fff99938ba8051a7ee3d376830793c30df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:25 +0000
Subject: [PATCH 71/80] fix: order of the interpolation parameters of vector
 connections

---
 yaocptool/methods/network/distributedaugmetedlagrangian.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/yaocptool/methods/network/distributedaugmetedlagrangian.py b/yaocptool/methods/network/distributedaugmetedlagrangian.py
index 7ec3bc4..1d0a3ad 100644
--- a/yaocptool/methods/network/distributedaugmetedlagrangian.py
+++ b/yaocptool/methods/network/distributedaugmetedlagrangian.py
@@ -13,7 +13,7 @@ from dataclasses import asdict, dataclass, field
 from typing import Dict, List, Literal, Optional, Tuple, Type, Union, cast
 
 import matplotlib.pyplot as plt
-from casadi import DM, SX, inf, inv, vertcat
+from casadi import DM, SX, inf, inv, reshape, vec, vertcat
 from erised import Proxy
 
 from yaocptool import create_polynomial_approximation, find_variables_indices_in_vector
@@ -174,12 +174,14 @@ class DistributedAugmentedLagrangian(SolutionMethodInterface):
 
     def _create_variable_approx(self, var: SX, tau: SX) -> Tuple[SX, SX]:
         approx_name = [var[i].name() + "_appr" for i in range(var.numel())]
-        return create_polynomial_approximation(
+        approx, par = create_polynomial_approximation(
             tau,
             var.shape[0],
             self.options.degree,
             name=approx_name,
         )
+        # variable by variable, the order of the values in theta
+        return approx, vec(reshape(par, var.shape[0], self.options.degree).T)
 
     def _get_variable_last_result(
         self,
-- 
2.43.0


From f43e6d9874425bad11909d6bd7b0c23a574e6e24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:05 +0000
Subject: [PATCH 72/80] fix: bipartite method indexes the variables of the
 problem

---
 yaocptool/methods/network/bipartite_jacobi_admm.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/yaocptool/methods/network/bipartite_jacobi_admm.py b/yaocptool/methods/network/bipartite_jacobi_admm.py
index 71a8002..f55ee6a 100644
--- a/yaocptool/methods/network/bipartite_jacobi_admm.py
+++ b/yaocptool/methods/network/bipartite_jacobi_admm.py
@@ -87,8 +87,8 @@ class BipartiteJacobiADMM(DistributedAugmentedLagrangian):
             y = connections["y"]
             u = connections["u"]
 
-            y_indices = find_variables_indices_in_vector(y, p.model.y)
-            u_indices = find_variables_indices_in_vector(u, node.model.u)
+            y_indices = find_variables_indices_in_vector(y, p.problem.model.y)
+            u_indices = find_variables_indices_in_vector(u, node.problem.model.u)
             for ind in y_indices:
                 y_data = self._get_variable_last_result(p, "y", ind)
                 for i in range(self.options.finite_elements):
@@ -103,8 +103,8 @@ class BipartiteJacobiADMM(DistributedAugmentedLagrangian):
             y = connections["y"]
             u = connections["u"]
 
-            u_indices = find_variables_indices_in_vector(u, s.model.u)
-            y_indices = find_variables_indices_in_vector(y, node.model.y)
+            u_indices = find_variables_indices_in_vector(u, s.problem.model.u)
+            y_indices = find_variables_indices_in_vector(y, node.problem.model.y)
             for ind in u_indices:
                 u_data = self._get_variable_last_result(s, "u", ind)
                 for i in range(self.options.finite_elements):
-- 
2.43.0


From ef7eaa96fba999592f4534874e31cf67f677671e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:13:25 +0000
Subject: [PATCH 73/80] fix: plant dataset sizes its measurement entries by the
 measurement

---
 yaocptool/mpc/plant.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/yaocptool/mpc/plant.py b/yaocptool/mpc/plant.py
index 09180af..193f6ba 100644
--- a/yaocptool/mpc/plant.py
+++ b/yaocptool/mpc/plant.py
@@ -97,11 +97,10 @@ class PlantSimulation(PlantInterface):
 
         self._iterations = 0
 
-        self._initialize_dataset()
-
         meas_data = self._measure(self.x, self.y_guess)
         self.measurement = meas_data["measurement"]
 
+        self._initialize_dataset()
         self._save_data(self.x, self.y_guess, self.u, **meas_data)
         if self.has_noise and self.noise_seed is not None:
             numpy.random.seed(self.noise_seed)
@@ -236,13 +235,14 @@ class PlantSimulation(PlantInterface):
             plot_style="step",
         )
 
+        n_meas = self.measurement.numel()
         self.dataset.create_entry(
             "meas_wo_noise",
-            self.model.n_x,
-            ["meas_wo_noise_" + str(i) for i in range(self.model.n_x)],
+            n_meas,
+            ["meas_wo_noise_" + str(i) for i in range(n_meas)],
         )
         self.dataset.create_entry(
             "meas",
-            self.model.n_x,
-            ["meas_" + str(i) for i in range(self.model.n_x)],
+            n_meas,
+            ["meas_" + str(i) for i in range(n_meas)],
         )
-- 
2.43.0


From 5ab0be4a87b2b30c4a99c713b7fad8f3e8af9086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:12 +0000
Subject: [PATCH 74/80] fix: a vector with a foreign variable is not in the
 model

---
 yaocptool/modelling/system_model.py | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/yaocptool/modelling/system_model.py b/yaocptool/modelling/system_model.py
index 72fc1a6..f269842 100644
--- a/yaocptool/modelling/system_model.py
+++ b/yaocptool/modelling/system_model.py
@@ -343,18 +343,17 @@ class SystemModel(ContinuousStateMixin, AlgebraicMixin, ControlMixin, ParameterM
         :param casadi.SX var: variable to be checked if it is in the SystemModel
         """
 
-        ind = find_variables_indices_in_vector(
-            var,
-            vertcat(
-                self.x,
-                self.y,
-                self.u,
-                self.p,
-                self.theta,
-                self.u_par,
-            ),
+        all_variables = vertcat(
+            self.x,
+            self.y,
+            self.u,
+            self.p,
+            self.theta,
+            self.u_par,
+        )
+        return var.numel() > 0 and all(
+            len(find_variables_indices_in_vector(v, all_variables)) > 0 for v in var.nz
         )
-        return len(ind) > 0
 
     def is_parametrized(self) -> bool:
         """
-- 
2.43.0


From 2593755d88d664a45520472b3416ece8b8736fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:56:12 +0000
Subject: [PATCH 75/80] fix: the table of a data set skips entries without
 samples

---
 yaocptool/modelling/dataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yaocptool/modelling/dataset.py b/yaocptool/modelling/dataset.py
index e45e689..4011e69 100644
--- a/yaocptool/modelling/dataset.py
+++ b/yaocptool/modelling/dataset.py
@@ -26,7 +26,7 @@ class Entry:
 
     @property
     def is_empty(self):
-        return not len(self.names)
+        return not len(self.names) or not self.time.numel()
 
 
 class DataSet:
-- 
2.43.0


From 50bdd40af2a546c578e3543cbf970d0100de1088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:04:53 +0000
Subject: [PATCH 76/80] fix: PCE conversion keeps the stochastic problem's own
 constraint times

---
 yaocptool/stochastic/pce.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/yaocptool/stochastic/pce.py b/yaocptool/stochastic/pce.py
index 79a7e22..5bc8363 100644
--- a/yaocptool/stochastic/pce.py
+++ b/yaocptool/stochastic/pce.py
@@ -321,8 +321,8 @@ class PCEConverter:
 
         problem.g_eq = substitute(self.socp.g_eq, original_vars, new_vars)
         problem.g_ineq = substitute(self.socp.g_ineq, original_vars, new_vars)
-        problem.time_g_eq = self.socp.time_g_eq
-        problem.time_g_ineq = self.socp.time_g_ineq
+        problem.time_g_eq = list(self.socp.time_g_eq)
+        problem.time_g_ineq = list(self.socp.time_g_ineq)
 
         for i in range(self.socp.n_uncertain_initial_condition):
             ind = self.socp.get_uncertain_initial_cond_indices()[i]
-- 
2.43.0


From d42420a97b31699e9ae2aaa133c9847e66dbd66f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:04:57 +0000
Subject: [PATCH 77/80] fix: a PCE conversion can be repeated

---
 yaocptool/stochastic/pce.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/yaocptool/stochastic/pce.py b/yaocptool/stochastic/pce.py
index 5bc8363..fe09332 100644
--- a/yaocptool/stochastic/pce.py
+++ b/yaocptool/stochastic/pce.py
@@ -170,10 +170,10 @@ class PCEConverter:
     def _include_statistics_eqs_of_stochastic_variables(
         self, exp_phi, ls_factor, model, problem
     ):
-        self.stochastic_variables = vertcat(*self.stochastic_variables)
+        stochastic_variables = vertcat(*self.stochastic_variables)
 
-        for i in range(self.stochastic_variables.numel()):
-            var = self.stochastic_variables[i]
+        for i in range(stochastic_variables.numel()):
+            var = stochastic_variables[i]
             if var.is_symbolic():
                 name = var.name()
             else:
-- 
2.43.0


From 99b2a1700e470307d4f429a99e5edd028384c0b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:10:00 +0000
Subject: [PATCH 78/80] fix: the indirect method leaves the caller's bound
 vectors alone

---
 yaocptool/methods/classic/indirectmethod.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/yaocptool/methods/classic/indirectmethod.py b/yaocptool/methods/classic/indirectmethod.py
index 6500232..81ef2b6 100644
--- a/yaocptool/methods/classic/indirectmethod.py
+++ b/yaocptool/methods/classic/indirectmethod.py
@@ -54,6 +54,12 @@ class IndirectMethod(SolutionMethodsBase):
         self.replace_with_optimal_control(u_opt)
 
     def _check_bounds(self):
+        # the given bounds may also be used elsewhere, edit a copy of them
+        self.problem.x_min = DM(self.problem.x_min)
+        self.problem.x_max = DM(self.problem.x_max)
+        self.problem.y_min = DM(self.problem.y_min)
+        self.problem.y_max = DM(self.problem.y_max)
+
         for i in range(self.model.n_x):
             if self.problem.x_min[i] != -inf:
                 warnings.warn(
-- 
2.43.0


From 315d28925e12590e3a76609b604df3166de6ee61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:11:23 +0000
Subject: [PATCH 79/80] fix: the controller leaves the given parameter vector
 alone

---
 yaocptool/mpc/mpc.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/yaocptool/mpc/mpc.py b/yaocptool/mpc/mpc.py
index d61f5e5..a4d2821 100644
--- a/yaocptool/mpc/mpc.py
+++ b/yaocptool/mpc/mpc.py
@@ -1,5 +1,6 @@
 import itertools
 import time
+from copy import copy
 from functools import wraps
 from typing import List, Optional, Tuple
 
@@ -342,7 +343,7 @@ class MPC:
         return next_initial_guess * 1.1
 
     def _get_parameter(self, x_k, p_k):
-        p = self.p
+        p = copy(self.p)  # the given vector may also be used elsewhere
 
         if self.mean_as_parameter:
             for mean_index, p_index in self.mean_p_indices:
-- 
2.43.0


From 0445b6cc4b379252e5d7eef623583cf0fc2a6550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:13:07 +0000
Subject: [PATCH 80/80] fix: relaxing state bounds leaves the caller's bound
 vectors alone

---
 yaocptool/methods/augmented_lagrangian.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/yaocptool/methods/augmented_lagrangian.py b/yaocptool/methods/augmented_lagrangian.py
index 1625a5e..dbf6102 100644
--- a/yaocptool/methods/augmented_lagrangian.py
+++ b/yaocptool/methods/augmented_lagrangian.py
@@ -347,6 +347,10 @@ class AugmentedLagrangian(SolutionMethodInterface, metaclass=OptionsOverride):
             self.problem.time_g_eq.pop(ind)
 
     def _relax_states_constraints(self):
+        # the given bounds may also be used elsewhere, edit a copy of them
+        self.problem.x_min = DM(self.problem.x_min)
+        self.problem.x_max = DM(self.problem.x_max)
+
         for i in range(self.model.n_x):
             if self.problem.x_max[i] != inf or self.problem.x_min[i] != -inf:
                 y_x = SX.sym("y_x_" + str(i))
-- 
2.43.0

