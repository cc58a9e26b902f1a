From 5bebfa63b1bf6d8af4db2d6244bf075d253a3f7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:22 +0000
Subject: [PATCH 01/60] fix: compile equation blocks from a plain list of
 expressions

sympy's lambdify cannot print an object array of expressions, so every compiled
ODE, every DAE and every polished nonlinear solve died with a TypeError.
---
 src/sloth/core/equation_block.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/sloth/core/equation_block.py b/src/sloth/core/equation_block.py
index a613930..2da9661 100644
--- a/src/sloth/core/equation_block.py
+++ b/src/sloth/core/equation_block.py
@@ -175,7 +175,7 @@ class EquationBlock:
             if differential_form == 'elementary':
 
                 fun_ = sp.lambdify(self._var_list,
-                                   np_array(self._getEquationList(differential_form,side)),
+                                   list(self._getEquationList(differential_form,side)),
                                    [{'Min':min, 'Max':max, 'Sin':np.sin, 'Cos':np.cos}, compilation_mechanism]
                             )
 
@@ -195,7 +195,7 @@ class EquationBlock:
                 rewritten_eqs = [eq_i.subs(yd_map) for eq_i in original_eqs]
 
                 _fun_ = sp.lambdify(["t","y","yd"],
-                                   np_array(rewritten_eqs),
+                                   list(rewritten_eqs),
                                    [{'Min':min, 'Max':max, 'Sin':math.sin, 'Cos':math.cos}, compilation_mechanism]
                             )
 
@@ -208,7 +208,7 @@ class EquationBlock:
         else:
 
             fun_ = sp.lambdify(self._var_list,
-                               np_array(self._equations_list),
+                               list(self._equations_list),
                                [{'Min': min, 'Max': max, 'Sin': np.sin, 'Cos': np.cos}, compilation_mechanism]
                                )
 
-- 
2.43.0


From 73118b09b01d4a37a71677b26121f8bef3ac90c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:36 +0000
Subject: [PATCH 02/60] fix: pair derivatives, variables and algebraic flags of
 a DAE by variable

The residual addressed derivatives by their order of appearance and variables by
their order of declaration, assumed exactly one algebraic variable declared last,
flagged equations instead of variables, and corrupted the groups of linear
equations. Newer sympy also refuses the text 'y[0]' as a substitution.
---
 src/sloth/core/equation_block.py |  9 +++++----
 src/sloth/solvers.py             | 11 ++++++-----
 2 files changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/sloth/core/equation_block.py b/src/sloth/core/equation_block.py
index 2da9661..7c8e99b 100644
--- a/src/sloth/core/equation_block.py
+++ b/src/sloth/core/equation_block.py
@@ -96,11 +96,12 @@ class EquationBlock:
 
         diff_list = self._getDiffList()
 
-        yd_list = ["yd[{}]".format(i) for (i,_) in enumerate(diff_list)]
-
         var_list = self._var_list
 
-        y_list = ["y[{}]".format(i) for (i,_) in enumerate(var_list)]
+        # The derivative of a variable takes the same index of the variable itself
+        yd_list = [sp.Symbol("yd[{}]".format(var_list.index(str(diff_i.args[0])))) for diff_i in diff_list]
+
+        y_list = [sp.Symbol("y[{}]".format(i)) for (i,_) in enumerate(var_list)]
 
         yd_map = {k:v for (k,v) in zip(diff_list,yd_list)}
 
@@ -124,7 +125,7 @@ class EquationBlock:
 
             eq = eqi._getSymbolicObject('residual','rhs')
 
-            _ = [diff_list.append(abs(i).args[0]) for i in eq.args if 'Derivative' in sp.srepr(i)]
+            _ = [diff_list.append(i) for i in sorted(eq.atoms(sp.Derivative), key=str) if i not in diff_list]
 
         return diff_list
 
diff --git a/src/sloth/solvers.py b/src/sloth/solvers.py
index f06de13..4338b52 100644
--- a/src/sloth/solvers.py
+++ b/src/sloth/solvers.py
@@ -892,7 +892,7 @@ class DaeSolver(Solver):
 
         nlin_eqs = self.problem.equation_block._equation_groups['nonlinear']
 
-        return diff_eqs, lin_eqs.append(nlin_eqs)
+        return diff_eqs, lin_eqs + nlin_eqs
 
     def solve(self, conf_args={}):
 
@@ -920,11 +920,12 @@ class DaeSolver(Solver):
 
         #Adopted nomenclature for search for initial conditions defined in the Problem object for differential expressions is original_name+'_d' (eg: u_d)
 
-        yd_0 = [initial_conditions[str(diff_i.args[0])+'_d'] for diff_i in ydmap.keys()]
+        # The derivatives follow the order of the variables, being zero for the algebraic ones
+        diff_names = [str(diff_i.args[0]) for diff_i in self.problem.equation_block._getDiffList()]
 
-        if self.solver == None or self.solver == 'IDA':
+        yd_0 = [initial_conditions[var_i+'_d'] if var_i in diff_names else 0. for var_i in ymap.keys()]
 
-            yd_0.append(0.)
+        if self.solver == None or self.solver == 'IDA':
 
             # ========= SET SOLVER INSTANCES ==============
 
@@ -935,7 +936,7 @@ class DaeSolver(Solver):
                                                 name='IDA'
                                         )
 
-            problem_instance.algvar = self.problem.equation_block._getBooleanDiffFlagsForEquations()
+            problem_instance.algvar = [float(var_i in diff_names) for var_i in ymap.keys()]
 
             solver_instance = IDA(problem_instance)
 
-- 
2.43.0


From bbfd766b7cd77f8a4272c35dbe1cff8782e04c84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:57 +0000
Subject: [PATCH 03/60] fix: register dynamic results under the column of their
 own variable

Results follow the order of the equations, the columns of the domain the order in
which variables were distributed; when both differ every curve got another's name.
---
 src/sloth/solvers.py | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/src/sloth/solvers.py b/src/sloth/solvers.py
index 4338b52..160c3e4 100644
--- a/src/sloth/solvers.py
+++ b/src/sloth/solvers.py
@@ -105,6 +105,26 @@ class Solver:
 
         self.additional_configurations = additional_configurations
 
+    def _arrangeForDomain(self, var_names, Y):
+
+        """
+        Arrange the columns of the results in the same order of the dependent objects of the domain in which they will be registered
+
+        :param list(str) var_names:
+            Name of the variables corresponding to each one of the columns of the results
+
+        :param numpy.array Y:
+            Results obtained, with one column for each variable
+        """
+
+        domain_names = list(self.domain.dependent_objs.keys())
+
+        if sorted(domain_names) == sorted(var_names):
+
+            Y = np.array(Y)[:, [var_names.index(name_i) for name_i in domain_names]]
+
+        return Y
+
     def _printSolvingInfo(self, solution_dict):
 
         """
@@ -763,7 +783,7 @@ class DSolver(Solver):
             # print("Y.shape=",Y.shape," time_points.shape=",time_points.shape)
             # print("RESULT: \n",Y)
 
-            to_register_ = np.hstack((time_points.reshape(-1,1), Y))
+            to_register_ = np.hstack((time_points.reshape(-1,1), self._arrangeForDomain(Y_names, Y)))
 
         if self.solver == 'CVODE':
 
@@ -773,7 +793,7 @@ class DSolver(Solver):
             #print("Y.shape=",Y.shape," time_points.shape=",time_points.shape)
             #print("RESULT: \n",Y)
 
-            to_register_ = np.hstack((time_points.reshape(-1,1), Y))
+            to_register_ = np.hstack((time_points.reshape(-1,1), self._arrangeForDomain(Y_names, Y)))
 
         if self.additional_configurations['print_output'] == True:
 
@@ -962,7 +982,7 @@ class DaeSolver(Solver):
 
             #================================================
 
-        to_register_ = np.hstack((np.array(time_points).reshape(-1,1), Y))
+        to_register_ = np.hstack((np.array(time_points).reshape(-1,1), self._arrangeForDomain(list(ymap.keys()), Y)))
 
         if self.additional_configurations['print_output'] == True:
 
-- 
2.43.0


From b07a4d4645edc6d0b8ad864d67b49cb9c30362af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:58 +0000
Subject: [PATCH 04/60] fix: start CVODE at the configured initial time

The initial conditions were always imposed at t=0, whatever initial_time was.
---
 src/sloth/solvers.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/sloth/solvers.py b/src/sloth/solvers.py
index 160c3e4..d602859 100644
--- a/src/sloth/solvers.py
+++ b/src/sloth/solvers.py
@@ -761,6 +761,7 @@ class DSolver(Solver):
 
             exp_mod = Explicit_Problem(diffYinterfaceForAssimuloSolvers,
                                         Y_0,
+                                        initial_time,
                                         name='CVODE')
             exp_sim = CVode(exp_mod)
             exp_sim.discr='BDF'
-- 
2.43.0


From 15b3ae4479e18eb83125d7b1f8e24e586dbfed8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:12 +0000
Subject: [PATCH 05/60] fix: do not share the names of arguments between
 simulations

The default list of setConfigurations was appended to by the solvers, so the time
variable of one simulation turned up in the configurations of every later one.
---
 src/sloth/simulation.py | 4 +++-
 src/sloth/solvers.py    | 4 ++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/sloth/simulation.py b/src/sloth/simulation.py
index 7cfbd89..0d46a42 100644
--- a/src/sloth/simulation.py
+++ b/src/sloth/simulation.py
@@ -106,7 +106,7 @@ class Simulation:
                           time_variable_name=None,
                           initial_guess={},
                           initial_guess_solver=None,
-                          arg_names=[],
+                          arg_names=None,
                           args=[],
                           verbosity_solver=0,
                           number_of_time_steps=100,
@@ -127,6 +127,8 @@ class Simulation:
             Dictionary containing configurations for override all Simulation.runSimulation arguments with those defined in it. Tipically used for performing consecutive simulations (eg: optimization) or using predefined simulation configurations
         """
 
+        arg_names = [] if arg_names is None else list(arg_names)
+
         default_simulation_configurations = {'compile_equations': compile_equations,
                                              'domain': domain,
                                              'time_variable_name': time_variable_name,
diff --git a/src/sloth/solvers.py b/src/sloth/solvers.py
index d602859..bdbf244 100644
--- a/src/sloth/solvers.py
+++ b/src/sloth/solvers.py
@@ -649,7 +649,7 @@ class DSolver(Solver):
 
                 #====== Reorder global_dict from _var_list from equation_block ========
 
-                keys_ = self.problem.equation_block._var_list
+                keys_ = list(self.problem.equation_block._var_list)
                 keys_.extend([i for i in list(global_dict.keys()) if i not in keys_])
 
                 global_dict = {k:global_dict[k] for k in keys_}
@@ -704,7 +704,7 @@ class DSolver(Solver):
 
                 #====== Reorder global_dict from _var_list from equation_block ========
 
-                keys_ = self.problem.equation_block._var_list
+                keys_ = list(self.problem.equation_block._var_list)
                 keys_.extend([i for i in list(global_dict.keys()) if i not in keys_])
 
                 global_dict = {k:global_dict[k] for k in keys_}
-- 
2.43.0


From 4692c29504d7d323ec5839c026e5f97fda1341f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:12 +0000
Subject: [PATCH 06/60] fix: accept the time variable names of the problem in a
 DAE

Without an explicit name the configuration holds the list of the problem, which
was looked up as a dictionary key (TypeError).
---
 src/sloth/solvers.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/sloth/solvers.py b/src/sloth/solvers.py
index bdbf244..034fe66 100644
--- a/src/sloth/solvers.py
+++ b/src/sloth/solvers.py
@@ -841,7 +841,15 @@ class DaeSolver(Solver):
 
         arg_names = additional_configurations['arg_names']
 
-        if time_variable_name not in problem.initial_conditions:
+        if isinstance(time_variable_name, list):
+
+            has_initial_time_condition_declared = all(t_i in problem.initial_conditions for t_i in time_variable_name)
+
+        else:
+
+            has_initial_time_condition_declared = time_variable_name in problem.initial_conditions
+
+        if has_initial_time_condition_declared is not True:
 
             raise AbsentRequiredObjectError("initial condition for time variable (%s)"%time_variable_name)
 
-- 
2.43.0


From ebf5ca7484baceede76e0817952d314b4141daa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:12 +0000
Subject: [PATCH 07/60] fix: keep the column names when values are appended to
 a domain

The second registration took the row index as header and raised. Drops the debug
print of the whole domain on every access as well.
---
 src/sloth/core/domain.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/sloth/core/domain.py b/src/sloth/core/domain.py
index a686c57..3e2e880 100644
--- a/src/sloth/core/domain.py
+++ b/src/sloth/core/domain.py
@@ -98,8 +98,6 @@ class Domain:
 
             dep_headers = [dep_headers]
 
-        print("self.values:",self.values)
-
         return np.array([self.values[i][j].values for (i,j) in product(ind_vars,dep_headers)])
 
 
@@ -177,7 +175,7 @@ class Domain:
 
         elif self.values[var.name].values.size > 0 and values.shape[1] == len(self.independent_vars.keys())+len(self.dependent_objs.keys()):
 
-            self.values[var.name] = pd.DataFrame(np.vstack((self.values[var.name].values, values)),columns=self.values[var.name].index)
+            self.values[var.name] = pd.DataFrame(np.vstack((self.values[var.name].values, values)),columns=self.values[var.name].columns)
 
         else:
 
-- 
2.43.0


From e0380d4ea98fc4bd998e0198f3a7979573fe74d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:25 +0000
Subject: [PATCH 08/60] fix: evaluate an equation with the values of its
 quantities by default

eval() and getResidual() without a map handed the Quantity objects themselves to
sympy, which cannot turn them into numbers (SympifyError).
---
 src/sloth/core/equation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sloth/core/equation.py b/src/sloth/core/equation.py
index 698ed93..1c029af 100644
--- a/src/sloth/core/equation.py
+++ b/src/sloth/core/equation.py
@@ -427,7 +427,8 @@ class Equation:
 
         if symbolic_map == None:
 
-            symbolic_map_ = self.equation_expression.symbolic_map
+            # Current value of the quantities
+            symbolic_map_ = {k:qty_i.value for k,qty_i in self.equation_expression.symbolic_map.items()}
 
         else:
 
-- 
2.43.0


From 1e811f6703766f7e17e1ac9807664158ab9c5bb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:25 +0000
Subject: [PATCH 09/60] fix: keep the objects declared by an equation

setResidual stored the None returned by _sweepObjects.
---
 src/sloth/core/equation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sloth/core/equation.py b/src/sloth/core/equation.py
index 1c029af..8a469c5 100644
--- a/src/sloth/core/equation.py
+++ b/src/sloth/core/equation.py
@@ -375,7 +375,7 @@ class Equation:
 
             self.equation_form = 'elementary'
 
-            self.objects_declared = self._sweepObjects()
+            self._sweepObjects()
 
             self._getTypeFromExpression()
 
@@ -385,7 +385,7 @@ class Equation:
 
             self.equation_expression = equation_expression
 
-            self.objects_declared = self._sweepObjects()
+            self._sweepObjects()
 
             self._getTypeFromExpression()
 
-- 
2.43.0


From a750cdf35c0fa371b41c13b644a52bcbcbea826c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:25 +0000
Subject: [PATCH 10/60] fix: accept numbers in the transcendental functions

Log, Exp, Sin and the others raised NameError for the documented (float, int).
---
 src/sloth/core/equation_operators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sloth/core/equation_operators.py b/src/sloth/core/equation_operators.py
index 582e8c3..aeeab5f 100644
--- a/src/sloth/core/equation_operators.py
+++ b/src/sloth/core/equation_operators.py
@@ -46,7 +46,7 @@ def wrapper(own_func, obj, base_func, latex_func_name=None, equation_type=None,
                                   variable_map={},
                                   unit_object=dimless,
                                   latex_text=f_name(latex_func_name, str(obj)),
-                                  repr_symbolic=base_func(obj, *args,evaluate=False)
+                                  repr_symbolic=base_func(obj, evaluate=False)
                                 )
 
             return enode_
-- 
2.43.0


From d4e5d39626a4fdc489ddee7ea1a5560a1d871d94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:50 +0000
Subject: [PATCH 11/60] fix: compare dimensions in Min and Max, and classify
 them as nonlinear

With ENODE objects only, the dimensions were compared to the ENODE itself, so Min
and Max always failed (with a NameError); the resulting expression claimed to be
linear in its variables.
---
 src/sloth/core/equation_operators.py | 55 +++++++++++++++-------------
 1 file changed, 29 insertions(+), 26 deletions(-)

diff --git a/src/sloth/core/equation_operators.py b/src/sloth/core/equation_operators.py
index aeeab5f..32d0638 100644
--- a/src/sloth/core/equation_operators.py
+++ b/src/sloth/core/equation_operators.py
@@ -5,6 +5,7 @@ All those functions return EquationNode objects.
 import sympy as sp
 import numpy as np
 from .expression_evaluation import EquationNode
+from .error_definitions import DimensionalCoherenceError
 from .template_units import dimless
 # import error_definitions as errors
 
@@ -126,6 +127,8 @@ def Min(*obj):
 
     obj_symb_objcts = []
 
+    obj_repr_objcts = [obj_i.repr_symbolic if isinstance(obj_i, EquationNode) else obj_i for obj_i in obj]
+
     for obj_i in obj:
 
         if hasattr(obj_i,'obj_latex_name'):
@@ -182,23 +185,18 @@ def Min(*obj):
 
         obj_dims = dimless
 
-    elif all(isinstance(obj_i, EquationNode) for obj_i in obj):
-
-        if all(the_unit == obj[0].unit_object for the_unit in obj):
-
-            obj_dims = obj[0].unit_object
-
-        else:
+    else:
 
-            raise UnexpectedValueError("A set of objects with equivalent dimensions")
+        # Numbers assume the dimension of the ENODE objects, which should be coherent
+        obj_units = [obj_i.unit_object for obj_i in obj if hasattr(obj_i,'unit_object')]
 
-    else:
+        obj_dims = obj_units[0]
 
-        obj_dims = [obj_i.unit_object for obj_i in obj if hasattr(obj_i,'unit_object')][0]
+        for unit_i in obj_units[1:]:
 
-        if obj_dims is []:
+            if obj_dims._check_dimensional_coherence(unit_i) is not True:
 
-            obj_dims = dimless
+                raise DimensionalCoherenceError(obj_dims, unit_i)
 
     enode_ = EquationNode(name=f_name,
                           symbolic_object=sp.Min(*obj_symb_objcts, evaluate=False),
@@ -206,9 +204,13 @@ def Min(*obj):
                           variable_map=obj_var_map,
                           unit_object=obj_dims,
                           latex_text=latex_func_name,
-                          repr_symbolic=sp.Min(*obj_symb_objcts, evaluate=False)
+                          repr_symbolic=sp.Min(*obj_repr_objcts, evaluate=False)
                         )
 
+    if obj_var_map != {}:
+
+        enode_.equation_type = {'is_linear':False, 'is_nonlinear':True, 'is_differential':False}
+
     return enode_
 
 def Max(*obj):
@@ -225,6 +227,8 @@ def Max(*obj):
 
     obj_symb_objcts = []
 
+    obj_repr_objcts = [obj_i.repr_symbolic if isinstance(obj_i, EquationNode) else obj_i for obj_i in obj]
+
     for obj_i in obj:
 
         if hasattr(obj_i,'obj_latex_name'):
@@ -280,23 +284,18 @@ def Max(*obj):
 
         obj_dims = dimless
 
-    elif all(isinstance(obj_i, EquationNode) for obj_i in obj):
-
-        if all(the_unit == obj[0].unit_object for the_unit in obj):
-
-            obj_dims = obj[0].unit_object
-
-        else:
+    else:
 
-            raise UnexpectedValueError("A set of objects with equivalent dimensions")
+        # Numbers assume the dimension of the ENODE objects, which should be coherent
+        obj_units = [obj_i.unit_object for obj_i in obj if hasattr(obj_i,'unit_object')]
 
-    else:
+        obj_dims = obj_units[0]
 
-        obj_dims = [obj_i.unit_object for obj_i in obj if hasattr(obj_i,'unit_object')][0]
+        for unit_i in obj_units[1:]:
 
-        if obj_dims is []:
+            if obj_dims._check_dimensional_coherence(unit_i) is not True:
 
-            obj_dims = dimless
+                raise DimensionalCoherenceError(obj_dims, unit_i)
 
     enode_ = EquationNode(name=f_name,
                           symbolic_object=sp.Max(*obj_symb_objcts, evaluate=False),
@@ -304,9 +303,13 @@ def Max(*obj):
                           variable_map=obj_var_map,
                           unit_object=obj_dims,
                           latex_text=latex_func_name,
-                          repr_symbolic=sp.Max(*obj_symb_objcts, evaluate=False)
+                          repr_symbolic=sp.Max(*obj_repr_objcts, evaluate=False)
                         )
 
+    if obj_var_map != {}:
+
+        enode_.equation_type = {'is_linear':False, 'is_nonlinear':True, 'is_differential':False}
+
     return enode_
 
 def _Diff(obj, ind_var_):
-- 
2.43.0


From 6ef3a9fb22e60794c0019ff87d3cdd727311cb51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:09 +0000
Subject: [PATCH 12/60] fix: do not classify the division by an unknown as
 linear

A specified quantity divided by a variable took the type of the variable, so such
equations were handed to the linear solvers.
---
 src/sloth/core/expression_evaluation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sloth/core/expression_evaluation.py b/src/sloth/core/expression_evaluation.py
index 9ff9bed..5a9262f 100644
--- a/src/sloth/core/expression_evaluation.py
+++ b/src/sloth/core/expression_evaluation.py
@@ -425,9 +425,9 @@ class EquationNode:
 
             elif self.variable_map == {} and other_obj.variable_map != {}:
 
-                # current object is a specified Quantity
+                # current object is a specified Quantity, divided by a non-specified one
 
-                enode_.equation_type = {**other_obj.equation_type}
+                enode_.equation_type = self._checkEquationTypePrecedence(other_obj.equation_type, {'is_linear':False, 'is_nonlinear':True, 'is_differential':False})
 
             else:
 
-- 
2.43.0


From d0b44f2c823555b5b8a24f1c9884432b5456ebae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:52 +0000
Subject: [PATCH 13/60] fix: keep the differential character of products,
 quotients and functions of derivatives

---
 src/sloth/core/equation_operators.py    |  2 +-
 src/sloth/core/expression_evaluation.py | 10 ++++++++--
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/sloth/core/equation_operators.py b/src/sloth/core/equation_operators.py
index 32d0638..362e148 100644
--- a/src/sloth/core/equation_operators.py
+++ b/src/sloth/core/equation_operators.py
@@ -67,7 +67,7 @@ def wrapper(own_func, obj, base_func, latex_func_name=None, equation_type=None,
                                 repr_symbolic=base_func(obj.repr_symbolic, evaluate=False)
                                 )
 
-                enode_.equation_type = equation_type_
+                enode_.equation_type = obj._checkEquationTypePrecedence(obj.equation_type, equation_type_)
 
                 return enode_
 
diff --git a/src/sloth/core/expression_evaluation.py b/src/sloth/core/expression_evaluation.py
index 5a9262f..20d555b 100644
--- a/src/sloth/core/expression_evaluation.py
+++ b/src/sloth/core/expression_evaluation.py
@@ -330,7 +330,10 @@ class EquationNode:
 
             else:
 
-                enode_.equation_type = {'is_linear':False, 'is_nonlinear':True, 'is_differential':False} # self._checkEquationTypePrecedence(self.equation_type, other_obj.equation_type)
+                enode_.equation_type = self._checkEquationTypePrecedence(
+                                            self._checkEquationTypePrecedence(self.equation_type, other_obj.equation_type),
+                                            {'is_linear':False, 'is_nonlinear':True, 'is_differential':False}
+                                        )
 
             return(enode_)
 
@@ -431,7 +434,10 @@ class EquationNode:
 
             else:
 
-                enode_.equation_type = {'is_linear':False, 'is_nonlinear':True, 'is_differential':False} # self._checkEquationTypePrecedence(self.equation_type, other_obj.equation_type)
+                enode_.equation_type = self._checkEquationTypePrecedence(
+                                            self._checkEquationTypePrecedence(self.equation_type, other_obj.equation_type),
+                                            {'is_linear':False, 'is_nonlinear':True, 'is_differential':False}
+                                        )
 
             return(enode_)
 
-- 
2.43.0


From 6274accd3ac77ccea9748f53686d70ed70aba95b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:29 +0000
Subject: [PATCH 14/60] fix: raise the dimensions of the base to a specified
 exponent

---
 src/sloth/core/expression_evaluation.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/sloth/core/expression_evaluation.py b/src/sloth/core/expression_evaluation.py
index 20d555b..276ef06 100644
--- a/src/sloth/core/expression_evaluation.py
+++ b/src/sloth/core/expression_evaluation.py
@@ -547,12 +547,22 @@ class EquationNode:
 
                 #other_obj is dimensionless
 
+                if other_obj.variable_map == {}:
+
+                    # other_obj has a known value, that multiplies the dimensions of the base
+
+                    unit_ = self.unit_object**float(other_obj.symbolic_object)
+
+                else:
+
+                    unit_ = self.unit_object**other_obj.unit_object
+
                 enode_ = self.__class__(
                                     name="**".join([self.name, other_obj.name]),
                                     symbolic_object=self.symbolic_object**other_obj.symbolic_object,
                                     symbolic_map={**self.symbolic_map, **other_obj.symbolic_map},
                                     variable_map={**self.variable_map, **other_obj.variable_map},
-                                    unit_object=self.unit_object**other_obj.unit_object,
+                                    unit_object=unit_,
                                     latex_text=self.latex_text+"^"+other_obj.latex_text,             
                                     repr_symbolic=self.repr_symbolic**other_obj.repr_symbolic   
                                     )
-- 
2.43.0


From f97e904409d0ff3ab5f94354bd673db62134ee57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:29 +0000
Subject: [PATCH 15/60] fix: keep the differential character of an exponent

---
 src/sloth/core/expression_evaluation.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/sloth/core/expression_evaluation.py b/src/sloth/core/expression_evaluation.py
index 276ef06..193074c 100644
--- a/src/sloth/core/expression_evaluation.py
+++ b/src/sloth/core/expression_evaluation.py
@@ -567,7 +567,10 @@ class EquationNode:
                                     repr_symbolic=self.repr_symbolic**other_obj.repr_symbolic   
                                     )
 
-                enode_.equation_type = self._checkEquationTypePrecedence(self.equation_type, {'is_linear':False, 'is_nonlinear':True, 'is_differential':False})
+                enode_.equation_type = self._checkEquationTypePrecedence(
+                                            self._checkEquationTypePrecedence(self.equation_type, other_obj.equation_type),
+                                            {'is_linear':False, 'is_nonlinear':True, 'is_differential':False}
+                                        )
 
                 return(enode_)
 
-- 
2.43.0


From 09a615a139e5658796ac849977ba77756ec356bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:29 +0000
Subject: [PATCH 16/60] fix: check the unit of a float given to setValue

---
 src/sloth/core/constant.py  | 4 ++--
 src/sloth/core/parameter.py | 4 ++--
 src/sloth/core/quantity.py  | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/sloth/core/constant.py b/src/sloth/core/constant.py
index a9bcc31..132fa53 100644
--- a/src/sloth/core/constant.py
+++ b/src/sloth/core/constant.py
@@ -84,14 +84,14 @@ class Constant(Quantity):
 
                 raise DimensionalCoherenceError(self.units,quantity_value.units)
 
-        elif isinstance(quantity_value, float) or isinstance(quantity_value, int) and quantity_unit==None:
+        elif (isinstance(quantity_value, float) or isinstance(quantity_value, int)) and quantity_unit==None:
 
             self.value = quantity_value
 
             self.is_specified = True
 
 
-        elif isinstance(quantity_value, float) or isinstance(quantity_value, int) and quantity_unit!=None and quantity_unit._check_dimensional_coherence(self.units):
+        elif (isinstance(quantity_value, float) or isinstance(quantity_value, int)) and quantity_unit!=None and quantity_unit._check_dimensional_coherence(self.units):
 
             self.value = quantity_value
 
diff --git a/src/sloth/core/parameter.py b/src/sloth/core/parameter.py
index 7a1e53c..39d0274 100644
--- a/src/sloth/core/parameter.py
+++ b/src/sloth/core/parameter.py
@@ -70,14 +70,14 @@ class Parameter(Quantity):
 
                 raise DimensionalCoherenceError(self.units,quantity_value.units)
 
-        elif isinstance(quantity_value, float) or isinstance(quantity_value, int) and quantity_unit==None:
+        elif (isinstance(quantity_value, float) or isinstance(quantity_value, int)) and quantity_unit==None:
 
             self.value = quantity_value
 
             self.is_specified = True
 
 
-        elif isinstance(quantity_value, float) or isinstance(quantity_value, int) and quantity_unit!=None and quantity_unit._check_dimensional_coherence(self.units):
+        elif (isinstance(quantity_value, float) or isinstance(quantity_value, int)) and quantity_unit!=None and quantity_unit._check_dimensional_coherence(self.units):
 
             self.value = quantity_value
 
diff --git a/src/sloth/core/quantity.py b/src/sloth/core/quantity.py
index 8152cc8..3454266 100644
--- a/src/sloth/core/quantity.py
+++ b/src/sloth/core/quantity.py
@@ -88,13 +88,13 @@ class Quantity:  # New-style class syntax
 
                 raise DimensionalCoherenceError(self.units,quantity_value.units)
 
-        elif isinstance(quantity_value, float) or isinstance(quantity_value, int) and quantity_unit==None:
+        elif (isinstance(quantity_value, float) or isinstance(quantity_value, int)) and quantity_unit==None:
 
             self.value = quantity_value
 
             self.is_specified = True
 
-        elif isinstance(quantity_value, float) or isinstance(quantity_value, int) and quantity_unit!=None and quantity_unit._check_dimensional_coherence(self.units):
+        elif (isinstance(quantity_value, float) or isinstance(quantity_value, int)) and quantity_unit!=None and quantity_unit._check_dimensional_coherence(self.units):
 
             self.value = quantity_value
 
-- 
2.43.0


From 4a4412339ed8df32018ee183f59db2d6c39f57e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:29 +0000
Subject: [PATCH 17/60] fix: name the result of the arithmetic of quantities,
 and divide them

---
 src/sloth/core/quantity.py | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/src/sloth/core/quantity.py b/src/sloth/core/quantity.py
index 3454266..fcab6d1 100644
--- a/src/sloth/core/quantity.py
+++ b/src/sloth/core/quantity.py
@@ -157,7 +157,7 @@ class Quantity:  # New-style class syntax
 
             # Dimensional coherence confirmed. Insert here commands
 
-            new_obj = self.__class__(units = self.units, value = self.value+other_obj.value)
+            new_obj = self.__class__(name="", units = self.units, value = self.value+other_obj.value)
 
             return new_obj
 
@@ -184,7 +184,7 @@ class Quantity:  # New-style class syntax
 
             # Dimensional coherence confirmed. Insert here commands
 
-            new_obj = self.__class__(units = self.units, value = self.value-other_obj.value)
+            new_obj = self.__class__(name="", units = self.units, value = self.value-other_obj.value)
 
             return new_obj
 
@@ -206,7 +206,7 @@ class Quantity:  # New-style class syntax
         :rtype Variable new_obj:
         """
 
-        new_obj = self.__class__(units = self.units*other_obj.units, value = self.value*other_obj.value)
+        new_obj = self.__class__(name="", units = self.units*other_obj.units, value = self.value*other_obj.value)
 
         return new_obj
 
@@ -224,10 +224,24 @@ class Quantity:  # New-style class syntax
         :rtype Variable new_obj:
         """
 
-        new_obj = self.__class__(units = self.units/other_obj.units, value = self.value/other_obj.value)
+        new_obj = self.__class__(name="", units = self.units/other_obj.units, value = self.value/other_obj.value)
 
         return(new_obj)
 
+    def __truediv__(self, other_obj):
+        """
+        Overloaded function for true division of two unit-containing-objects.
+
+        :param Variable other_obj:
+            Second Variable object to perform arithmetic operation.
+
+        :return:
+            Proto-variable returned as the result of the arithmetical operation
+        :rtype Variable new_obj:
+        """
+
+        return self.__div__(other_obj)
+
     def __pow__(self, power):
 
         """
@@ -243,6 +257,6 @@ class Quantity:  # New-style class syntax
 
         """
 
-        new_obj = self.__class__( units = self.units**power.value, value = self.value**power.value )
+        new_obj = self.__class__(name="", units = self.units**power.value, value = self.value**power.value )
 
         return(new_obj)
-- 
2.43.0


From 29f0b589976e1bb4d8e1a877faf11209ad1f027c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:18 +0000
Subject: [PATCH 18/60] fix: do not share the default ports between models

---
 src/sloth/model.py   | 4 ++--
 src/sloth/unit_op.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/sloth/model.py b/src/sloth/model.py
index 5f8b047..a1b3263 100644
--- a/src/sloth/model.py
+++ b/src/sloth/model.py
@@ -132,7 +132,7 @@ class Model:
 
     """
 
-    def __init__(self, name, description = "", property_package=None, ports={'inlets':{},'outlets':{}}, function_for_inlets_totalization = None, function_for_outlets_totalization = None):
+    def __init__(self, name, description = "", property_package=None, ports=None, function_for_inlets_totalization = None, function_for_outlets_totalization = None):
 
         """
         Instantiate Model.
@@ -194,7 +194,7 @@ class Model:
 
         self._outputs = []
 
-        self.ports = ports
+        self.ports = ports if ports is not None else {'inlets':{},'outlets':{}}
 
         self.objects_info = {}
 
diff --git a/src/sloth/unit_op.py b/src/sloth/unit_op.py
index 972ea82..34ebce6 100644
--- a/src/sloth/unit_op.py
+++ b/src/sloth/unit_op.py
@@ -17,7 +17,7 @@ class UnitOp:
     Defines the UnitOp class, that holds the capabilities for: acessing ports (inputs, outputs) from the UnitOp objects; Predefine streams for input and output, allowing to the port to be passed directly to other UnitOps
     """
 
-    def __init__(self, n_inputs=0, n_outputs=0, model=None, ports={'inlets':{},'outlets':{}}):
+    def __init__(self, n_inputs=0, n_outputs=0, model=None, ports=None):
 
         self.n_inputs = n_inputs
 
@@ -25,7 +25,7 @@ class UnitOp:
 
         self.model = model
 
-        self.ports = ports
+        self.ports = ports if ports is not None else {'inlets':{},'outlets':{}}
 
         self.property_package = model.property_package
 
-- 
2.43.0


From d15e89d7af9373fb7a3ea4c0431d084c873b3f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:18 +0000
Subject: [PATCH 19/60] fix: register an incorporated variable as exposed under
 its own type

---
 src/sloth/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sloth/model.py b/src/sloth/model.py
index a1b3263..9193e70 100644
--- a/src/sloth/model.py
+++ b/src/sloth/model.py
@@ -424,7 +424,7 @@ class Model:
 
         if var_.is_exposed == True:
 
-            self.exposed_vars[type].append(var_)
+            self.exposed_vars[var_.type].append(var_)
 
         #Adding the object to current Model as an atribute (pythonic beauty)
 
-- 
2.43.0


From 301044b3895ff7b6ec46200ec91d6c700cb273f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:18 +0000
Subject: [PATCH 20/60] fix: incorporate equations with a number on one side

---
 src/sloth/core/equation.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/sloth/core/equation.py b/src/sloth/core/equation.py
index 8a469c5..e40a2f0 100644
--- a/src/sloth/core/equation.py
+++ b/src/sloth/core/equation.py
@@ -292,17 +292,17 @@ class Equation:
                 equation_expression object.
         """
 
-        self.equation_expression.repr_symbolic = self.equation_expression.repr_symbolic.subs(names_map)
+        self.equation_expression.repr_symbolic = sp.sympify(self.equation_expression.repr_symbolic).subs(names_map)
 
-        self.equation_expression.symbolic_object = self.equation_expression.symbolic_object.subs(names_map)
+        self.equation_expression.symbolic_object = sp.sympify(self.equation_expression.symbolic_object).subs(names_map)
 
         if self.elementary_equation_expression is not None:
 
             elem_expr = list(self.elementary_equation_expression)
 
-            elem_expr[0].repr_symbolic = elem_expr[0].repr_symbolic.subs(names_map)
+            elem_expr[0].repr_symbolic = sp.sympify(elem_expr[0].repr_symbolic).subs(names_map)
 
-            elem_expr[1].repr_symbolic = elem_expr[1].repr_symbolic.subs(names_map)
+            elem_expr[1].repr_symbolic = sp.sympify(elem_expr[1].repr_symbolic).subs(names_map)
 
             try:
 
-- 
2.43.0


From d3e4c685320e98ad0bb3903583cf7bd9e912422f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:25 +0000
Subject: [PATCH 21/60] fix: report the non-exposed variables given in a list

---
 src/sloth/core/error_definitions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sloth/core/error_definitions.py b/src/sloth/core/error_definitions.py
index e11dc20..5ac0163 100644
--- a/src/sloth/core/error_definitions.py
+++ b/src/sloth/core/error_definitions.py
@@ -14,9 +14,9 @@ class ExposedVariableError(Exception):
 
         self.m2_exposed_names = [var_i.name for var_i in model_2_exposed_vars]
 
-        self.input_var_name = input_var.name
+        self.input_var_name = [var_i.name for var_i in input_var] if isinstance(input_var, list) else input_var.name
 
-        self.output_var_name = output_var.name
+        self.output_var_name = [var_i.name for var_i in output_var] if isinstance(output_var, list) else output_var.name
 
     def __str__(self):
 
-- 
2.43.0


From f6c4123b7bb650c6c60f493d31a07b1bd1cd82e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:25 +0000
Subject: [PATCH 22/60] fix: keep every connection of expressions between the
 same two models

---
 src/sloth/problem.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sloth/problem.py b/src/sloth/problem.py
index e5b231f..1fb1422 100644
--- a/src/sloth/problem.py
+++ b/src/sloth/problem.py
@@ -275,11 +275,11 @@ class Problem:
                 if model_1 is "":
                     model_1 = gen_rnd_str()
 
-                model_2.createEquation("conn_"+model_1+"-->"+model_2.name, "Connection from "+model_1+" to "+model_2.name, input_vars - output_vars, check_equation=False)
+                model_2.createEquation("conn_"+model_1+"-->"+model_2.name+"("+repr(output_vars)+"--->"+repr(input_vars)+")", "Connection from "+model_1+" to "+model_2.name, input_vars - output_vars, check_equation=False)
 
             elif isinstance(model_1, Model) is True:
 
-                model_2.createEquation("conn_"+model_1.name+"-->"+model_2.name, "Connection from "+model_1.name+" to "+model_2.name, input_vars - output_vars, check_equation=False)
+                model_2.createEquation("conn_"+model_1.name+"-->"+model_2.name+"("+repr(output_vars)+"--->"+repr(input_vars)+")", "Connection from "+model_1.name+" to "+model_2.name, input_vars - output_vars, check_equation=False)
 
             else:
 
-- 
2.43.0


From 1a2d497b27bc3257ce27b60705ed3af9eb9b66fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:12 +0000
Subject: [PATCH 23/60] fix: look for a declared variable by its symbol

---
 src/sloth/core/equation_block.py | 26 ++++++--------------------
 1 file changed, 6 insertions(+), 20 deletions(-)

diff --git a/src/sloth/core/equation_block.py b/src/sloth/core/equation_block.py
index 7c8e99b..c3a3e4b 100644
--- a/src/sloth/core/equation_block.py
+++ b/src/sloth/core/equation_block.py
@@ -267,35 +267,21 @@ class EquationBlock:
 
         else:
 
-            where_to_look = self._equations_list
+            where_to_look = self.equations
 
         for eq in where_to_look:
 
             #print("\n======>Equation: ", eq._getSymbolicObject())
 
-            try:
+            equation_ = sp.sympify(eq._getSymbolicObject('residual'))
 
-                equation_members_ = eq._getSymbolicObject().args
+            #Will not trigger for 'Derivative' terms
 
-            except:
+            equation_ = equation_.xreplace({diff_i:sp.Dummy() for diff_i in equation_.atoms(sp.Derivative)})
 
-                equation_members_ = []
+            if any(str(symbol_i) in var_name for symbol_i in equation_.free_symbols):
 
-            for eq_i in equation_members_:
-
-                #print("\n\t======>Member: ",eq_i)
-
-                #print("\n\t\t======>Has time_var_declared? : ", [ t_i in sp.srepr(eq_i) for t_i in var_name])
-
-                #Will not trigger for 'Derivative' terms
-
-                if any(var_i in sp.srepr(eq_i) and 'Derivative' not in sp.srepr(eq_i) for var_i in var_name):
-
-                    has_been_declared = True
-
-                    break
-
-            if has_been_declared is True:
+                has_been_declared = True
 
                 break
 
-- 
2.43.0


From 5a79218d017a50b0e243438dc7511c98c1068b15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:12 +0000
Subject: [PATCH 24/60] fix: use the bounds given to the optimization problem

---
 src/sloth/optimization.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/sloth/optimization.py b/src/sloth/optimization.py
index e5dd0d0..ec33f30 100644
--- a/src/sloth/optimization.py
+++ b/src/sloth/optimization.py
@@ -49,9 +49,9 @@ class OptimizationProblem:
 
         self.description = description
 
-        self.is_maximization = False
+        self.is_maximization = is_maximization
 
-        self.bounds = None
+        self.bounds = bounds
 
         self.simulation_instance = simulation_instance
 
@@ -534,7 +534,9 @@ class Optimization:
 
             self.optimization_problem._setSimulationConfiguration(self.simulation_configuration)
 
-            self.optimization_problem.setBounds(self.constraints)
+            if self.constraints is not None:
+
+                self.optimization_problem.setBounds(self.constraints)
 
             self.optimization_mechanism.set_verbosity(report_frequency)
 
-- 
2.43.0


From e53019790f2a62e5b1fa1b0c8fac95e9d2dac4bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:30 +0000
Subject: [PATCH 25/60] fix: maximize the objective function when requested

---
 src/sloth/optimization.py | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/src/sloth/optimization.py b/src/sloth/optimization.py
index ec33f30..2a6ce00 100644
--- a/src/sloth/optimization.py
+++ b/src/sloth/optimization.py
@@ -124,11 +124,27 @@ class OptimizationProblem:
 
         pass
 
+    def _evaluateFitness(self, x):
+
+        """
+        Evaluate the fitness to be minimized by the optimizer, given the objective function
+        """
+
+        objective_ = self.DeclareObjectiveFunction(x)
+
+        if self.is_maximization is True:
+
+            return [-obj_i for obj_i in objective_]
+
+        else:
+
+            return objective_
+
     def __call__(self):
 
         #Reimplement virtual methods
 
-        self.fitness = self.DeclareObjectiveFunction
+        self.fitness = self._evaluateFitness
 
         self.get_bounds = self.DeclareSetBounds
 
@@ -538,6 +554,10 @@ class Optimization:
 
                 self.optimization_problem.setBounds(self.constraints)
 
+            if self.is_maximization is True:
+
+                self.optimization_problem.is_maximization = True
+
             self.optimization_mechanism.set_verbosity(report_frequency)
 
             # Print information
@@ -556,7 +576,7 @@ class Optimization:
 
             self.best_parameters = pop.champion_x
 
-            self.best_fitness = pop.champion_f
+            self.best_fitness = -pop.champion_f if self.optimization_problem.is_maximization is True else pop.champion_f
 
             end_time = time()
 
@@ -610,7 +630,7 @@ class Optimization:
             print("\n\tOptimization ended. \n\t Elapsed time:{}".format(strftime("%H:%M:%S", gmtime(elapsed_time))))
 
             if print_output is True:
-                print("Best individual: \n%s -> finess: %s"%(pop.champion_x, pop.champion_f))
+                print("Best individual: \n%s -> finess: %s"%(self.best_parameters, self.best_fitness))
 
             self.run_sucessful=True
 
-- 
2.43.0


From 7fd071293624b1f771629ea126b93e593daf84b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:26 +0000
Subject: [PATCH 26/60] fix: solve linear problems with scipy

---
 src/sloth/solvers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sloth/solvers.py b/src/sloth/solvers.py
index 034fe66..941af73 100644
--- a/src/sloth/solvers.py
+++ b/src/sloth/solvers.py
@@ -257,9 +257,9 @@ class LASolver(Solver):
 
     def _getABfromEquations(self):
 
-        A, b = sp.linear_eq_to_matrix(self.problem.equation_block._equations_list, self.problem.equation_block._var_list)
+        A, b = sp.linear_eq_to_matrix(self.problem.equation_block._equations_list, [sp.Symbol(i) for i in self.problem.equation_block._var_list])
 
-        A, b = np.array(A, dtype=np.float64), np.array(b, dtype=np.float64)
+        A, b = np.array(A, dtype=np.float64), np.array(b, dtype=np.float64).ravel()
 
         #print("\n\nA=%s b=%s"%(A,b))
 
-- 
2.43.0


From 8763ca3e9c817ae3689bf5cfadef1488a1110dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:26 +0000
Subject: [PATCH 27/60] fix: do not report the minimum of the residuals as a
 root

---
 src/sloth/solvers.py | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/sloth/solvers.py b/src/sloth/solvers.py
index 941af73..11e0e29 100644
--- a/src/sloth/solvers.py
+++ b/src/sloth/solvers.py
@@ -355,7 +355,7 @@ class NLASolver(Solver):
 
         #print(sol_state)
 
-        if sol_state['success'] is True:
+        if sol_state['success'] is True and self._isRoot(x_out) is True:
 
             x_out_dict = {var_i: val_i for var_i, val_i in zip(var_names,x_out)}
 
@@ -367,6 +367,24 @@ class NLASolver(Solver):
 
             raise NumericalError()
 
+    def _isRoot(self, x, tol=1e-6):
+
+        """
+        Check if the residual of each equation vanishes, in comparison with its terms (the minimum of the residuals may not be a root)
+        """
+
+        x_map = {sp.Symbol(var_i):val_i for var_i, val_i in zip(self.problem.equation_block._var_list, x)}
+
+        for eq_i in self.problem.equation_block._equations_list:
+
+            terms = [complex(term_i.evalf(subs=x_map)) for term_i in sp.Add.make_args(sp.sympify(eq_i))]
+
+            if not abs(sum(terms)) <= tol*max([1.]+[abs(term_i) for term_i in terms]):
+
+                return False
+
+        return True
+
     def solve(self, verbose=True):
 
         if verbose is True:
-- 
2.43.0


From efee293ace11f03dd4d7175b758921994302d74c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:26 +0000
Subject: [PATCH 28/60] fix: plot without labels by default

---
 src/sloth/plotter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sloth/plotter.py b/src/sloth/plotter.py
index 59e92a8..6635cc2 100644
--- a/src/sloth/plotter.py
+++ b/src/sloth/plotter.py
@@ -69,7 +69,7 @@ class Plotter:
                     plt.plot(x_data[i].reshape(-1),
                              y_data[j].reshape(-1),
                              marker=markers[j],
-                             label=labels[j],
+                             label=labels[j] if labels is not None else None,
                              linewidth=linewidth
                         )
 
@@ -83,7 +83,7 @@ class Plotter:
 
                     plt.plot(x_data[i].reshape(-1),
                              y_data[j].reshape(-1),
-                             label=labels[j],
+                             label=labels[j] if labels is not None else None,
                              linewidth=linewidth
                         )
 
-- 
2.43.0


From a40c838cdce7d70dbffe0eebf6ca4cbc5f480b94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:06:43 +0000
Subject: [PATCH 29/60] fix: solve both sides of the algebraic equations in the
 elementary form

---
 src/sloth/core/equation_block.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sloth/core/equation_block.py b/src/sloth/core/equation_block.py
index c3a3e4b..48f7d65 100644
--- a/src/sloth/core/equation_block.py
+++ b/src/sloth/core/equation_block.py
@@ -299,6 +299,6 @@ class EquationBlock:
 
         self._var_list = self._getVarList()
 
-        self._equations_list = self._getEquationList()
+        self._equations_list = self._getEquationList('residual')
 
         self._assignEquationGroups()
\ No newline at end of file
-- 
2.43.0


From 54d1329ede011d0d9e5c8682d69224da2a478d64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:38 +0000
Subject: [PATCH 30/60] fix: do not share the phase names between property
 packages

---
 src/sloth/core/property_package.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sloth/core/property_package.py b/src/sloth/core/property_package.py
index 6445d64..aca5740 100644
--- a/src/sloth/core/property_package.py
+++ b/src/sloth/core/property_package.py
@@ -21,7 +21,7 @@ class PropertyPackage:
 
         self.number_of_phases = phases
 
-        self.phase_names = phase_names
+        self.phase_names = list(phase_names)
 
         self.T = 298.15
 
-- 
2.43.0


From 258f3263cea8c68e68da38202f6be13553e3f9d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:30 +0000
Subject: [PATCH 31/60] fix: keep the differential character of the arguments
 of Min and Max

---
 src/sloth/core/equation_operators.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/sloth/core/equation_operators.py b/src/sloth/core/equation_operators.py
index 362e148..46eaaa3 100644
--- a/src/sloth/core/equation_operators.py
+++ b/src/sloth/core/equation_operators.py
@@ -211,6 +211,12 @@ def Min(*obj):
 
         enode_.equation_type = {'is_linear':False, 'is_nonlinear':True, 'is_differential':False}
 
+        for obj_i in obj:
+
+            if isinstance(obj_i, EquationNode):
+
+                enode_.equation_type = obj_i._checkEquationTypePrecedence(obj_i.equation_type, enode_.equation_type)
+
     return enode_
 
 def Max(*obj):
@@ -310,6 +316,12 @@ def Max(*obj):
 
         enode_.equation_type = {'is_linear':False, 'is_nonlinear':True, 'is_differential':False}
 
+        for obj_i in obj:
+
+            if isinstance(obj_i, EquationNode):
+
+                enode_.equation_type = obj_i._checkEquationTypePrecedence(obj_i.equation_type, enode_.equation_type)
+
     return enode_
 
 def _Diff(obj, ind_var_):
-- 
2.43.0


From 9055d0916fdd0d78d8a358fe4d54055881e761e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:34 +0000
Subject: [PATCH 32/60] fix: evaluate the equations whose arguments of Min and
 Max cancel out

---
 src/sloth/core/equation.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/sloth/core/equation.py b/src/sloth/core/equation.py
index e40a2f0..afaa226 100644
--- a/src/sloth/core/equation.py
+++ b/src/sloth/core/equation.py
@@ -446,7 +446,9 @@ class Equation:
 
         else:
 
-            res = equation_expression_.symbolic_object.evalf(subs=eval_map)
+            # Substitution prior to the evaluation, as evalf(subs=...) fails for Min and Max where their arguments cancel out
+
+            res = equation_expression_.symbolic_object.subs({sp.Symbol(str(i)):j for i,j in eval_map.items()}).evalf()
 
         return res
 
-- 
2.43.0


From 1a19fc493a2aedc3e23ccd8bce7b6bd2ebb65452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:34 +0000
Subject: [PATCH 33/60] fix: do not leave the base of Log10 as an unevaluated
 argument

---
 src/sloth/core/equation_operators.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/sloth/core/equation_operators.py b/src/sloth/core/equation_operators.py
index 46eaaa3..bfec976 100644
--- a/src/sloth/core/equation_operators.py
+++ b/src/sloth/core/equation_operators.py
@@ -16,7 +16,9 @@ Transcedental functions for utilization in the equation definition
 
 def _Log10(sp_obj, evaluate=True):
 
-    return(sp.log(sp_obj,10,evaluate=evaluate))
+    # The unevaluated form with two arguments is simplified incorrectly (eg: exp(log(x,10)) to x), and can not be compiled
+
+    return(sp.log(sp_obj,evaluate=evaluate)/sp.log(10))
 
 def wrapper(own_func, obj, base_func, latex_func_name=None, equation_type=None, dim_check=True, ind_var=None):
 
-- 
2.43.0


From 7443d6e9d84bfe540d54ae16d47e3fdb9931ce77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:50 +0000
Subject: [PATCH 34/60] fix: take the objects declared after the inclusion of
 the models in the problem

---
 src/sloth/problem.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/sloth/problem.py b/src/sloth/problem.py
index 1fb1422..03dff65 100644
--- a/src/sloth/problem.py
+++ b/src/sloth/problem.py
@@ -181,6 +181,14 @@ class Problem:
                         _param_name_list.append(obj_i.name)
 
         #=================================================================
+        #Update self.variable_dict and self.parameter_dict, as the objects may have been (re)declared after the inclusion of the models
+
+        for model_i in list(self.models.values()):
+
+            self.variable_dict.update(model_i.variables)
+
+            self.parameter_dict.update(model_i.parameters)
+
         #Remove unused variables from self.variable_dict and self.param_dict
 
         variable_dict_ = OrderedDict({})
-- 
2.43.0


From b4798597e6dd475d80c330a3dcfd54b9ebc82d13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:46 +0000
Subject: [PATCH 35/60] fix: accept the solution of a linear problem that
 reaches the floating point precision

---
 src/sloth/solvers.py | 40 +++++++++++++++++++++-------------------
 1 file changed, 21 insertions(+), 19 deletions(-)

diff --git a/src/sloth/solvers.py b/src/sloth/solvers.py
index 11e0e29..ba517bd 100644
--- a/src/sloth/solvers.py
+++ b/src/sloth/solvers.py
@@ -134,6 +134,24 @@ class Solver:
 
         pass
 
+    def _isRoot(self, x, tol=1e-6):
+
+        """
+        Check if the residual of each equation vanishes, in comparison with its terms (the minimum of the residuals may not be a root)
+        """
+
+        x_map = {sp.Symbol(var_i):val_i for var_i, val_i in zip(self.problem.equation_block._var_list, x)}
+
+        for eq_i in self.problem.equation_block._equations_list:
+
+            terms = [complex(term_i.evalf(subs=x_map)) for term_i in sp.Add.make_args(sp.sympify(eq_i))]
+
+            if not abs(sum(terms)) <= tol*max([1.]+[abs(term_i) for term_i in terms]):
+
+                return False
+
+        return True
+
     def _polishRoot(self, initial_guess, polisher='hybr'):
 
         fun = self.problem.equation_block._getEquationBlockAsFunction()
@@ -243,7 +261,9 @@ class LASolver(Solver):
 
         #print(sol_state)
 
-        if sol_state['success'] is True:
+        # The tolerance may be out of the reach of the floating point precision, although the solution had been found
+
+        if sol_state['success'] is True or self._isRoot(x_out, tol=1e-12) is True:
 
             x_out_dict = {str(var_i): val_i for var_i, val_i in zip(var_names,x_out)}
 
@@ -367,24 +387,6 @@ class NLASolver(Solver):
 
             raise NumericalError()
 
-    def _isRoot(self, x, tol=1e-6):
-
-        """
-        Check if the residual of each equation vanishes, in comparison with its terms (the minimum of the residuals may not be a root)
-        """
-
-        x_map = {sp.Symbol(var_i):val_i for var_i, val_i in zip(self.problem.equation_block._var_list, x)}
-
-        for eq_i in self.problem.equation_block._equations_list:
-
-            terms = [complex(term_i.evalf(subs=x_map)) for term_i in sp.Add.make_args(sp.sympify(eq_i))]
-
-            if not abs(sum(terms)) <= tol*max([1.]+[abs(term_i) for term_i in terms]):
-
-                return False
-
-        return True
-
     def solve(self, verbose=True):
 
         if verbose is True:
-- 
2.43.0


From 04757e4f88a14e9d11deba060d70f25ddde7e2e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:29 +0000
Subject: [PATCH 36/60] fix: do not take an overflow of the residuals as a root

---
 src/sloth/solvers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sloth/solvers.py b/src/sloth/solvers.py
index ba517bd..3729126 100644
--- a/src/sloth/solvers.py
+++ b/src/sloth/solvers.py
@@ -146,7 +146,7 @@ class Solver:
 
             terms = [complex(term_i.evalf(subs=x_map)) for term_i in sp.Add.make_args(sp.sympify(eq_i))]
 
-            if not abs(sum(terms)) <= tol*max([1.]+[abs(term_i) for term_i in terms]):
+            if not (np.isfinite(terms).all() and abs(sum(terms)) <= tol*max([1.]+[abs(term_i) for term_i in terms])):
 
                 return False
 
-- 
2.43.0


From a263111a53033ce59ffbeb2fea191503474950ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:41 +0000
Subject: [PATCH 37/60] fix: solve nonlinear problems that contain absolute
 values

---
 src/sloth/solvers.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/sloth/solvers.py b/src/sloth/solvers.py
index 3729126..1d55016 100644
--- a/src/sloth/solvers.py
+++ b/src/sloth/solvers.py
@@ -367,7 +367,13 @@ class NLASolver(Solver):
 
                 initial_guess = polished_initial_guess
 
-        eqSys = SymbolicSys(var_names, equations_list)
+        # The unknowns are real, otherwise the derivatives of Abs can not be evaluated
+
+        real_symbols = {sp.Symbol(var_i):sp.Symbol(var_i, real=True) for var_i in var_names}
+
+        equations_list = [sp.sympify(eq_i).xreplace(real_symbols) for eq_i in equations_list]
+
+        eqSys = SymbolicSys(list(real_symbols.values()), equations_list)
 
         #REMOVE ME:print("\n ->initial_guess={}".format(initial_guess))
 
-- 
2.43.0


From 24dfdbd6e0e48e0dfff3d97da33a01d16e55224f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:47 +0000
Subject: [PATCH 38/60] fix: compile the differential equations that contain
 Min and Max

---
 src/sloth/core/equation_block.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/sloth/core/equation_block.py b/src/sloth/core/equation_block.py
index 48f7d65..8f905ea 100644
--- a/src/sloth/core/equation_block.py
+++ b/src/sloth/core/equation_block.py
@@ -175,8 +175,13 @@ class EquationBlock:
 
             if differential_form == 'elementary':
 
+                # Min and Max are kept as functions, as the reductions printed for numpy are not supported by numba
+
+                equation_list_ = [sp.sympify(eq_i).replace(sp.Min, sp.Function('Min')).replace(sp.Max, sp.Function('Max'))
+                                  for eq_i in self._getEquationList(differential_form,side)]
+
                 fun_ = sp.lambdify(self._var_list,
-                                   list(self._getEquationList(differential_form,side)),
+                                   equation_list_,
                                    [{'Min':min, 'Max':max, 'Sin':np.sin, 'Cos':np.cos}, compilation_mechanism]
                             )
 
-- 
2.43.0


From 735722f15c5b7f0d94fc9c36c929bf0368be5e68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:13 +0000
Subject: [PATCH 39/60] fix: do not take a specified variable for an unknown of
 the problem

---
 src/sloth/problem.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/sloth/problem.py b/src/sloth/problem.py
index 03dff65..c9218ce 100644
--- a/src/sloth/problem.py
+++ b/src/sloth/problem.py
@@ -164,7 +164,11 @@ class Problem:
 
                 for obj_i in list(eq_i.objects_declared.values()):
 
-                    if obj_i not in _var_list and isinstance(obj_i, Variable):
+                    # The value of a specified Variable was already taken by the equation, hence it is not an unknown
+
+                    is_known = obj_i.is_specified is True and obj_i.name not in eq_i.equation_expression.variable_map
+
+                    if obj_i not in _var_list and isinstance(obj_i, Variable) and not is_known:
 
                         _var_dict[obj_i.name] = obj_i
 
-- 
2.43.0


From b479566461c97abdc6bfb5974c385d1b0627aeed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:43 +0000
Subject: [PATCH 40/60] fix: evaluate Min and Max of known quantities

---
 src/sloth/core/equation_operators.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sloth/core/equation_operators.py b/src/sloth/core/equation_operators.py
index bfec976..c6803c5 100644
--- a/src/sloth/core/equation_operators.py
+++ b/src/sloth/core/equation_operators.py
@@ -201,7 +201,7 @@ def Min(*obj):
                 raise DimensionalCoherenceError(obj_dims, unit_i)
 
     enode_ = EquationNode(name=f_name,
-                          symbolic_object=sp.Min(*obj_symb_objcts, evaluate=False),
+                          symbolic_object=sp.Min(*obj_symb_objcts, evaluate=(obj_var_map == {})),
                           symbolic_map=obj_symb_map,
                           variable_map=obj_var_map,
                           unit_object=obj_dims,
@@ -306,7 +306,7 @@ def Max(*obj):
                 raise DimensionalCoherenceError(obj_dims, unit_i)
 
     enode_ = EquationNode(name=f_name,
-                          symbolic_object=sp.Max(*obj_symb_objcts, evaluate=False),
+                          symbolic_object=sp.Max(*obj_symb_objcts, evaluate=(obj_var_map == {})),
                           symbolic_map=obj_symb_map,
                           variable_map=obj_var_map,
                           unit_object=obj_dims,
-- 
2.43.0


From 3336e790673cd4c376cf601a8368fbafb453361a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:47 +0000
Subject: [PATCH 41/60] fix: compare the known arguments of Min and Max by
 value

---
 src/sloth/core/equation_operators.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/sloth/core/equation_operators.py b/src/sloth/core/equation_operators.py
index c6803c5..89c2c27 100644
--- a/src/sloth/core/equation_operators.py
+++ b/src/sloth/core/equation_operators.py
@@ -115,6 +115,12 @@ def Tan(obj):
 
     return wrapper(Tan, obj, sp.tan)
 
+def _comparable(symb_objcts):
+
+    # Known quantities are compared by value, as their expressions are not evaluated when written
+
+    return [float(obj_i) if isinstance(obj_i, sp.Expr) and obj_i.is_number and obj_i.is_extended_real else obj_i for obj_i in symb_objcts]
+
 def Min(*obj):
 
     obj = list(obj)
@@ -201,7 +207,7 @@ def Min(*obj):
                 raise DimensionalCoherenceError(obj_dims, unit_i)
 
     enode_ = EquationNode(name=f_name,
-                          symbolic_object=sp.Min(*obj_symb_objcts, evaluate=(obj_var_map == {})),
+                          symbolic_object=sp.Min(*_comparable(obj_symb_objcts), evaluate=(obj_var_map == {})),
                           symbolic_map=obj_symb_map,
                           variable_map=obj_var_map,
                           unit_object=obj_dims,
@@ -306,7 +312,7 @@ def Max(*obj):
                 raise DimensionalCoherenceError(obj_dims, unit_i)
 
     enode_ = EquationNode(name=f_name,
-                          symbolic_object=sp.Max(*obj_symb_objcts, evaluate=(obj_var_map == {})),
+                          symbolic_object=sp.Max(*_comparable(obj_symb_objcts), evaluate=(obj_var_map == {})),
                           symbolic_map=obj_symb_map,
                           variable_map=obj_var_map,
                           unit_object=obj_dims,
-- 
2.43.0


From eb15f82e92bc226353c169b8b57a7ba49efe49d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:15 +0000
Subject: [PATCH 42/60] fix: name the columns of the log of differential
 evolution

---
 src/sloth/optimization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sloth/optimization.py b/src/sloth/optimization.py
index 2a6ce00..c7ac221 100644
--- a/src/sloth/optimization.py
+++ b/src/sloth/optimization.py
@@ -419,7 +419,7 @@ class Optimization:
 
                 self._pagmo_selected_algorithm = pg.de
 
-                self._pagmo_selected_algorithm_log_columns = ['Gen', 'Fevals', 'Best', 'F', 'CR', 'dx', 'df']
+                self._pagmo_selected_algorithm_log_columns = ['Gen', 'Fevals', 'Best', 'dx', 'df']
 
                 algo = pg.algorithm(pg.de(gen=gen, F=f_w, CR = cr, variant=de_variant, ftol=de_ftol, xtol=de_xtol))
 
-- 
2.43.0


From 3ad1593be3cce82bc51d0b60a729de9ebb441ddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:15 +0000
Subject: [PATCH 43/60] fix: use the neighborhood configured for particle
 swarms

---
 src/sloth/optimization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sloth/optimization.py b/src/sloth/optimization.py
index c7ac221..404c199 100644
--- a/src/sloth/optimization.py
+++ b/src/sloth/optimization.py
@@ -456,7 +456,7 @@ class Optimization:
 
                 self._pagmo_selected_algorithm_log_columns = ['Gen', 'Fevals', 'gbest', 'Mean Vel.', 'Mean lbest', 'Avg. Dist.']
 
-                algo = pg.algorithm(pg.pso(gen=gen, omega=omega, eta1=eta1, eta2=eta2, max_vel=vcoeff,  variant=pso_variant))
+                algo = pg.algorithm(pg.pso(gen=gen, omega=omega, eta1=eta1, eta2=eta2, max_vel=vcoeff,  variant=pso_variant, neighb_type=neighb_type, neighb_param=neighb_param))
 
                 #isl = pg.island(algo, self.optimization_problem, ind)
 
-- 
2.43.0


From b51144c6d9b5c5d5577853cef110b134841f4551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:15 +0000
Subject: [PATCH 44/60] fix: accept constraints given as a dictionary of bounds

---
 src/sloth/optimization.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/sloth/optimization.py b/src/sloth/optimization.py
index 404c199..7bdfc81 100644
--- a/src/sloth/optimization.py
+++ b/src/sloth/optimization.py
@@ -550,7 +550,15 @@ class Optimization:
 
             self.optimization_problem._setSimulationConfiguration(self.simulation_configuration)
 
-            if self.constraints is not None:
+            if isinstance(self.constraints, dict):
+
+                names = [i if isinstance(i, str) else i.name for i in self.optimization_parameters]
+
+                lower_bounds, upper_bounds = zip(*[self.constraints[name] for name in names])
+
+                self.optimization_problem.setBounds([list(lower_bounds), list(upper_bounds)])
+
+            elif self.constraints is not None:
 
                 self.optimization_problem.setBounds(self.constraints)
 
-- 
2.43.0


From d8bc66802ed5fd67ae1e5e1a38e580404c6fe4ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:15 +0000
Subject: [PATCH 45/60] fix: log the objective, not its opposite, when
 maximizing

---
 src/sloth/optimization.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/sloth/optimization.py b/src/sloth/optimization.py
index 7bdfc81..60d4051 100644
--- a/src/sloth/optimization.py
+++ b/src/sloth/optimization.py
@@ -596,6 +596,16 @@ class Optimization:
 
                 self.optimization_log = pd.DataFrame(self.optimization_log, columns=self._pagmo_selected_algorithm_log_columns)
 
+                if self.optimization_problem.is_maximization is True:
+
+                    # The optimizer minimizes the opposite of the objective function
+
+                    for column in ['Best', 'gbest', 'Mean lbest']:
+
+                        if column in self.optimization_log:
+
+                            self.optimization_log[column] = -self.optimization_log[column]
+
             if save_optimization_graph is True:
 
                 generations = np.array(self.getOptimizationLog().loc[:, "Gen"].values.tolist(), dtype=int)
-- 
2.43.0


From 9657ed07f39b9fe7f4cf906d624ba95a556e868c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:23 +0000
Subject: [PATCH 46/60] fix: save the graph of an optimization whose log is
 empty

---
 src/sloth/optimization.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/sloth/optimization.py b/src/sloth/optimization.py
index 60d4051..29a853f 100644
--- a/src/sloth/optimization.py
+++ b/src/sloth/optimization.py
@@ -623,7 +623,9 @@ class Optimization:
 
                 function_evaluations = np.array(self.getOptimizationLog().loc[:, "Fevals"].values.tolist(), dtype=int)
 
-                plt.xlim(0, max(function_evaluations))
+                if len(function_evaluations) > 0:
+
+                    plt.xlim(0, max(function_evaluations))
 
                 curr_time = datetime.now()
 
-- 
2.43.0


From 73e4230d855a0b6ddbab474c89c7c13ae9588b59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:56 +0000
Subject: [PATCH 47/60] fix: do not share default configurations between
 simulations

---
 src/sloth/simulation.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/sloth/simulation.py b/src/sloth/simulation.py
index 0d46a42..c205d6e 100644
--- a/src/sloth/simulation.py
+++ b/src/sloth/simulation.py
@@ -13,6 +13,7 @@ from .core.error_definitions import UnexpectedValueError, UnresolvedPanicError,
 import prettytable
 import numpy as np
 from collections import OrderedDict
+import copy
 import json
 from .core.quantity import Quantity
 from .print_headings import print_heading
@@ -129,6 +130,10 @@ class Simulation:
 
         arg_names = [] if arg_names is None else list(arg_names)
 
+        # Not shared with the default values of other simulations
+
+        initial_guess, args, configuration_args, variable_name_map = [copy.copy(i) for i in (initial_guess, args, configuration_args, variable_name_map)]
+
         default_simulation_configurations = {'compile_equations': compile_equations,
                                              'domain': domain,
                                              'time_variable_name': time_variable_name,
-- 
2.43.0


From 0c30b20f49cd01fc91461d7c7c48e79b59f07db9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:56 +0000
Subject: [PATCH 48/60] fix: do not share default mass fractions between
 property packages

---
 src/sloth/core/property_package.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sloth/core/property_package.py b/src/sloth/core/property_package.py
index aca5740..c1b21f9 100644
--- a/src/sloth/core/property_package.py
+++ b/src/sloth/core/property_package.py
@@ -29,9 +29,9 @@ class PropertyPackage:
 
         self.phases = {phase_i: thermo.chemical.Chemical(phase_i, self.T, self.P) for phase_i in phase_names if phase_i is not None}
 
-        self.ws = ws
+        self.ws = list(ws) if ws is not None else None
 
-        self.zs = zs
+        self.zs = list(zs) if zs is not None else None
 
         self.mixture = None
 
-- 
2.43.0


From 8cee8f463dbee28b348004653ea423a29277ed48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:11 +0000
Subject: [PATCH 49/60] fix: do not share default bounds between domains

---
 src/sloth/core/domain.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/sloth/core/domain.py b/src/sloth/core/domain.py
index 3e2e880..676ee8d 100644
--- a/src/sloth/core/domain.py
+++ b/src/sloth/core/domain.py
@@ -4,6 +4,8 @@
 Define Domain class, which distributes one equation among a domain of variables.
 """
 
+import copy
+
 import pandas as pd
 from .error_definitions import UnexpectedValueError
 import numpy as np
@@ -62,9 +64,9 @@ class Domain:
 
         self.description = description
 
-        self.lower_bound = lower_bound
+        self.lower_bound = copy.copy(lower_bound)
 
-        self.upper_bound = upper_bound
+        self.upper_bound = copy.copy(upper_bound)
 
         self.values = None
 
-- 
2.43.0


From 5867ad1f63161d02cee633ccd501aa4f0218a73c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:11 +0000
Subject: [PATCH 50/60] fix: do not share default arguments between
 optimizations

---
 src/sloth/optimization.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sloth/optimization.py b/src/sloth/optimization.py
index 29a853f..3b50072 100644
--- a/src/sloth/optimization.py
+++ b/src/sloth/optimization.py
@@ -234,9 +234,9 @@ class Optimization:
 
         self.constraints_fun = constraints_fun
 
-        self.constraints_additional_args = constraints_additional_args
+        self.constraints_additional_args = copy.copy(constraints_additional_args)
 
-        self.additional_args = additional_args
+        self.additional_args = copy.copy(additional_args)
 
         self.objective_function = objective_function
 
-- 
2.43.0


From d1138ecd27ea4a7de749c340af417ed35547e37b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:48 +0000
Subject: [PATCH 51/60] fix: incorporate equations without rewriting names

---
 src/sloth/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sloth/model.py b/src/sloth/model.py
index 9193e70..5c1e90d 100644
--- a/src/sloth/model.py
+++ b/src/sloth/model.py
@@ -379,7 +379,7 @@ class Model:
         var_names_from_old_model.extend(con_names_from_old_model)
         whole_names_from_old_model = var_names_from_old_model
 
-        names_map = {k: k[:-(1+len(model_to_incorporate.name))]+'_'+self.name for k in whole_names_from_old_model}
+        names_map = {k: k[:-(1+len(model_to_incorporate.name))]+'_'+self.name if rewrite_name is True else k for k in whole_names_from_old_model}
 
         if incorporate_equations is True:
 
-- 
2.43.0


From 2f8418dd072623326f111de27430a265d44d6e3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:30 +0000
Subject: [PATCH 52/60] fix: evaluate the functions of known quantities

---
 src/sloth/core/equation_operators.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sloth/core/equation_operators.py b/src/sloth/core/equation_operators.py
index 89c2c27..9466551 100644
--- a/src/sloth/core/equation_operators.py
+++ b/src/sloth/core/equation_operators.py
@@ -44,7 +44,7 @@ def wrapper(own_func, obj, base_func, latex_func_name=None, equation_type=None,
             # obj is a number
 
             enode_ = EquationNode(name=f_name(own_func.__name__, str(obj)),
-                                  symbolic_object=base_func(obj, evaluate=False),
+                                  symbolic_object=base_func(obj),
                                   symbolic_map={},
                                   variable_map={},
                                   unit_object=dimless,
@@ -61,7 +61,7 @@ def wrapper(own_func, obj, base_func, latex_func_name=None, equation_type=None,
                 # obj is an EquationNode
 
                 enode_ = EquationNode(name=f_name(own_func.__name__, obj.name),
-                                symbolic_object=base_func(obj.symbolic_object, evaluate=False),
+                                symbolic_object=base_func(obj.symbolic_object, evaluate=(obj.variable_map == {})),
                                 symbolic_map={**obj.symbolic_map},
                                 variable_map={**obj.variable_map},
                                 unit_object=obj.unit_object,
-- 
2.43.0


From a0bf9c975ae900fbad40da17723804a328fe2bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:58 +0000
Subject: [PATCH 53/60] fix: raise an error when odeint stops before the end of
 the grid, instead of returning the points left unfilled

---
 src/sloth/solvers.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/sloth/solvers.py b/src/sloth/solvers.py
index 1d55016..45165c7 100644
--- a/src/sloth/solvers.py
+++ b/src/sloth/solvers.py
@@ -777,11 +777,17 @@ class DSolver(Solver):
 
         if self.solver == None or self.solver == 'ODEINT':
 
-            Y = solver( diffYinterfaceForScipySolvers,
-                        Y_0,
-                        time_points,
-                        **conf_args_
-                       )
+            Y, info = solver( diffYinterfaceForScipySolvers,
+                              Y_0,
+                              time_points,
+                              **{**conf_args_, 'full_output':True}
+                            )
+
+            # When the integration is interrupted, the remaining points are not filled
+
+            if info['message'] != 'Integration successful.':
+
+                raise NumericalError(info['message'])
 
         if self.solver == 'CVODE':
 
-- 
2.43.0


From 1b9479c484c2eefa55e388cb45ae04743aa3176f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:09 +0000
Subject: [PATCH 54/60] fix: use the times given for the solution of
 differential-algebraic problems

---
 src/sloth/solvers.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/sloth/solvers.py b/src/sloth/solvers.py
index 45165c7..0c95351 100644
--- a/src/sloth/solvers.py
+++ b/src/sloth/solvers.py
@@ -973,7 +973,13 @@ class DaeSolver(Solver):
 
             number_of_time_steps = int(2*(end_time - initial_time))
 
-        time_points = np.linspace(initial_time, end_time, number_of_time_steps+1).tolist()
+        if conf_args['times_for_solution'] is None:
+
+            time_points = np.linspace(initial_time, end_time, number_of_time_steps+1).tolist()
+
+        else:
+
+            time_points = list(conf_args['times_for_solution'])
 
         ydmap,ymap = self.problem.equation_block._getMapForRewriteSystemAsResidual()
 
@@ -1023,7 +1029,7 @@ class DaeSolver(Solver):
 
             #================================================
 
-        to_register_ = np.hstack((np.array(time_points).reshape(-1,1), self._arrangeForDomain(list(ymap.keys()), Y)))
+        to_register_ = np.hstack((np.array(Time).reshape(-1,1), self._arrangeForDomain(list(ymap.keys()), Y)))
 
         if self.additional_configurations['print_output'] == True:
 
-- 
2.43.0


From 31d677fcac213ea315000033a3e17b6da8b840ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:25 +0000
Subject: [PATCH 55/60] fix: a stream without property package could not be
 declared once its temperature or pressure was specified

---
 src/sloth/unit_op_library.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/sloth/unit_op_library.py b/src/sloth/unit_op_library.py
index 4722f13..ef64455 100644
--- a/src/sloth/unit_op_library.py
+++ b/src/sloth/unit_op_library.py
@@ -49,6 +49,12 @@ class HomogeneousMaterialStream(model.Model):
 
                 self.mdot.setValue( self.ndot.value*self.property_package["*"].MW*1e-3 )
 
+        if self.property_package is None:
+
+            #There is nothing to be calculated
+
+            return
+
         #Recalculate property_package if T and P where provided
 
         if self.T.is_specified is True and self.P.is_specified is False:
@@ -103,6 +109,12 @@ class MaterialStream(model.Model):
 
                 self.mdot.setValue( self.ndot.value*self.property_package["*"].MW*1e-3 )
 
+        if self.property_package is None:
+
+            #There is nothing to be calculated
+
+            return
+
         #Recalculate property_package if T and P where provided
 
         if self.T.is_specified is True and self.P.is_specified is False:
-- 
2.43.0


From 4b354e13a5150d67c884785b420d7ab9fcac5109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:26 +0000
Subject: [PATCH 56/60] fix: a mixer or splitter without property package could
 not be created

---
 src/sloth/unit_op_library.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sloth/unit_op_library.py b/src/sloth/unit_op_library.py
index ef64455..daa7304 100644
--- a/src/sloth/unit_op_library.py
+++ b/src/sloth/unit_op_library.py
@@ -238,7 +238,7 @@ class Mixer(model.Model):
 
         self.createEquation("mass_conservation", "Mass consevation", _mass_conservation)
 
-        if self.property_package.number_of_phases >=2:
+        if self.property_package is not None and self.property_package.number_of_phases >=2:
 
             _sum_molar_frac_in = -1.
             _sum_mass_frac_in = -1.
-- 
2.43.0


From 8cb6cba92877e843a3c1ad441176ebd3e8be1651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:19 +0000
Subject: [PATCH 57/60] fix: the number of phases of a property package did not
 follow the addition of another one

---
 src/sloth/core/property_package.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/sloth/core/property_package.py b/src/sloth/core/property_package.py
index c1b21f9..72ef92f 100644
--- a/src/sloth/core/property_package.py
+++ b/src/sloth/core/property_package.py
@@ -61,6 +61,8 @@ class PropertyPackage:
 
                     self.phases.update({phase_i: pp.phases[phase_i]})
 
+                    self.number_of_phases = len(self.phase_names)
+
             return self
 
         else:
-- 
2.43.0


From 70bdb6d939bacb65147f4fcc74c8059bad25f554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:13 +0000
Subject: [PATCH 58/60] fix: accept the times for the solution of differential
 problems given as a list

---
 src/sloth/solvers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sloth/solvers.py b/src/sloth/solvers.py
index 0c95351..e75e8bc 100644
--- a/src/sloth/solvers.py
+++ b/src/sloth/solvers.py
@@ -771,7 +771,7 @@ class DSolver(Solver):
 
         else:
 
-            time_points = times_for_solution
+            time_points = np.array(times_for_solution)
 
         #print("\n\n\n\t\t---------->", self.solver)
 
-- 
2.43.0


From 6fb810d90b156e8f9d495379b5269b32c5543ea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:40 +0000
Subject: [PATCH 59/60] fix: a plot that fails does not leave its curves to the
 next one

---
 src/sloth/plotter.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/sloth/plotter.py b/src/sloth/plotter.py
index 6635cc2..3983d9c 100644
--- a/src/sloth/plotter.py
+++ b/src/sloth/plotter.py
@@ -38,6 +38,9 @@ class Plotter:
 
         #y_data=sim.domain[('t_M1',['Preys(u)','Predators(v)'])],
 
+        # Curves left by a plot that failed are discarded
+        plt.clf()
+
         if isinstance(x_data, str) and data is not None:
 
             try:
-- 
2.43.0


From 30f37dd927177f8a78154c600c1f8c385bd85970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:13 +0000
Subject: [PATCH 60/60] fix: bounds and sense of an optimization do not stay in
 its problem, given to another optimization

---
 src/sloth/optimization.py | 34 ++++++++++++++++++++++------------
 1 file changed, 22 insertions(+), 12 deletions(-)

diff --git a/src/sloth/optimization.py b/src/sloth/optimization.py
index 3b50072..ec4a43e 100644
--- a/src/sloth/optimization.py
+++ b/src/sloth/optimization.py
@@ -550,21 +550,33 @@ class Optimization:
 
             self.optimization_problem._setSimulationConfiguration(self.simulation_configuration)
 
-            if isinstance(self.constraints, dict):
+            # These settings do not stay in the problem, that may be given to other optimizations
 
-                names = [i if isinstance(i, str) else i.name for i in self.optimization_parameters]
+            problem_settings = (self.optimization_problem.bounds, self.optimization_problem.is_maximization)
 
-                lower_bounds, upper_bounds = zip(*[self.constraints[name] for name in names])
+            try:
 
-                self.optimization_problem.setBounds([list(lower_bounds), list(upper_bounds)])
+                if isinstance(self.constraints, dict):
 
-            elif self.constraints is not None:
+                    names = [i if isinstance(i, str) else i.name for i in self.optimization_parameters]
 
-                self.optimization_problem.setBounds(self.constraints)
+                    lower_bounds, upper_bounds = zip(*[self.constraints[name] for name in names])
 
-            if self.is_maximization is True:
+                    self.optimization_problem.setBounds([list(lower_bounds), list(upper_bounds)])
 
-                self.optimization_problem.is_maximization = True
+                elif self.constraints is not None:
+
+                    self.optimization_problem.setBounds(self.constraints)
+
+                is_maximization = self.is_maximization is True or problem_settings[1] is True
+
+                self.optimization_problem.is_maximization = is_maximization
+
+                prob = pg.problem(self.optimization_problem)
+
+            finally:
+
+                self.optimization_problem.bounds, self.optimization_problem.is_maximization = problem_settings
 
             self.optimization_mechanism.set_verbosity(report_frequency)
 
@@ -576,15 +588,13 @@ class Optimization:
 
             # Run optimization
 
-            prob = pg.problem(self.optimization_problem)
-
             pop = pg.population(prob, size=self.optimization_configuration['number_of_individuals'])
 
             pop = self.optimization_mechanism.evolve(pop)
 
             self.best_parameters = pop.champion_x
 
-            self.best_fitness = -pop.champion_f if self.optimization_problem.is_maximization is True else pop.champion_f
+            self.best_fitness = -pop.champion_f if is_maximization is True else pop.champion_f
 
             end_time = time()
 
@@ -596,7 +606,7 @@ class Optimization:
 
                 self.optimization_log = pd.DataFrame(self.optimization_log, columns=self._pagmo_selected_algorithm_log_columns)
 
-                if self.optimization_problem.is_maximization is True:
+                if is_maximization is True:
 
                     # The optimizer minimizes the opposite of the objective function
 
-- 
2.43.0

