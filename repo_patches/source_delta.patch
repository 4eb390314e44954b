From 0a0fb4b4451480e28b41198719690e8961dc5626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:22 +0000
Subject: [PATCH 01/40] fix: pass a list, not a numpy array, of expressions to
 sympy.lambdify

sympy.lambdify refuses an object array of expressions (TypeError), so every
compiled differential run and every initial-guess polish failed.
---
 src/sloth/core/equation_block.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/sloth/core/equation_block.py b/src/sloth/core/equation_block.py
index a613930..0eb49bb 100644
--- a/src/sloth/core/equation_block.py
+++ b/src/sloth/core/equation_block.py
@@ -175,7 +175,7 @@ class EquationBlock:
             if differential_form == 'elementary':
 
                 fun_ = sp.lambdify(self._var_list,
-                                   np_array(self._getEquationList(differential_form,side)),
+                                   self._getEquationList(differential_form,side),
                                    [{'Min':min, 'Max':max, 'Sin':np.sin, 'Cos':np.cos}, compilation_mechanism]
                             )
 
@@ -195,7 +195,7 @@ class EquationBlock:
                 rewritten_eqs = [eq_i.subs(yd_map) for eq_i in original_eqs]
 
                 _fun_ = sp.lambdify(["t","y","yd"],
-                                   np_array(rewritten_eqs),
+                                   rewritten_eqs,
                                    [{'Min':min, 'Max':max, 'Sin':math.sin, 'Cos':math.cos}, compilation_mechanism]
                             )
 
@@ -208,7 +208,7 @@ class EquationBlock:
         else:
 
             fun_ = sp.lambdify(self._var_list,
-                               np_array(self._equations_list),
+                               self._equations_list,
                                [{'Min': min, 'Max': max, 'Sin': np.sin, 'Cos': np.cos}, compilation_mechanism]
                                )
 
-- 
2.43.0


From 5b8f7c03ff7d05008cbaa7c9556fee3f4909f723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:46 +0000
Subject: [PATCH 02/40] fix: append a further run to a Domain under its own
 columns

The row index of the stored DataFrame was passed as the column labels, so a
second run without a reset raised ValueError.
---
 src/sloth/core/domain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sloth/core/domain.py b/src/sloth/core/domain.py
index a686c57..6cb0c57 100644
--- a/src/sloth/core/domain.py
+++ b/src/sloth/core/domain.py
@@ -177,7 +177,7 @@ class Domain:
 
         elif self.values[var.name].values.size > 0 and values.shape[1] == len(self.independent_vars.keys())+len(self.dependent_objs.keys()):
 
-            self.values[var.name] = pd.DataFrame(np.vstack((self.values[var.name].values, values)),columns=self.values[var.name].index)
+            self.values[var.name] = pd.DataFrame(np.vstack((self.values[var.name].values, values)),columns=self.values[var.name].columns)
 
         else:
 
-- 
2.43.0


From d3c7fc394bd9c8a070aa540b1a70e4bcb1229f8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:46 +0000
Subject: [PATCH 03/40] fix: register integrated values under the variables
 they belong to

The columns of the integrator output follow the order of the equations (ODE) or
of the variables (DAE) but were stored, printed and returned under the order in
which variables were distributed on the domain, silently swapping variables.
---
 src/sloth/solvers.py | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/src/sloth/solvers.py b/src/sloth/solvers.py
index f06de13..3f68521 100644
--- a/src/sloth/solvers.py
+++ b/src/sloth/solvers.py
@@ -114,6 +114,30 @@ class Solver:
 
         pass
 
+    def _sortColumnsByDomain(self, names, Y):
+
+        """
+        Reorder the columns of the integration output according to the variables distributed on the domain of the current Solver object
+
+        :param list(str) names:
+            Name of the variable held by each one of the columns of Y
+
+        :param array Y:
+            Output of the integration, a row for each of the time points
+
+        :return Y:
+            Array with its columns in the order of the variables of the domain
+        :rtype array:
+        """
+
+        domain_names = list(self.domain.dependent_objs.keys())
+
+        if sorted(domain_names) != sorted(names):
+
+            raise AbsentRequiredObjectError("domain on which exactly the variables %s are distributed"%names, domain_names)
+
+        return np.array(Y)[:, [names.index(name_i) for name_i in domain_names]]
+
     def _polishRoot(self, initial_guess, polisher='hybr'):
 
         fun = self.problem.equation_block._getEquationBlockAsFunction()
@@ -754,6 +778,10 @@ class DSolver(Solver):
             time_points = np.array(time_points)
             Y = np.array(Y)
 
+        # The columns of Y follow the equations, those of the domain follow the distribution of the variables on it
+
+        Y = self._sortColumnsByDomain(Y_names, Y)
+
         # print("\ntime_points.T shape=%s\nY.T shape=%s"%(time_points.reshape(1,-1).T.shape,Y.T.shape))
 
         to_register_ = None
@@ -961,6 +989,8 @@ class DaeSolver(Solver):
 
             #================================================
 
+        Y = self._sortColumnsByDomain(list(ymap.keys()), Y)
+
         to_register_ = np.hstack((np.array(time_points).reshape(-1,1), Y))
 
         if self.additional_configurations['print_output'] == True:
-- 
2.43.0


From 0312cc0754509bc6f814f08477a1431eb960f346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:46 +0000
Subject: [PATCH 04/40] fix: raise NumericalError when odeint could not
 integrate

odeint reports failure only in its messages; the rows after the failure are
uninitialised memory and were registered as results.
---
 src/sloth/solvers.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/sloth/solvers.py b/src/sloth/solvers.py
index 3f68521..00bbccb 100644
--- a/src/sloth/solvers.py
+++ b/src/sloth/solvers.py
@@ -755,12 +755,16 @@ class DSolver(Solver):
 
         if self.solver == None or self.solver == 'ODEINT':
 
-            Y = solver( diffYinterfaceForScipySolvers,
+            Y, info = solver( diffYinterfaceForScipySolvers,
                         Y_0,
                         time_points,
-                        **conf_args_
+                        **{**conf_args_, 'full_output':True}
                        )
 
+            if info['message'] != 'Integration successful.' or not np.all(np.isfinite(Y)):
+
+                raise NumericalError("Integration failed: %s"%info['message'])
+
         if self.solver == 'CVODE':
 
             exp_mod = Explicit_Problem(diffYinterfaceForAssimuloSolvers,
-- 
2.43.0


From 159c981b97ad4f6105a89e98f847ea65739c3daa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:03 +0000
Subject: [PATCH 05/40] fix: do not write solver bookkeeping into the
 configuration and the equation block

Each dynamic run appended its time variable to the list used as the default
value of arg_names, shared by every simulation of the process, and the RHS
could extend the variable list of the equation block.
---
 src/sloth/solvers.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/sloth/solvers.py b/src/sloth/solvers.py
index 00bbccb..47c0cbf 100644
--- a/src/sloth/solvers.py
+++ b/src/sloth/solvers.py
@@ -402,7 +402,7 @@ class DSolver(Solver):
 
         time_variable_name = additional_configurations['time_variable_name']
 
-        arg_names = additional_configurations['arg_names']
+        arg_names = list(additional_configurations['arg_names'])
 
         if isinstance(time_variable_name, list):
 
@@ -641,7 +641,7 @@ class DSolver(Solver):
                     Y_.update({t_i:t})
 
             if len(args)>0:
-                args_ = self._createMappingFromValues(self.args_names, args)
+                args_ = self._createMappingFromValues(self.arg_names, args)
             else:
                 args_ = {}
 
@@ -653,7 +653,7 @@ class DSolver(Solver):
 
                 #====== Reorder global_dict from _var_list from equation_block ========
 
-                keys_ = self.problem.equation_block._var_list
+                keys_ = list(self.problem.equation_block._var_list)
                 keys_.extend([i for i in list(global_dict.keys()) if i not in keys_])
 
                 global_dict = {k:global_dict[k] for k in keys_}
@@ -696,7 +696,7 @@ class DSolver(Solver):
                     Y_.update({t_i:t})
 
             if len(args)>0:
-                args_ = self._createMappingFromValues(self.args_names, args)
+                args_ = self._createMappingFromValues(self.arg_names, args)
             else:
                 args_ = {}
 
@@ -708,7 +708,7 @@ class DSolver(Solver):
 
                 #====== Reorder global_dict from _var_list from equation_block ========
 
-                keys_ = self.problem.equation_block._var_list
+                keys_ = list(self.problem.equation_block._var_list)
                 keys_.extend([i for i in list(global_dict.keys()) if i not in keys_])
 
                 global_dict = {k:global_dict[k] for k in keys_}
@@ -850,7 +850,7 @@ class DaeSolver(Solver):
 
         time_variable_name = additional_configurations['time_variable_name']
 
-        arg_names = additional_configurations['arg_names']
+        arg_names = list(additional_configurations['arg_names'])
 
         if time_variable_name not in problem.initial_conditions:
 
-- 
2.43.0


From 93bb1d26e0e86604d876dd514cd3816599d3d3a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:21 +0000
Subject: [PATCH 06/40] fix: detect time variables exactly in the
 degrees-of-freedom analysis

A right-hand side that is the time variable alone was not seen, a variable
whose name contains the one of the time variable was mistaken for it, and
several declared time variables counted as one equation.
---
 src/sloth/analysis.py            | 10 +++++++---
 src/sloth/core/equation_block.py | 22 +++++-----------------
 2 files changed, 12 insertions(+), 20 deletions(-)

diff --git a/src/sloth/analysis.py b/src/sloth/analysis.py
index dbdd29b..65ba30f 100644
--- a/src/sloth/analysis.py
+++ b/src/sloth/analysis.py
@@ -78,11 +78,15 @@ class DOF_Analysis:
 
         """
 
-        has_time_var_declared_in_diff_eq = self.problem.equation_block._hasVarBeenDeclared(self.problem.time_variable_name, "differential")
+        for time_var_i in self.problem.time_variable_name or []:
 
-        if has_time_var_declared_in_diff_eq is True:
+            # Each one of the time variables is determined by the solver, so it counts as an equation
 
-            n_eqs += 1
+            has_time_var_declared_in_diff_eq = self.problem.equation_block._hasVarBeenDeclared(time_var_i, "differential")
+
+            if has_time_var_declared_in_diff_eq is True:
+
+                n_eqs += 1
 
         n_dof = n_vars + n_unspec_params - n_eqs
 
diff --git a/src/sloth/core/equation_block.py b/src/sloth/core/equation_block.py
index 0eb49bb..6c83329 100644
--- a/src/sloth/core/equation_block.py
+++ b/src/sloth/core/equation_block.py
@@ -272,27 +272,15 @@ class EquationBlock:
 
             #print("\n======>Equation: ", eq._getSymbolicObject())
 
-            try:
+            expression_ = sp.sympify(eq._getSymbolicObject())
 
-                equation_members_ = eq._getSymbolicObject().args
+            #Will not trigger for 'Derivative' terms
 
-            except:
+            expression_ = expression_.xreplace({d_i:sp.Dummy() for d_i in expression_.atoms(sp.Derivative)})
 
-                equation_members_ = []
+            if any(str(symbol_i) in var_name for symbol_i in expression_.free_symbols):
 
-            for eq_i in equation_members_:
-
-                #print("\n\t======>Member: ",eq_i)
-
-                #print("\n\t\t======>Has time_var_declared? : ", [ t_i in sp.srepr(eq_i) for t_i in var_name])
-
-                #Will not trigger for 'Derivative' terms
-
-                if any(var_i in sp.srepr(eq_i) and 'Derivative' not in sp.srepr(eq_i) for var_i in var_name):
-
-                    has_been_declared = True
-
-                    break
+                has_been_declared = True
 
             if has_been_declared is True:
 
-- 
2.43.0


From 45e68d4f6844b5c0a0e6b9287dab22ab94fdeb4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:34 +0000
Subject: [PATCH 07/40] fix: write dumped configurations atomically

The file was truncated before the configuration was serialised, so a
configuration that JSON cannot hold (eg: a Domain), a full disk or a crash
destroyed the file that was there.
---
 src/sloth/atomic_file.py  | 42 +++++++++++++++++++++++++++++++++++++++
 src/sloth/optimization.py |  3 ++-
 src/sloth/simulation.py   |  3 ++-
 3 files changed, 46 insertions(+), 2 deletions(-)
 create mode 100644 src/sloth/atomic_file.py

diff --git a/src/sloth/atomic_file.py b/src/sloth/atomic_file.py
new file mode 100644
index 0000000..a21021a
--- /dev/null
+++ b/src/sloth/atomic_file.py
@@ -0,0 +1,42 @@
+# *coding:utf-8*
+
+"""
+Define a writer that replaces a file as a whole
+"""
+
+import os
+from contextlib import contextmanager
+
+
+@contextmanager
+def open_atomically(file_name):
+
+    """
+    Open a file for writing in a 'with' block. The content goes to a temporary file aside, which takes the place of the file only after it was completely written. If anything fails, the original file stays as it was.
+
+    :param str file_name:
+        Name of the file to be written
+    """
+
+    temporary_name = "{}.{}.tmp".format(file_name, os.getpid())
+
+    try:
+
+        with open(temporary_name, "w") as write_file:
+
+            yield write_file
+
+            write_file.flush()
+
+            os.fsync(write_file.fileno())
+
+        os.replace(temporary_name, file_name)
+
+    except BaseException:
+
+        try:
+            os.remove(temporary_name)
+        except OSError:
+            pass
+
+        raise
diff --git a/src/sloth/optimization.py b/src/sloth/optimization.py
index e5dd0d0..5247d80 100644
--- a/src/sloth/optimization.py
+++ b/src/sloth/optimization.py
@@ -17,6 +17,7 @@ from .core.quantity import Quantity
 
 import matplotlib.pyplot as plt
 from datetime import datetime
+from .atomic_file import open_atomically
 
 #import ipdb
 
@@ -287,7 +288,7 @@ class Optimization:
 
     def saveConfigurations(self, file_name):
 
-        with open(file_name, "w") as write_file:
+        with open_atomically(file_name) as write_file:
 
             json.dump(self.optimization_configuration, write_file)
 
diff --git a/src/sloth/simulation.py b/src/sloth/simulation.py
index 7cfbd89..09f7e33 100644
--- a/src/sloth/simulation.py
+++ b/src/sloth/simulation.py
@@ -16,6 +16,7 @@ from collections import OrderedDict
 import json
 from .core.quantity import Quantity
 from .print_headings import print_heading
+from .atomic_file import open_atomically
 
 
 class Simulation:
@@ -458,7 +459,7 @@ class Simulation:
         if file_name is None:
             file_name = self.name + '-conf.json'
 
-        with open(file_name, "w") as write_file:
+        with open_atomically(file_name) as write_file:
             json.dump(self.configurations, write_file)
 
     def reset(self):
-- 
2.43.0


From e0f16c7de2611b5503961ed6779f480c4c582440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:53 +0000
Subject: [PATCH 08/40] fix: give every Model, UnitOp and PropertyPackage its
 own ports and phases

The default ports dictionary and phase list were shared by all the objects of
the process and modified in place.
---
 src/sloth/core/property_package.py | 2 +-
 src/sloth/model.py                 | 4 ++--
 src/sloth/unit_op.py               | 4 ++--
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/sloth/core/property_package.py b/src/sloth/core/property_package.py
index 6445d64..aca5740 100644
--- a/src/sloth/core/property_package.py
+++ b/src/sloth/core/property_package.py
@@ -21,7 +21,7 @@ class PropertyPackage:
 
         self.number_of_phases = phases
 
-        self.phase_names = phase_names
+        self.phase_names = list(phase_names)
 
         self.T = 298.15
 
diff --git a/src/sloth/model.py b/src/sloth/model.py
index 5f8b047..a1b3263 100644
--- a/src/sloth/model.py
+++ b/src/sloth/model.py
@@ -132,7 +132,7 @@ class Model:
 
     """
 
-    def __init__(self, name, description = "", property_package=None, ports={'inlets':{},'outlets':{}}, function_for_inlets_totalization = None, function_for_outlets_totalization = None):
+    def __init__(self, name, description = "", property_package=None, ports=None, function_for_inlets_totalization = None, function_for_outlets_totalization = None):
 
         """
         Instantiate Model.
@@ -194,7 +194,7 @@ class Model:
 
         self._outputs = []
 
-        self.ports = ports
+        self.ports = ports if ports is not None else {'inlets':{},'outlets':{}}
 
         self.objects_info = {}
 
diff --git a/src/sloth/unit_op.py b/src/sloth/unit_op.py
index 972ea82..34ebce6 100644
--- a/src/sloth/unit_op.py
+++ b/src/sloth/unit_op.py
@@ -17,7 +17,7 @@ class UnitOp:
     Defines the UnitOp class, that holds the capabilities for: acessing ports (inputs, outputs) from the UnitOp objects; Predefine streams for input and output, allowing to the port to be passed directly to other UnitOps
     """
 
-    def __init__(self, n_inputs=0, n_outputs=0, model=None, ports={'inlets':{},'outlets':{}}):
+    def __init__(self, n_inputs=0, n_outputs=0, model=None, ports=None):
 
         self.n_inputs = n_inputs
 
@@ -25,7 +25,7 @@ class UnitOp:
 
         self.model = model
 
-        self.ports = ports
+        self.ports = ports if ports is not None else {'inlets':{},'outlets':{}}
 
         self.property_package = model.property_package
 
-- 
2.43.0


From c96241bc12be1024b2cbe928cfb345ff5c8ed31f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:53 +0000
Subject: [PATCH 09/40] fix: expose incorporated variables under their own
 exposure type

The builtin 'type' was used as the key, so incorporating a model with an
exposed variable raised KeyError.
---
 src/sloth/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sloth/model.py b/src/sloth/model.py
index a1b3263..9193e70 100644
--- a/src/sloth/model.py
+++ b/src/sloth/model.py
@@ -424,7 +424,7 @@ class Model:
 
         if var_.is_exposed == True:
 
-            self.exposed_vars[type].append(var_)
+            self.exposed_vars[var_.type].append(var_)
 
         #Adding the object to current Model as an atribute (pythonic beauty)
 
-- 
2.43.0


From 5c3f178f213dca2033cde2d14de9a68d843ea644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:53 +0000
Subject: [PATCH 10/40] fix: never generate the same automatic name in two
 threads

Each thread counted from 1, so unnamed equations declared from two threads in
one model replaced each other.
---
 src/sloth/core/equation.py | 10 +++-------
 src/sloth/problem.py       | 10 +++-------
 2 files changed, 6 insertions(+), 14 deletions(-)

diff --git a/src/sloth/core/equation.py b/src/sloth/core/equation.py
index 698ed93..211143e 100644
--- a/src/sloth/core/equation.py
+++ b/src/sloth/core/equation.py
@@ -10,17 +10,13 @@ from .expression_evaluation import EquationNode
 from .error_definitions import UnexpectedValueError, AbsentRequiredObjectError, UnresolvedPanicError
 import sympy as sp
 #import symengine as sp
-import threading
+import itertools
 
-_uid = threading.local()
+_uid = itertools.count(1)
 
 def gen_rnd_str():
 
-    if getattr(_uid, "uid", None) is None:
-        _uid.tid = threading.current_thread().ident
-        _uid.uid = 0
-    _uid.uid += 1
-    return str((_uid.tid, _uid.uid)[1])
+    return str(next(_uid))
 
 class Equation:
 
diff --git a/src/sloth/problem.py b/src/sloth/problem.py
index e5b231f..fe0b82b 100644
--- a/src/sloth/problem.py
+++ b/src/sloth/problem.py
@@ -15,17 +15,13 @@ from .analysis import Analysis
 #import numpy as np
 #from .graph_creator import ConnectionGraph
 
-import threading
+import itertools
 
-_uid = threading.local()
+_uid = itertools.count(1)
 
 def gen_rnd_str():
 
-    if getattr(_uid, "uid", None) is None:
-        _uid.tid = threading.current_thread().ident
-        _uid.uid = 0
-    _uid.uid += 1
-    return str((_uid.tid, _uid.uid)[1])
+    return str(next(_uid))
 
 class Problem:
 
-- 
2.43.0


From 033bc3ef40e884202ca188453d23a3e3939ec14c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:07 +0000
Subject: [PATCH 11/40] fix: check the unit given to setValue for float values
 too

Operator precedence made any float value be accepted whatever its unit.
---
 src/sloth/core/constant.py  | 4 ++--
 src/sloth/core/parameter.py | 4 ++--
 src/sloth/core/quantity.py  | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/sloth/core/constant.py b/src/sloth/core/constant.py
index a9bcc31..132fa53 100644
--- a/src/sloth/core/constant.py
+++ b/src/sloth/core/constant.py
@@ -84,14 +84,14 @@ class Constant(Quantity):
 
                 raise DimensionalCoherenceError(self.units,quantity_value.units)
 
-        elif isinstance(quantity_value, float) or isinstance(quantity_value, int) and quantity_unit==None:
+        elif (isinstance(quantity_value, float) or isinstance(quantity_value, int)) and quantity_unit==None:
 
             self.value = quantity_value
 
             self.is_specified = True
 
 
-        elif isinstance(quantity_value, float) or isinstance(quantity_value, int) and quantity_unit!=None and quantity_unit._check_dimensional_coherence(self.units):
+        elif (isinstance(quantity_value, float) or isinstance(quantity_value, int)) and quantity_unit!=None and quantity_unit._check_dimensional_coherence(self.units):
 
             self.value = quantity_value
 
diff --git a/src/sloth/core/parameter.py b/src/sloth/core/parameter.py
index 7a1e53c..39d0274 100644
--- a/src/sloth/core/parameter.py
+++ b/src/sloth/core/parameter.py
@@ -70,14 +70,14 @@ class Parameter(Quantity):
 
                 raise DimensionalCoherenceError(self.units,quantity_value.units)
 
-        elif isinstance(quantity_value, float) or isinstance(quantity_value, int) and quantity_unit==None:
+        elif (isinstance(quantity_value, float) or isinstance(quantity_value, int)) and quantity_unit==None:
 
             self.value = quantity_value
 
             self.is_specified = True
 
 
-        elif isinstance(quantity_value, float) or isinstance(quantity_value, int) and quantity_unit!=None and quantity_unit._check_dimensional_coherence(self.units):
+        elif (isinstance(quantity_value, float) or isinstance(quantity_value, int)) and quantity_unit!=None and quantity_unit._check_dimensional_coherence(self.units):
 
             self.value = quantity_value
 
diff --git a/src/sloth/core/quantity.py b/src/sloth/core/quantity.py
index 8152cc8..3454266 100644
--- a/src/sloth/core/quantity.py
+++ b/src/sloth/core/quantity.py
@@ -88,13 +88,13 @@ class Quantity:  # New-style class syntax
 
                 raise DimensionalCoherenceError(self.units,quantity_value.units)
 
-        elif isinstance(quantity_value, float) or isinstance(quantity_value, int) and quantity_unit==None:
+        elif (isinstance(quantity_value, float) or isinstance(quantity_value, int)) and quantity_unit==None:
 
             self.value = quantity_value
 
             self.is_specified = True
 
-        elif isinstance(quantity_value, float) or isinstance(quantity_value, int) and quantity_unit!=None and quantity_unit._check_dimensional_coherence(self.units):
+        elif (isinstance(quantity_value, float) or isinstance(quantity_value, int)) and quantity_unit!=None and quantity_unit._check_dimensional_coherence(self.units):
 
             self.value = quantity_value
 
-- 
2.43.0


From 232bf6257bad95d42034e9fc48a38edf7f327941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:07 +0000
Subject: [PATCH 12/40] fix: compare dimensions of units up to round-off, and
 those of Min and Max at all

(m**.1)*(m**.2) was refused as incoherent with m**.3, and Min and Max of
expressions always raised, because an expression was compared with a unit.
---
 src/sloth/core/equation_operators.py | 5 +++--
 src/sloth/core/unit.py               | 4 ++--
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/sloth/core/equation_operators.py b/src/sloth/core/equation_operators.py
index 582e8c3..242601c 100644
--- a/src/sloth/core/equation_operators.py
+++ b/src/sloth/core/equation_operators.py
@@ -6,6 +6,7 @@ import sympy as sp
 import numpy as np
 from .expression_evaluation import EquationNode
 from .template_units import dimless
+from .error_definitions import UnexpectedValueError
 # import error_definitions as errors
 
 
@@ -184,7 +185,7 @@ def Min(*obj):
 
     elif all(isinstance(obj_i, EquationNode) for obj_i in obj):
 
-        if all(the_unit == obj[0].unit_object for the_unit in obj):
+        if all(obj_i.unit_object._check_dimensional_coherence(obj[0].unit_object) for obj_i in obj):
 
             obj_dims = obj[0].unit_object
 
@@ -282,7 +283,7 @@ def Max(*obj):
 
     elif all(isinstance(obj_i, EquationNode) for obj_i in obj):
 
-        if all(the_unit == obj[0].unit_object for the_unit in obj):
+        if all(obj_i.unit_object._check_dimensional_coherence(obj[0].unit_object) for obj_i in obj):
 
             obj_dims = obj[0].unit_object
 
diff --git a/src/sloth/core/unit.py b/src/sloth/core/unit.py
index ada0ac0..27008da 100644
--- a/src/sloth/core/unit.py
+++ b/src/sloth/core/unit.py
@@ -54,7 +54,7 @@ class Unit:  # New-style class syntax
 
         #is_dimless = all([float(self.dimension[idx_i]) == 0. for idx_i in keys_])
 
-        is_dimless = all(float(d_i) == 0. for d_i in self.dimension.values())
+        is_dimless = all(abs(float(d_i)) < 1e-9 for d_i in self.dimension.values())
 
         return is_dimless
 
@@ -376,4 +376,4 @@ class Unit:  # New-style class syntax
 
         #return dim_1 == dim_2
 
-        return all(self.dimension[idx] == other_unit.dimension[idx] for idx in sorted(self.dimension.keys()))
\ No newline at end of file
+        return all(abs(self.dimension[idx] - other_unit.dimension[idx]) < 1e-9 for idx in sorted(self.dimension.keys()))
\ No newline at end of file
-- 
2.43.0


From 984b1464f9307e8302d4bbf05e8b77eaa634ebee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:30 +0000
Subject: [PATCH 13/40] fix: start every plot from a clean figure

A plot whose saving failed left its series in the current figure, and they
reappeared in the next saved plot.
---
 src/sloth/optimization.py | 4 ++++
 src/sloth/plotter.py      | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/sloth/optimization.py b/src/sloth/optimization.py
index 5247d80..e46dd77 100644
--- a/src/sloth/optimization.py
+++ b/src/sloth/optimization.py
@@ -584,6 +584,10 @@ class Optimization:
 
                 function_evaluations = np.array(self.getOptimizationLog().loc[:, "Fevals"].values.tolist(), dtype=int)
 
+                # Discard what a previous plot left behind if it failed midway
+
+                plt.clf()
+
                 plt.xlim(0, max(function_evaluations))
 
                 curr_time = datetime.now()
diff --git a/src/sloth/plotter.py b/src/sloth/plotter.py
index 59e92a8..64b673e 100644
--- a/src/sloth/plotter.py
+++ b/src/sloth/plotter.py
@@ -61,6 +61,10 @@ class Plotter:
 
                 raise ValueError("Improper value for x_data or y_data. \n\tThey should be either a direct reference for simulation data or reference for domain values.")
 
+        # Discard what a previous plot left behind if it failed midway
+
+        plt.clf()
+
         if markers is not None:
 
             for i in range(len(x_data)):
-- 
2.43.0


From 0ea65041b1b2ecb1fccbfecb75cb8f0ede830d53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:30 +0000
Subject: [PATCH 14/40] fix: replace the equations of a model when it is
 declared again

Problem.resolve declares every model again. Equations without a name were
added once more each time, and those no longer declared stayed in the system.
---
 src/sloth/model.py | 28 +++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/src/sloth/model.py b/src/sloth/model.py
index 9193e70..ac4cf65 100644
--- a/src/sloth/model.py
+++ b/src/sloth/model.py
@@ -198,6 +198,8 @@ class Model:
 
         self.objects_info = {}
 
+        self._names_of_declared_equations = []
+
         self.ignore_equation_warning = False
 
         self.ignore_variable_warning = False
@@ -559,7 +561,31 @@ class Model:
 
             self.totalizeInletsFunction(main_model=self)
 
-        self.DeclareEquations()
+        equations_before = dict(self.equations)
+
+        try:
+
+            self.DeclareEquations()
+
+        except BaseException:
+
+            # The equations of an interrupted declaration are not part of the model
+
+            self.equations.clear()
+
+            self.equations.update(equations_before)
+
+            raise
+
+        # Drop the equations that the previous declaration created and the current one did not (eg: unnamed ones)
+
+        for name_i in self._names_of_declared_equations:
+
+            if name_i in self.equations and self.equations[name_i] is equations_before.get(name_i):
+
+                del self.equations[name_i]
+
+        self._names_of_declared_equations = [name_i for name_i, eq_i in self.equations.items() if eq_i is not equations_before.get(name_i)]
 
         if len(self.variables) == 0 and self.ignore_variable_warning is False:
 
-- 
2.43.0


From 046785ef9f3f380836550516f163134e2400f332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:45 +0000
Subject: [PATCH 15/40] fix: keep every connection made between the same two
 models

Connections given by expressions were named after the models only, so a second
one silently replaced the first.
---
 src/sloth/problem.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/sloth/problem.py b/src/sloth/problem.py
index fe0b82b..fce14d4 100644
--- a/src/sloth/problem.py
+++ b/src/sloth/problem.py
@@ -275,7 +275,15 @@ class Problem:
 
             elif isinstance(model_1, Model) is True:
 
-                model_2.createEquation("conn_"+model_1.name+"-->"+model_2.name, "Connection from "+model_1.name+" to "+model_2.name, input_vars - output_vars, check_equation=False)
+                name = "conn_"+model_1.name+"-->"+model_2.name
+
+                # Do not replace another connection between the same models
+
+                while name+"_"+model_2.name in model_2.equations and model_2.equations[name+"_"+model_2.name]().repr_symbolic != (input_vars - output_vars).repr_symbolic:
+
+                    name += "'"
+
+                model_2.createEquation(name, "Connection from "+model_1.name+" to "+model_2.name, input_vars - output_vars, check_equation=False)
 
             else:
 
-- 
2.43.0


From 1ec57b1d2b7a267160f6672ff94110d4b2a7b318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:25 +0000
Subject: [PATCH 16/40] fix: make the residual form of differential-algebraic
 systems usable

'yd[0]' is not an expression sympy can read from a string; derivatives were
numbered by equation but used by variable; algebraic variables were flagged by
equation; exactly one algebraic variable was assumed; and a list of time
variables, which setTimeVariableName always makes, was rejected.
---
 src/sloth/core/equation_block.py | 28 +++++++++++++++++++---------
 src/sloth/solvers.py             | 18 +++++++++++++-----
 2 files changed, 32 insertions(+), 14 deletions(-)

diff --git a/src/sloth/core/equation_block.py b/src/sloth/core/equation_block.py
index 6c83329..9637b75 100644
--- a/src/sloth/core/equation_block.py
+++ b/src/sloth/core/equation_block.py
@@ -96,10 +96,12 @@ class EquationBlock:
 
         diff_list = self._getDiffList()
 
-        yd_list = ["yd[{}]".format(i) for (i,_) in enumerate(diff_list)]
-
         var_list = self._var_list
 
+        # Each derivative goes by the position of its variable
+
+        yd_list = ["yd[{}]".format(var_list.index(str(diff_i.args[0]))) for diff_i in diff_list]
+
         y_list = ["y[{}]".format(i) for (i,_) in enumerate(var_list)]
 
         yd_map = {k:v for (k,v) in zip(diff_list,yd_list)}
@@ -124,7 +126,7 @@ class EquationBlock:
 
             eq = eqi._getSymbolicObject('residual','rhs')
 
-            _ = [diff_list.append(abs(i).args[0]) for i in eq.args if 'Derivative' in sp.srepr(i)]
+            _ = [diff_list.append(i) for i in sorted(eq.atoms(sp.Derivative), key=str) if i not in diff_list]
 
         return diff_list
 
@@ -188,13 +190,19 @@ class EquationBlock:
 
                 # Add y_map dict to yd_map
 
-                yd_map.update(y_map)
+                yd_map.update({sp.Symbol(k):v for (k,v) in y_map.items()})
+
+                # Those like 'yd[0]' are elements of arrays, that sympy does not read from a string
+
+                arrays_ = {"y":sp.IndexedBase("y"), "yd":sp.IndexedBase("yd")}
+
+                yd_map = {k:sp.sympify(v, locals=arrays_) for (k,v) in yd_map.items()}
 
                 original_eqs = self._getEquationList(differential_form, side)
 
-                rewritten_eqs = [eq_i.subs(yd_map) for eq_i in original_eqs]
+                rewritten_eqs = [eq_i.xreplace(yd_map) for eq_i in original_eqs]
 
-                _fun_ = sp.lambdify(["t","y","yd"],
+                _fun_ = sp.lambdify([sp.Symbol("t"),arrays_["y"],arrays_["yd"]],
                                    rewritten_eqs,
                                    [{'Min':min, 'Max':max, 'Sin':math.sin, 'Cos':math.cos}, compilation_mechanism]
                             )
@@ -219,14 +227,16 @@ class EquationBlock:
     def _getBooleanDiffFlagsForEquations(self):
 
         """
-        Return an boolean list of if each of the Equation objects contained in the current EquationBlock are differential
+        Return an boolean list of if each of the variables contained in the current EquationBlock are differential
 
         :return:
-            List of boolean flags indicating which equations are boolean
+            List of boolean flags indicating which variables are differential
         :rtype list(bool):
         """
 
-        return [float(i.type == 'differential') for i in self.equations]
+        diff_names = [str(diff_i.args[0]) for diff_i in self._getDiffList()]
+
+        return [float(i in diff_names) for i in self._var_list]
 
     def _getEquationList(self, differential_form=None, side='rhs'):
 
diff --git a/src/sloth/solvers.py b/src/sloth/solvers.py
index 47c0cbf..8ac743b 100644
--- a/src/sloth/solvers.py
+++ b/src/sloth/solvers.py
@@ -852,7 +852,15 @@ class DaeSolver(Solver):
 
         arg_names = list(additional_configurations['arg_names'])
 
-        if time_variable_name not in problem.initial_conditions:
+        if isinstance(time_variable_name, list):
+
+            has_initial_time_condition_declared = all(t_i in problem.initial_conditions for t_i in time_variable_name)
+
+        else:
+
+            has_initial_time_condition_declared = time_variable_name in problem.initial_conditions
+
+        if has_initial_time_condition_declared is not True:
 
             raise AbsentRequiredObjectError("initial condition for time variable (%s)"%time_variable_name)
 
@@ -924,7 +932,7 @@ class DaeSolver(Solver):
 
         nlin_eqs = self.problem.equation_block._equation_groups['nonlinear']
 
-        return diff_eqs, lin_eqs.append(nlin_eqs)
+        return diff_eqs, lin_eqs + nlin_eqs
 
     def solve(self, conf_args={}):
 
@@ -952,11 +960,11 @@ class DaeSolver(Solver):
 
         #Adopted nomenclature for search for initial conditions defined in the Problem object for differential expressions is original_name+'_d' (eg: u_d)
 
-        yd_0 = [initial_conditions[str(diff_i.args[0])+'_d'] for diff_i in ydmap.keys()]
+        diff_names = [str(diff_i.args[0]) for diff_i in ydmap.keys()]
 
-        if self.solver == None or self.solver == 'IDA':
+        yd_0 = [initial_conditions[var_i+'_d'] if var_i in diff_names else 0. for var_i in ymap.keys()]
 
-            yd_0.append(0.)
+        if self.solver == None or self.solver == 'IDA':
 
             # ========= SET SOLVER INSTANCES ==============
 
-- 
2.43.0


From c0352b4f5a44cb18fe948469bf09a49bdef4d5d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:11 +0000
Subject: [PATCH 17/40] fix: publish steady-state values only if they satisfy
 the equations

Solvers report success for points where they stalled (eg: x=0 for x**2+1=0),
sympy returns complex or undetermined solutions, and the scipy linear solver
always raised for its variables were given by name only.
---
 src/sloth/solvers.py | 69 +++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 62 insertions(+), 7 deletions(-)

diff --git a/src/sloth/solvers.py b/src/sloth/solvers.py
index 8ac743b..45e00ef 100644
--- a/src/sloth/solvers.py
+++ b/src/sloth/solvers.py
@@ -138,6 +138,61 @@ class Solver:
 
         return np.array(Y)[:, [names.index(name_i) for name_i in domain_names]]
 
+    def _checkSolution(self, solution):
+
+        """
+        Check that a solution found for an algebraic system satisfies each one of its equations, as solvers report success for points that are not roots (eg: where the iteration stalled)
+
+        :param dict solution:
+            Values found, by the variables
+
+        :return solution:
+            The solution provided, if each of the variables has a finite real value and each of the equations holds
+        :rtype dict:
+        """
+
+        values = {sp.Symbol(str(var_i)):sp.sympify(val_i) for (var_i, val_i) in solution.items()}
+
+        if not all(sp.Symbol(var_i) in values and values[sp.Symbol(var_i)].is_number and values[sp.Symbol(var_i)].is_finite and values[sp.Symbol(var_i)].is_real for var_i in self.problem.equation_block._var_list):
+
+            raise NumericalError("No finite real solution was found (%s)."%solution)
+
+        for eq_i in self.problem.equation_block._equations_list:
+
+            terms = [sp.N(term_i.xreplace(values)) for term_i in sp.Add.make_args(sp.sympify(eq_i))]
+
+            if not all(term_i.is_finite and term_i.is_real for term_i in terms) or \
+               not abs(sum(terms)) <= 1e-6*max([1.]+[abs(term_i) for term_i in terms]):
+
+                raise NumericalError("The point found (%s) is not a solution of %s."%(solution, eq_i))
+
+        return solution
+
+    def _selectSolution(self, solutions):
+
+        """
+        Select, among the ones returned by sympy, the last solution that holds
+
+        :param list(dict) solutions:
+            Solutions returned by sympy
+
+        :return solution:
+            Last solution that holds
+        :rtype dict:
+        """
+
+        for solution_i in reversed(solutions):
+
+            try:
+
+                return self._checkSolution(solution_i)
+
+            except NumericalError:
+
+                pass
+
+        raise NumericalError("No finite real solution was found.")
+
     def _polishRoot(self, initial_guess, polisher='hybr'):
 
         fun = self.problem.equation_block._getEquationBlockAsFunction()
@@ -209,7 +264,7 @@ class LASolver(Solver):
 
         x_out = sp_solve(self.problem.equation_block._equations_list, var_names, dict=True)
 
-        return x_out[-1]
+        return self._selectSolution(x_out)
 
     def _scipySolveMechanism(self):
 
@@ -219,9 +274,9 @@ class LASolver(Solver):
 
         x_out = scp_solve(A,b)
 
-        x_dict = {str(var_i): val_i for var_i, val_i in zip(var_names, x_out)}
+        x_dict = {str(var_i): val_i for var_i, val_i in zip(var_names, x_out.ravel())}
 
-        return x_dict
+        return self._checkSolution(x_dict)
 
     def _symbolicSysSolveMechanism(self):
 
@@ -251,7 +306,7 @@ class LASolver(Solver):
 
             x_out_dict = {str(var_i): val_i for var_i, val_i in zip(var_names,x_out)}
 
-            return x_out_dict
+            return self._checkSolution(x_out_dict)
 
         else:
 
@@ -261,7 +316,7 @@ class LASolver(Solver):
 
     def _getABfromEquations(self):
 
-        A, b = sp.linear_eq_to_matrix(self.problem.equation_block._equations_list, self.problem.equation_block._var_list)
+        A, b = sp.linear_eq_to_matrix(self.problem.equation_block._equations_list, [sp.Symbol(i) for i in self.problem.equation_block._var_list])
 
         A, b = np.array(A, dtype=np.float64), np.array(b, dtype=np.float64)
 
@@ -317,7 +372,7 @@ class NLASolver(Solver):
 
         x_out = sp.solve(equations_list, var_names, dict=True)
 
-        return x_out[-1]
+        return self._selectSolution(x_out)
 
     def _symbolicSysSolveMechanism(self):
 
@@ -363,7 +418,7 @@ class NLASolver(Solver):
 
             x_out_dict = {var_i: val_i for var_i, val_i in zip(var_names,x_out)}
 
-            return x_out_dict
+            return self._checkSolution(x_out_dict)
 
         else:
 
-- 
2.43.0


From 3c89f812681d5166f1f45af2e648027cb8ea46ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:11 +0000
Subject: [PATCH 18/40] fix: start CVODE at the first of the requested times

---
 src/sloth/solvers.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/sloth/solvers.py b/src/sloth/solvers.py
index 45e00ef..3ceb219 100644
--- a/src/sloth/solvers.py
+++ b/src/sloth/solvers.py
@@ -804,7 +804,7 @@ class DSolver(Solver):
 
         else:
 
-            time_points = times_for_solution
+            time_points = np.array(times_for_solution, dtype=float)
 
         #print("\n\n\n\t\t---------->", self.solver)
 
@@ -824,6 +824,7 @@ class DSolver(Solver):
 
             exp_mod = Explicit_Problem(diffYinterfaceForAssimuloSolvers,
                                         Y_0,
+                                        t0=time_points[0],
                                         name='CVODE')
             exp_sim = CVode(exp_mod)
             exp_sim.discr='BDF'
@@ -832,7 +833,7 @@ class DSolver(Solver):
             exp_sim.atol=1e-10
             exp_sim.rtol=1e-10
 
-            time_points, Y = exp_sim.simulate(end_time, ncp_list=time_points)
+            time_points, Y = exp_sim.simulate(time_points[-1], ncp_list=time_points)
 
             time_points = np.array(time_points)
             Y = np.array(Y)
-- 
2.43.0


From a293c7a41fc0508c40bf46105a166520a31d9865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:11 +0000
Subject: [PATCH 19/40] fix: make a dumped configuration survive a crash once
 the call returned

---
 src/sloth/atomic_file.py | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/src/sloth/atomic_file.py b/src/sloth/atomic_file.py
index a21021a..cec2ac6 100644
--- a/src/sloth/atomic_file.py
+++ b/src/sloth/atomic_file.py
@@ -8,6 +8,26 @@ import os
 from contextlib import contextmanager
 
 
+def _synchronize_directory(directory_name):
+
+    """
+    Make the replacement of a file in a directory survive a crash of the machine, where the system offers this
+    """
+
+    if os.name != "posix":
+
+        return
+
+    directory = os.open(directory_name, os.O_RDONLY)
+
+    try:
+
+        os.fsync(directory)
+
+    finally:
+
+        os.close(directory)
+
 @contextmanager
 def open_atomically(file_name):
 
@@ -32,6 +52,8 @@ def open_atomically(file_name):
 
         os.replace(temporary_name, file_name)
 
+        _synchronize_directory(os.path.dirname(os.path.abspath(file_name)))
+
     except BaseException:
 
         try:
-- 
2.43.0


From 714a44b42cbd98d878f6f4bbd533617a85df663f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:01 +0000
Subject: [PATCH 20/40] fix: record a DAE run at the times asked for in
 times_for_solution

---
 src/sloth/solvers.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/sloth/solvers.py b/src/sloth/solvers.py
index 3ceb219..179d918 100644
--- a/src/sloth/solvers.py
+++ b/src/sloth/solvers.py
@@ -1008,7 +1008,13 @@ class DaeSolver(Solver):
 
             number_of_time_steps = int(2*(end_time - initial_time))
 
-        time_points = np.linspace(initial_time, end_time, number_of_time_steps+1).tolist()
+        if conf_args['times_for_solution'] is None:
+
+            time_points = np.linspace(initial_time, end_time, number_of_time_steps+1).tolist()
+
+        else:
+
+            time_points = np.array(conf_args['times_for_solution'], dtype=float).tolist()
 
         ydmap,ymap = self.problem.equation_block._getMapForRewriteSystemAsResidual()
 
@@ -1027,7 +1033,7 @@ class DaeSolver(Solver):
             problem_instance = Implicit_Problem(res=self.compiled_equations,
                                                 y0=y_0,
                                                 yd0= yd_0,
-                                                t0=initial_time,
+                                                t0=time_points[0],
                                                 name='IDA'
                                         )
 
@@ -1043,7 +1049,7 @@ class DaeSolver(Solver):
 
             f_0_ = self.compiled_equations
 
-            f_0 = self.compiled_equations(initial_time,y_0, yd_0)
+            f_0 = self.compiled_equations(time_points[0],y_0, yd_0)
 
             #print("\n\n y_0 = %s \n yd_0 = %s \n n = %s \n f_0? = %s \n f(t0,y0,yd0) = %s"%(y_0, yd_0, number_of_time_steps, f_0_, f_0))
 
@@ -1053,7 +1059,7 @@ class DaeSolver(Solver):
 
             solver_instance.verbosity = verbosity_levels[conf_args['verbosity_solver']]
 
-            Time, Y, Yd = solver_instance.simulate(end_time, 0, time_points)
+            Time, Y, Yd = solver_instance.simulate(time_points[-1], 0, time_points)
 
             #================================================
 
-- 
2.43.0


From 48be0cde238de70f18b1b05b10ce11b28aa7b4ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:00 +0000
Subject: [PATCH 21/40] fix: keep both sides of an algebraic equation declared
 with ==

---
 src/sloth/core/equation_block.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/sloth/core/equation_block.py b/src/sloth/core/equation_block.py
index 9637b75..417b958 100644
--- a/src/sloth/core/equation_block.py
+++ b/src/sloth/core/equation_block.py
@@ -310,6 +310,8 @@ class EquationBlock:
 
         self._var_list = self._getVarList()
 
-        self._equations_list = self._getEquationList()
+        # Both of the sides of an equation in the elementary form are part of the system that is solved
+
+        self._equations_list = self._getEquationList('residual')
 
         self._assignEquationGroups()
\ No newline at end of file
-- 
2.43.0


From 7dd6b333c425fe240c4f8e3755b5667a8b009034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:00 +0000
Subject: [PATCH 22/40] fix: name the columns of the log kept by differential
 evolution

---
 src/sloth/optimization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sloth/optimization.py b/src/sloth/optimization.py
index e46dd77..f5d40cf 100644
--- a/src/sloth/optimization.py
+++ b/src/sloth/optimization.py
@@ -404,7 +404,7 @@ class Optimization:
 
                 self._pagmo_selected_algorithm = pg.de
 
-                self._pagmo_selected_algorithm_log_columns = ['Gen', 'Fevals', 'Best', 'F', 'CR', 'dx', 'df']
+                self._pagmo_selected_algorithm_log_columns = ['Gen', 'Fevals', 'Best', 'dx', 'df']
 
                 algo = pg.algorithm(pg.de(gen=gen, F=f_w, CR = cr, variant=de_variant, ftol=de_ftol, xtol=de_xtol))
 
-- 
2.43.0


From f2d9b4de3e8b96a2ad39764563449ebb7c4931c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:00 +0000
Subject: [PATCH 23/40] fix: draw the optimization graph of a study without log
 entries

---
 src/sloth/optimization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sloth/optimization.py b/src/sloth/optimization.py
index f5d40cf..af61eeb 100644
--- a/src/sloth/optimization.py
+++ b/src/sloth/optimization.py
@@ -588,7 +588,7 @@ class Optimization:
 
                 plt.clf()
 
-                plt.xlim(0, max(function_evaluations))
+                plt.xlim(0, max(function_evaluations, default=1))
 
                 curr_time = datetime.now()
 
-- 
2.43.0


From 052f24b9f26b362b2c4e2128eee8c4dc3a943f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:29 +0000
Subject: [PATCH 24/40] fix: let a quantity take the value of any other
 quantity of its dimension

---
 src/sloth/core/constant.py  | 2 +-
 src/sloth/core/parameter.py | 2 +-
 src/sloth/core/quantity.py  | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/sloth/core/constant.py b/src/sloth/core/constant.py
index 132fa53..411e34e 100644
--- a/src/sloth/core/constant.py
+++ b/src/sloth/core/constant.py
@@ -71,7 +71,7 @@ class Constant(Quantity):
             Unit object for the parameter. Defaults to currennt units
         """
 
-        if isinstance(quantity_value, self.__class__):
+        if isinstance(quantity_value, Quantity):
 
 
             if quantity_unit == None and  quantity_value.units._check_dimensional_coherence(self.units) == True:
diff --git a/src/sloth/core/parameter.py b/src/sloth/core/parameter.py
index 39d0274..65c63ce 100644
--- a/src/sloth/core/parameter.py
+++ b/src/sloth/core/parameter.py
@@ -57,7 +57,7 @@ class Parameter(Quantity):
             Unit object for the parameter. Defaults to currennt units
         """
 
-        if isinstance(quantity_value, self.__class__):
+        if isinstance(quantity_value, Quantity):
 
 
             if quantity_unit == None and  quantity_value.units._check_dimensional_coherence(self.units) == True:
diff --git a/src/sloth/core/quantity.py b/src/sloth/core/quantity.py
index 3454266..f8ac260 100644
--- a/src/sloth/core/quantity.py
+++ b/src/sloth/core/quantity.py
@@ -75,7 +75,7 @@ class Quantity:  # New-style class syntax
         """
         Set the current value for the Quantity object given a value and optionally an Unit object
         """
-        if isinstance(quantity_value, self.__class__):
+        if isinstance(quantity_value, Quantity):
 
 
             if quantity_unit == None and  quantity_value.units._check_dimensional_coherence(self.units) == True:
-- 
2.43.0


From 41411e87dc0e88c8dc54b1dc7c39e66f2b43c444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:39 +0000
Subject: [PATCH 25/40] fix: compare the dimensions of Min and Max arguments
 when numbers are among them

---
 src/sloth/core/equation_operators.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/sloth/core/equation_operators.py b/src/sloth/core/equation_operators.py
index 242601c..f3b573b 100644
--- a/src/sloth/core/equation_operators.py
+++ b/src/sloth/core/equation_operators.py
@@ -197,6 +197,10 @@ def Min(*obj):
 
         obj_dims = [obj_i.unit_object for obj_i in obj if hasattr(obj_i,'unit_object')][0]
 
+        if not all(obj_dims._check_dimensional_coherence(obj_i.unit_object) for obj_i in obj if hasattr(obj_i,'unit_object')):
+
+            raise UnexpectedValueError("A set of objects with equivalent dimensions")
+
         if obj_dims is []:
 
             obj_dims = dimless
@@ -295,6 +299,10 @@ def Max(*obj):
 
         obj_dims = [obj_i.unit_object for obj_i in obj if hasattr(obj_i,'unit_object')][0]
 
+        if not all(obj_dims._check_dimensional_coherence(obj_i.unit_object) for obj_i in obj if hasattr(obj_i,'unit_object')):
+
+            raise UnexpectedValueError("A set of objects with equivalent dimensions")
+
         if obj_dims is []:
 
             obj_dims = dimless
-- 
2.43.0


From de65594e46f1d0c5bae3e77efc9c0e7ed00d4762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:47 +0000
Subject: [PATCH 26/40] fix: never hand the same default list or dictionary to
 two objects

---
 src/sloth/core/domain.py           | 5 +++--
 src/sloth/core/property_package.py | 3 ++-
 src/sloth/optimization.py          | 4 ++--
 src/sloth/simulation.py            | 9 ++++++++-
 4 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/sloth/core/domain.py b/src/sloth/core/domain.py
index 6cb0c57..3f32ca3 100644
--- a/src/sloth/core/domain.py
+++ b/src/sloth/core/domain.py
@@ -5,6 +5,7 @@ Define Domain class, which distributes one equation among a domain of variables.
 """
 
 import pandas as pd
+from copy import copy
 from .error_definitions import UnexpectedValueError
 import numpy as np
 from collections import OrderedDict
@@ -62,9 +63,9 @@ class Domain:
 
         self.description = description
 
-        self.lower_bound = lower_bound
+        self.lower_bound = copy(lower_bound)
 
-        self.upper_bound = upper_bound
+        self.upper_bound = copy(upper_bound)
 
         self.values = None
 
diff --git a/src/sloth/core/property_package.py b/src/sloth/core/property_package.py
index aca5740..4aab6ff 100644
--- a/src/sloth/core/property_package.py
+++ b/src/sloth/core/property_package.py
@@ -5,6 +5,7 @@ Define ProperyPackage class, which holds the information about the species invol
 """
 
 import thermo
+from copy import copy
 from .error_definitions import *
 
 class PropertyPackage:
@@ -29,7 +30,7 @@ class PropertyPackage:
 
         self.phases = {phase_i: thermo.chemical.Chemical(phase_i, self.T, self.P) for phase_i in phase_names if phase_i is not None}
 
-        self.ws = ws
+        self.ws = copy(ws)
 
         self.zs = zs
 
diff --git a/src/sloth/optimization.py b/src/sloth/optimization.py
index af61eeb..e2bd2ed 100644
--- a/src/sloth/optimization.py
+++ b/src/sloth/optimization.py
@@ -219,9 +219,9 @@ class Optimization:
 
         self.constraints_fun = constraints_fun
 
-        self.constraints_additional_args = constraints_additional_args
+        self.constraints_additional_args = copy.copy(constraints_additional_args)
 
-        self.additional_args = additional_args
+        self.additional_args = copy.copy(additional_args)
 
         self.objective_function = objective_function
 
diff --git a/src/sloth/simulation.py b/src/sloth/simulation.py
index 09f7e33..dfbde44 100644
--- a/src/sloth/simulation.py
+++ b/src/sloth/simulation.py
@@ -14,6 +14,7 @@ import prettytable
 import numpy as np
 from collections import OrderedDict
 import json
+from copy import copy
 from .core.quantity import Quantity
 from .print_headings import print_heading
 from .atomic_file import open_atomically
@@ -128,6 +129,12 @@ class Simulation:
             Dictionary containing configurations for override all Simulation.runSimulation arguments with those defined in it. Tipically used for performing consecutive simulations (eg: optimization) or using predefined simulation configurations
         """
 
+        # The default arguments belong to no configuration
+
+        initial_guess, configuration_args, variable_name_map = copy(initial_guess), copy(configuration_args), copy(variable_name_map)
+
+        arg_names, args = copy(arg_names), copy(args)
+
         default_simulation_configurations = {'compile_equations': compile_equations,
                                              'domain': domain,
                                              'time_variable_name': time_variable_name,
@@ -515,4 +522,4 @@ class SimulationAsFunction:
 
         self.simulation = simulation
 
-        self.input_variables = input_variables
+        self.input_variables = copy(input_variables)
-- 
2.43.0


From 0880f737123b7bd8cb1a740f23e1684033152331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:32 +0000
Subject: [PATCH 27/40] fix: do not name an unnamed equation like one the user
 numbered

Automatic names were bare numbers, so an unnamed equation and one named '1' by
the user replaced each other in the model.
---
 src/sloth/core/equation.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/sloth/core/equation.py b/src/sloth/core/equation.py
index 211143e..23fccfe 100644
--- a/src/sloth/core/equation.py
+++ b/src/sloth/core/equation.py
@@ -45,7 +45,9 @@ class Equation:
 
         if name is "":
 
-            name = gen_rnd_str()
+            # Not a bare number, which is a name that users give to their own equations
+
+            name = "unnamed_" + gen_rnd_str()
 
         #print("===> fast_expr = ", fast_expr,", owner_model_name = ", owner_model_name)
 
-- 
2.43.0


From 309cc8cc6fde1ab37d7be97704433e2d6a536f36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:32 +0000
Subject: [PATCH 28/40] fix: keep connections with equal labels or variables
 but other expressions

Two connections under one label, or between the same variables with their own
expressions, had one name, so the second silently replaced the first.
---
 src/sloth/model.py   |  8 +++++++-
 src/sloth/problem.py | 33 ++++++++++++++++++++++++---------
 2 files changed, 31 insertions(+), 10 deletions(-)

diff --git a/src/sloth/model.py b/src/sloth/model.py
index ac4cf65..e7e2c63 100644
--- a/src/sloth/model.py
+++ b/src/sloth/model.py
@@ -662,7 +662,13 @@ class Model:
 
             conn._sweepObjects()
 
-            self.equations[name] = conn
+            # Do not replace another connection of the same variables
+
+            while conn.name in self.equations and self.equations[conn.name].equation_expression.repr_symbolic != conn.equation_expression.repr_symbolic:
+
+                conn.name += "'"
+
+            self.equations[conn.name] = conn
 
             return(conn)
 
diff --git a/src/sloth/problem.py b/src/sloth/problem.py
index fce14d4..fde2c19 100644
--- a/src/sloth/problem.py
+++ b/src/sloth/problem.py
@@ -271,23 +271,32 @@ class Problem:
                 if model_1 is "":
                     model_1 = gen_rnd_str()
 
-                model_2.createEquation("conn_"+model_1+"-->"+model_2.name, "Connection from "+model_1+" to "+model_2.name, input_vars - output_vars, check_equation=False)
+                self._createExpressionConnection(model_1, model_2, output_vars, input_vars)
 
             elif isinstance(model_1, Model) is True:
 
-                name = "conn_"+model_1.name+"-->"+model_2.name
+                self._createExpressionConnection(model_1.name, model_2, output_vars, input_vars)
 
-                # Do not replace another connection between the same models
+            else:
 
-                while name+"_"+model_2.name in model_2.equations and model_2.equations[name+"_"+model_2.name]().repr_symbolic != (input_vars - output_vars).repr_symbolic:
+                raise AbsentRequiredObjectError("[Model, str]")
 
-                    name += "'"
 
-                model_2.createEquation(name, "Connection from "+model_1.name+" to "+model_2.name, input_vars - output_vars, check_equation=False)
+    def _createExpressionConnection(self, out_name, in_model, out_expr, in_expr):
 
-            else:
+        """
+        Create a connection to one model, given by two expressions, without replacing another connection from the same origin
+        """
 
-                raise AbsentRequiredObjectError("[Model, str]")
+        name = "conn_"+out_name+"-->"+in_model.name
+
+        expr = in_expr - out_expr
+
+        while name+"_"+in_model.name in in_model.equations and in_model.equations[name+"_"+in_model.name].equation_expression.repr_symbolic != expr.repr_symbolic:
+
+            name += "'"
+
+        in_model.createEquation(name, "Connection from "+out_name+" to "+in_model.name, expr, check_equation=False)
 
 
     def _createDirectConnection(self, out_model, out_vars, in_model, in_vars, expr, description):
@@ -304,7 +313,13 @@ class Problem:
 
         #in_model._createConnection(out_var.name+"--->"+in_var.name, description, out_var, in_var, out_model, expr)
 
-        self.connections[out_var_names+"@"+out_model.name+" ---> "+in_var_names+"@"+in_model.name] = conn
+        connection_name = out_var_names+"@"+out_model.name+" ---> "+in_var_names+"@"+in_model.name
+
+        # Several connections of the same variables, each by its own expression, are distinguished as in the model
+
+        connection_name += conn.name[len(out_var_names+"--->"+in_var_names):]
+
+        self.connections[connection_name] = conn
 
         #return conn
 
-- 
2.43.0


From 4c00df53fd4a699d370bb09c937e19cca7d9f228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:44 +0000
Subject: [PATCH 29/40] fix: leave no equation behind when a declaration is
 interrupted at its end

An interrupt after the equations had been declared, but before they had been
noted, kept unnamed equations beside those of the repeated declaration.
---
 src/sloth/model.py | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/src/sloth/model.py b/src/sloth/model.py
index e7e2c63..3770daf 100644
--- a/src/sloth/model.py
+++ b/src/sloth/model.py
@@ -563,29 +563,33 @@ class Model:
 
         equations_before = dict(self.equations)
 
+        names_before = self._names_of_declared_equations
+
         try:
 
             self.DeclareEquations()
 
-        except BaseException:
+            # Drop the equations that the previous declaration created and the current one did not (eg: unnamed ones)
 
-            # The equations of an interrupted declaration are not part of the model
+            for name_i in names_before:
 
-            self.equations.clear()
+                if name_i in self.equations and self.equations[name_i] is equations_before.get(name_i):
 
-            self.equations.update(equations_before)
+                    del self.equations[name_i]
 
-            raise
+            self._names_of_declared_equations = [name_i for name_i, eq_i in self.equations.items() if eq_i is not equations_before.get(name_i)]
 
-        # Drop the equations that the previous declaration created and the current one did not (eg: unnamed ones)
+        except BaseException:
+
+            # The equations of an interrupted declaration are not part of the model
 
-        for name_i in self._names_of_declared_equations:
+            self.equations.clear()
 
-            if name_i in self.equations and self.equations[name_i] is equations_before.get(name_i):
+            self.equations.update(equations_before)
 
-                del self.equations[name_i]
+            self._names_of_declared_equations = names_before
 
-        self._names_of_declared_equations = [name_i for name_i, eq_i in self.equations.items() if eq_i is not equations_before.get(name_i)]
+            raise
 
         if len(self.variables) == 0 and self.ignore_variable_warning is False:
 
-- 
2.43.0


From 78ae59aeb32ab1e6f450e331965f1c698755d2d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:34 +0000
Subject: [PATCH 30/40] fix: incorporating a model renames the symbols of its
 equations all at once, also when a side is a number

---
 src/sloth/core/equation.py | 28 +++++++++++-----------------
 1 file changed, 11 insertions(+), 17 deletions(-)

diff --git a/src/sloth/core/equation.py b/src/sloth/core/equation.py
index 23fccfe..fefa861 100644
--- a/src/sloth/core/equation.py
+++ b/src/sloth/core/equation.py
@@ -290,33 +290,27 @@ class Equation:
                 equation_expression object.
         """
 
-        self.equation_expression.repr_symbolic = self.equation_expression.repr_symbolic.subs(names_map)
+        def rename(expression):
 
-        self.equation_expression.symbolic_object = self.equation_expression.symbolic_object.subs(names_map)
+            # All at once, as new names can be old names of other objects. A side of an equation can also be a number
 
-        if self.elementary_equation_expression is not None:
-
-            elem_expr = list(self.elementary_equation_expression)
+            expression = sp.sympify(expression)
 
-            elem_expr[0].repr_symbolic = elem_expr[0].repr_symbolic.subs(names_map)
+            return expression.xreplace({s: sp.Symbol(names_map[s.name]) for s in expression.atoms(sp.Symbol) if s.name in names_map})
 
-            elem_expr[1].repr_symbolic = elem_expr[1].repr_symbolic.subs(names_map)
+        self.equation_expression.repr_symbolic = rename(self.equation_expression.repr_symbolic)
 
-            try:
-
-                elem_expr[0].symbolic_object = elem_expr[0].symbolic_object.subs(names_map)
+        self.equation_expression.symbolic_object = rename(self.equation_expression.symbolic_object)
 
-            except:
-
-                pass #Element does not support symbolic substitution. It is a float.
+        if self.elementary_equation_expression is not None:
 
-            try:
+            elem_expr = list(self.elementary_equation_expression)
 
-                elem_expr[1].symbolic_object = elem_expr[1].symbolic_object.subs(names_map)
+            for side in elem_expr:
 
-            except:
+                side.repr_symbolic = rename(side.repr_symbolic)
 
-                pass #Element does not support symbolic substitution. It is a float.
+                side.symbolic_object = rename(side.symbolic_object)
 
             symbols_used_0 = [str(i) for i in list(elem_expr[0].repr_symbolic.free_symbols)]
 
-- 
2.43.0


From ee9086916fb521d7e8f961f3eccdb0ff6de6c431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:31 +0000
Subject: [PATCH 31/40] fix: a reset reaches the domain of a run that failed
 after recording its rows

---
 src/sloth/simulation.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/sloth/simulation.py b/src/sloth/simulation.py
index dfbde44..6abb315 100644
--- a/src/sloth/simulation.py
+++ b/src/sloth/simulation.py
@@ -247,6 +247,10 @@ class Simulation:
 
             dof_analist._makeSanityChecks()
 
+        # The rows of a run are in its domain before the run ends: 'reset' has to reach them even if it never does
+
+        self.domain = self.configurations['domain']
+
         out = solver_mechanism.solve(self.configurations)
 
         '''
@@ -257,8 +261,6 @@ class Simulation:
 
         self.output = out
 
-        self.domain = self.configurations['domain']
-
         if show_output_msg is True:
 
             exit_status = self.getStatus()
-- 
2.43.0


From be19056a98f5bffe89cffe91a480d0d135f1929c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:31 +0000
Subject: [PATCH 32/40] fix: publish the parameters and the fitness of a study
 together

---
 src/sloth/optimization.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sloth/optimization.py b/src/sloth/optimization.py
index e2bd2ed..c4e0ac4 100644
--- a/src/sloth/optimization.py
+++ b/src/sloth/optimization.py
@@ -553,9 +553,9 @@ class Optimization:
 
             pop = self.optimization_mechanism.evolve(pop)
 
-            self.best_parameters = pop.champion_x
+            # Published together, so that an interruption cannot leave the parameters of one study beside the fitness of another
 
-            self.best_fitness = pop.champion_f
+            self.best_parameters, self.best_fitness = pop.champion_x, pop.champion_f
 
             end_time = time()
 
-- 
2.43.0


From 70af494dc856ea56278b6b32a88233f1eb60ce1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:08 +0000
Subject: [PATCH 33/40] fix: the derived flux of a material stream follows the
 flux that is set anew

---
 src/sloth/unit_op_library.py | 45 +++++++++++++++++++++++++++++++-----
 1 file changed, 39 insertions(+), 6 deletions(-)

diff --git a/src/sloth/unit_op_library.py b/src/sloth/unit_op_library.py
index 4722f13..79d5214 100644
--- a/src/sloth/unit_op_library.py
+++ b/src/sloth/unit_op_library.py
@@ -11,6 +11,33 @@ from .core.domain import *
 
 #from .unit_op import UnitOp, MaterialStream
 
+
+def _releaseDerivedFlux(stream):
+
+    """
+    Make the flux that was derived in a previous declaration of a stream follow again the one set by the user, unless the user has set it meanwhile
+    """
+
+    flux, value = getattr(stream, '_derived_flux', (None, None))
+
+    if flux is not None and flux.value == value:
+
+        flux.is_specified = False
+
+    stream._derived_flux = (None, None)
+
+
+def _setDerivedFlux(stream, flux, value):
+
+    """
+    Set the flux of a stream that is derived from the other one, remembering that it was not set by the user
+    """
+
+    stream._derived_flux = (flux, value)
+
+    flux.setValue(value)
+
+
 class HomogeneousMaterialStream(model.Model):
 
     """
@@ -41,13 +68,15 @@ class HomogeneousMaterialStream(model.Model):
         #try to set values if the property_package was defined
         if self.property_package is not None:
 
+            _releaseDerivedFlux(self)
+
             if self.mdot.is_specified is True and self.ndot.is_specified is not True:
 
-                self.ndot.setValue( self.mdot.value/(self.property_package["*"].MW*1e-3) )
+                _setDerivedFlux(self, self.ndot, self.mdot.value/(self.property_package["*"].MW*1e-3))
 
             if self.mdot.is_specified is not True and self.ndot.is_specified is True:
 
-                self.mdot.setValue( self.ndot.value*self.property_package["*"].MW*1e-3 )
+                _setDerivedFlux(self, self.mdot, self.ndot.value*self.property_package["*"].MW*1e-3)
 
         #Recalculate property_package if T and P where provided
 
@@ -95,13 +124,15 @@ class MaterialStream(model.Model):
         #try to set values if the property_package was defined
         if self.property_package is not None:
 
+            _releaseDerivedFlux(self)
+
             if self.mdot.is_specified is True and self.ndot.is_specified is False:
 
-                self.ndot.setValue( self.mdot.value/(self.property_package["*"].MW*1e-3) )
+                _setDerivedFlux(self, self.ndot, self.mdot.value/(self.property_package["*"].MW*1e-3))
 
             if self.mdot.is_specified is False and self.ndot.is_specified is True:
 
-                self.mdot.setValue( self.ndot.value*self.property_package["*"].MW*1e-3 )
+                _setDerivedFlux(self, self.mdot, self.ndot.value*self.property_package["*"].MW*1e-3)
 
         #Recalculate property_package if T and P where provided
 
@@ -154,13 +185,15 @@ class MultiphasicMaterialStream(model.Model):
         #try to set values if the property_package was defined
         if self.property_package is not None:
 
+            _releaseDerivedFlux(self)
+
             if self.mdot.is_specified is True and self.ndot.is_specified is False:
 
-                self.ndot.setValue( self.mdot.value/(self.property_package["*"].MW*1e-3) )
+                _setDerivedFlux(self, self.ndot, self.mdot.value/(self.property_package["*"].MW*1e-3))
 
             if self.mdot.is_specified is False and self.ndot.is_specified is True:
 
-                self.mdot.setValue( self.ndot.value*self.property_package["*"].MW*1e-3 )
+                _setDerivedFlux(self, self.mdot, self.ndot.value*self.property_package["*"].MW*1e-3)
 
         #Recalculate property_package if T and P where provided
 
-- 
2.43.0


From 1f9a89ec0451ec0b2815b428c0e8f8dea9bf8625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:08 +0000
Subject: [PATCH 34/40] fix: a material stream without property package can be
 given its temperature and pressure

---
 src/sloth/unit_op_library.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/sloth/unit_op_library.py b/src/sloth/unit_op_library.py
index 79d5214..6451a0d 100644
--- a/src/sloth/unit_op_library.py
+++ b/src/sloth/unit_op_library.py
@@ -78,6 +78,10 @@ class HomogeneousMaterialStream(model.Model):
 
                 _setDerivedFlux(self, self.mdot, self.ndot.value*self.property_package["*"].MW*1e-3)
 
+        if self.property_package is None:
+
+            return
+
         #Recalculate property_package if T and P where provided
 
         if self.T.is_specified is True and self.P.is_specified is False:
@@ -134,6 +138,10 @@ class MaterialStream(model.Model):
 
                 _setDerivedFlux(self, self.mdot, self.ndot.value*self.property_package["*"].MW*1e-3)
 
+        if self.property_package is None:
+
+            return
+
         #Recalculate property_package if T and P where provided
 
         if self.T.is_specified is True and self.P.is_specified is False:
@@ -195,6 +203,10 @@ class MultiphasicMaterialStream(model.Model):
 
                 _setDerivedFlux(self, self.mdot, self.ndot.value*self.property_package["*"].MW*1e-3)
 
+        if self.property_package is None:
+
+            return
+
         #Recalculate property_package if T and P where provided
 
         if self.T.is_specified is True and self.P.is_specified is False:
-- 
2.43.0


From 07663630c1c280e91c0e890e45bb71ad71ad4e07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:12 +0000
Subject: [PATCH 35/40] fix: record a run whose only requested time is the
 initial one

---
 src/sloth/solvers.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/sloth/solvers.py b/src/sloth/solvers.py
index 179d918..18c6ad8 100644
--- a/src/sloth/solvers.py
+++ b/src/sloth/solvers.py
@@ -816,7 +816,11 @@ class DSolver(Solver):
                         **{**conf_args_, 'full_output':True}
                        )
 
-            if info['message'] != 'Integration successful.' or not np.all(np.isfinite(Y)):
+            # There is nothing to integrate when the initial time is the only one asked for
+
+            is_successful = info['message'].startswith(('Integration successful', 'Nothing was done; the integration time was 0'))
+
+            if not is_successful or not np.all(np.isfinite(Y)):
 
                 raise NumericalError("Integration failed: %s"%info['message'])
 
-- 
2.43.0


From 69e370578c0f3f1909d1e106c8c91d8dbd965b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:40 +0000
Subject: [PATCH 36/40] fix: make Log10 the decimal logarithm also where it is
 derived, simplified or compiled

---
 src/sloth/core/equation_operators.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/sloth/core/equation_operators.py b/src/sloth/core/equation_operators.py
index f3b573b..9f0ab39 100644
--- a/src/sloth/core/equation_operators.py
+++ b/src/sloth/core/equation_operators.py
@@ -16,7 +16,9 @@ Transcedental functions for utilization in the equation definition
 
 def _Log10(sp_obj, evaluate=True):
 
-    return(sp.log(sp_obj,10,evaluate=evaluate))
+    # sympy derives, simplifies and prints the unevaluated log(x,10) as if it was the natural logarithm
+
+    return(sp.log(sp_obj,evaluate=evaluate)/sp.log(10))
 
 def wrapper(own_func, obj, base_func, latex_func_name=None, equation_type=None, dim_check=True, ind_var=None):
 
-- 
2.43.0


From 0bc74480036741196abb3166f6da0f1537ead862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:24 +0000
Subject: [PATCH 37/40] fix: compile equations with Min and Max

---
 src/sloth/core/equation_block.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/sloth/core/equation_block.py b/src/sloth/core/equation_block.py
index 417b958..bca51b3 100644
--- a/src/sloth/core/equation_block.py
+++ b/src/sloth/core/equation_block.py
@@ -176,9 +176,15 @@ class EquationBlock:
 
             if differential_form == 'elementary':
 
+                # sympy prints Min and Max as reductions, which numba does not compile
+
+                minimum_, maximum_ = sp.Function("min"), sp.Function("max")
+
+                equations_ = [sp.sympify(eq_i).replace(sp.Min, minimum_).replace(sp.Max, maximum_) for eq_i in self._getEquationList(differential_form,side)]
+
                 fun_ = sp.lambdify(self._var_list,
-                                   self._getEquationList(differential_form,side),
-                                   [{'Min':min, 'Max':max, 'Sin':np.sin, 'Cos':np.cos}, compilation_mechanism]
+                                   equations_,
+                                   [{'min':min, 'max':max, 'Sin':np.sin, 'Cos':np.cos}, compilation_mechanism]
                             )
 
                 return jit(fun_)
-- 
2.43.0


From 21967427734e64b7f3001768ac29f11dc878afef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:26 +0000
Subject: [PATCH 38/40] fix: a power whose exponent is a specified quantity has
 the dimension the exponent gives it

---
 src/sloth/core/expression_evaluation.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/sloth/core/expression_evaluation.py b/src/sloth/core/expression_evaluation.py
index 9ff9bed..142ab15 100644
--- a/src/sloth/core/expression_evaluation.py
+++ b/src/sloth/core/expression_evaluation.py
@@ -4,6 +4,8 @@
 Define EquationNode class, that holds the reference to variables in the equations
 """
 
+import sympy as sp
+
 from .error_definitions import UnexpectedValueError, DimensionalCoherenceError
 
 class EquationNode:
@@ -539,14 +541,18 @@ class EquationNode:
 
             if other_obj.unit_object._is_dimensionless() == True:
 
-                #other_obj is dimensionless
+                #other_obj is dimensionless. If its value is known, so is the dimension of the power
+
+                power_ = sp.sympify(other_obj.symbolic_object).evalf()
+
+                unit_power_ = float(power_) if power_.is_Number else other_obj.unit_object
 
                 enode_ = self.__class__(
                                     name="**".join([self.name, other_obj.name]),
                                     symbolic_object=self.symbolic_object**other_obj.symbolic_object,
                                     symbolic_map={**self.symbolic_map, **other_obj.symbolic_map},
                                     variable_map={**self.variable_map, **other_obj.variable_map},
-                                    unit_object=self.unit_object**other_obj.unit_object,
+                                    unit_object=self.unit_object**unit_power_,
                                     latex_text=self.latex_text+"^"+other_obj.latex_text,             
                                     repr_symbolic=self.repr_symbolic**other_obj.repr_symbolic   
                                     )
-- 
2.43.0


From ab6549ea0e00cdc75a7f4fa4727ea4e86c0a4e8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:28 +0000
Subject: [PATCH 39/40] fix: print final residuals as numbers

---
 src/sloth/simulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sloth/simulation.py b/src/sloth/simulation.py
index 6abb315..f4048eb 100644
--- a/src/sloth/simulation.py
+++ b/src/sloth/simulation.py
@@ -286,7 +286,7 @@ class Simulation:
                 for i,_ in enumerate(self.problem.equation_block.equations):
 
                     tab.add_row([self.problem.equation_block.equations[i].name,
-                                 self.problem.equation_block._equations_list[i].subs(self.getResults('dict'))]
+                                 self.problem.equation_block._equations_list[i].subs(self.getResults('dict')).evalf()]
                                 )
 
                 print(header + str(tab))
-- 
2.43.0


From bc3860c150704337e45c3d261754dee4f267c7df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:05 +0000
Subject: [PATCH 40/40] fix: refuse differential systems whose derivatives are
 not alone on the left-hand side

---
 src/sloth/solvers.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/sloth/solvers.py b/src/sloth/solvers.py
index 18c6ad8..7dd9029 100644
--- a/src/sloth/solvers.py
+++ b/src/sloth/solvers.py
@@ -622,7 +622,15 @@ class DSolver(Solver):
                  eq_i.elementary_equation_expression[1].args)
                 )
             """
-            y_name.append(str(eq_i.elementary_equation_expression[0].symbolic_object.args[0]))
+            elementary_ = eq_i.elementary_equation_expression
+
+            # Only the right-hand side is integrated, hence the left one must be the derivative alone
+
+            if elementary_ is None or elementary_[0].symbolic_object.is_Derivative != True:
+
+                raise UnexpectedValueError("differential equation with a single derivative on its left-hand side")
+
+            y_name.append(str(elementary_[0].symbolic_object.args[0]))
 
         return y_name
 
-- 
2.43.0

