From 379a8bc2c04f21840b2903f5943c7dc3372bf109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:30 +0000
Subject: [PATCH 01/56] fix: keep memoized results per solver instead of
 sharing them between models

---
 scaks/descriptors/descriptors.py | 38 ++++++++++++++++++++++----------
 1 file changed, 26 insertions(+), 12 deletions(-)

diff --git a/scaks/descriptors/descriptors.py b/scaks/descriptors/descriptors.py
index 694f7e0..1d11b46 100644
--- a/scaks/descriptors/descriptors.py
+++ b/scaks/descriptors/descriptors.py
@@ -4,6 +4,7 @@ Definitions of attribute descriptors.
 
 import numpy as np
 import copy
+from functools import wraps
 
 from ..utilities.check_utilities import check_species_definitions
 from ..utilities.check_utilities import check_ref_energies
@@ -377,24 +378,37 @@ class Memoized(object):
     """
     def __init__(self, func):
         self.func = func
-        self.results = {}
 
     def __get__(self, instance, cls):
-        self.instance = instance
-        return self
+        if instance is None:
+            return self
+
+        @wraps(self.func)
+        def memoized_method(**kwargs):
+            return self.__call(instance, **kwargs)
+
+        return memoized_method
+
+    def __call(self, instance, **kwargs):
+        # NOTE: the results are cached in the instance itself because a result
+        #       of an instance says nothing about the one of another instance.
+        all_results = instance.__dict__.setdefault("_memoized_results", {})
+        results = all_results.setdefault(self.func.__name__, {})
 
-    def __call__(self, **kwargs):
         # Make all arguments hashable.
         key = make_hashable(kwargs)
 
-        # NOTE: if relative_energies is None, then we should
+        # NOTE: if no relative_energies is provided, then we should
         #       search the model's relative energies.
-        if "relative_energies" in key and key["relative_energies"] is None:
-            key["relative_energies"] = make_hashable(self.instance._owner.relative_energies)
+        if not key.get("relative_energies"):
+            key["relative_energies"] = make_hashable(instance._owner.relative_energies)
+
+        # NOTE: the key must not be changed any more even if the caller changes
+        #       the arguments later.
+        key = copy.deepcopy(key)
 
-        try:
-            return self.results[key]
-        except KeyError:
-            self.results[key] = self.func(self.instance, **kwargs)
-            return self.results[key]
+        if key not in results:
+            results[key] = self.func(instance, **kwargs)
 
+        # Use deep copy to avoid modification of the cached result.
+        return copy.deepcopy(results[key])
-- 
2.43.0


From d77627fe62536b488942007f62a12053a5897460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:38 +0000
Subject: [PATCH 02/56] fix: do not share mutable default attribute values
 between models

---
 scaks/descriptors/descriptors.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scaks/descriptors/descriptors.py b/scaks/descriptors/descriptors.py
index 1d11b46..d85d6af 100644
--- a/scaks/descriptors/descriptors.py
+++ b/scaks/descriptors/descriptors.py
@@ -31,7 +31,8 @@ class AttrDescriptor(object):
     def __get__(self, instance, owner):
         private_name = "_{}__{}".format(instance.__class__.__name__, self.name)
         if private_name not in instance.__dict__:
-            instance.__dict__[private_name] = self.default
+            # NOTE: default value must not be shared between instances.
+            instance.__dict__[private_name] = copy.deepcopy(self.default)
         if self.deepcopy:
             return copy.deepcopy(instance.__dict__[private_name])
         else:
-- 
2.43.0


From 7ff1cb515dbd186670ae58e5cf2ebb9d70cb5640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:07 +0000
Subject: [PATCH 03/56] fix: set the given plotter and keep the type check of
 the corrector setter

---
 scaks/models/kinetic_model.py | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/scaks/models/kinetic_model.py b/scaks/models/kinetic_model.py
index e6b7417..f3d72b2 100644
--- a/scaks/models/kinetic_model.py
+++ b/scaks/models/kinetic_model.py
@@ -404,15 +404,7 @@ class KineticModel(object):
         :param plotter: Valid plotter object
         :type plotter: any
         '''
-        setattr(self, mangled_name(self, 'plotter'), solver)
-
-    def set_corrector(self, corrector):
-        ''' Set corrector for current model
-
-        :param corrector: Valid corrector object
-        :type corrector: any
-        '''
-        setattr(self, mangled_name(self, 'corrector'), corrector)
+        setattr(self, mangled_name(self, 'plotter'), plotter)
 
     @Property
     def log_allowed(self):
-- 
2.43.0


From 0be483d6243e5481415f0932247d068fa32f1b8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:15 +0000
Subject: [PATCH 04/56] fix: split a sequence without losing elements when its
 length is not a multiple of the process number

---
 scaks/mpicommons.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/scaks/mpicommons.py b/scaks/mpicommons.py
index fe9f49d..c172266 100644
--- a/scaks/mpicommons.py
+++ b/scaks/mpicommons.py
@@ -62,9 +62,11 @@ class MPIUtil(object):
         :param sequence: The data sequence to be divided for parallel processing
         :type sequence: list
         '''
-        starts = [i for i in range(0, len(sequence), len(sequence)//self.size)]
-        ends = starts[1: ] + [len(sequence)]
-        start, end = list(zip(starts, ends))[self.rank]
+        # NOTE: the first processes take one element more if the length of
+        #       sequence can not be divided exactly (the same with split_size).
+        quotient, residual = divmod(len(sequence), self.size)
+        start = self.rank*quotient + min(self.rank, residual)
+        end = start + quotient + (1 if self.rank < residual else 0)
 
         return sequence[start: end]
 
-- 
2.43.0


From bd81d48bee7e86ed7d3a72c4209f43a038ec9d0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:15 +0000
Subject: [PATCH 05/56] fix: derive dtheta/dt from the net stoichiometry of the
 adsorbate

---
 scaks/solvers/steady_state_solver.py | 43 ++++++++++++----------------
 1 file changed, 18 insertions(+), 25 deletions(-)

diff --git a/scaks/solvers/steady_state_solver.py b/scaks/solvers/steady_state_solver.py
index 4433bab..df9518a 100644
--- a/scaks/solvers/steady_state_solver.py
+++ b/scaks/solvers/steady_state_solver.py
@@ -133,40 +133,32 @@ class SteadyStateSolver(MeanFieldSolver):
         rxn_equation = RxnEquation(rxn_expression)
         elementary_rxn_list = rxn_equation.to_formula_list()
 
-        # Find formula list index.
-        for formula_list in elementary_rxn_list:
-            for formula in formula_list:
-                stoichiometry = formula.stoichiometry()
-                current_species = formula.species_site()
-                if current_species == adsorbate_name:
-                    break
+        # Get the net stoichiometry of the adsorbate in the elementary reaction.
+        def total_stoichiometry(formula_list):
+            return sum(formula.stoichiometry() for formula in formula_list
+                       if formula.species_site() == adsorbate_name)
 
-            if current_species == adsorbate_name:
-                # Get state idx to get direction info.
-                state_idx = elementary_rxn_list.index(formula_list)
-                break
+        net_stoichiometry = (total_stoichiometry(elementary_rxn_list[-1]) -
+                             total_stoichiometry(elementary_rxn_list[0]))
 
-        # If adsorbate name not in reaction, stop.
-        if current_species != adsorbate_name:
+        # If the adsorbate is neither consumed nor produced, stop.
+        if net_stoichiometry == 0:
             return
 
         # Get rate expression of the elementary equation.
         f_expr, r_expr = self.get_elementary_rate_expression(rxn_expression)
 
         # Adsorbate is consumed
-        if state_idx == 0:
-            if stoichiometry == 1:
-                increase_rate, decrease_rate = r_expr, f_expr
-            else:
-                increase_rate, decrease_rate = [str(stoichiometry) + '*' + rate_expr
-                                                for rate_expr in [r_expr, f_expr]]
+        if net_stoichiometry < 0:
+            increase_rate, decrease_rate = r_expr, f_expr
         # Adsorbate is produced.
         else:
-            if stoichiometry == 1:
-                increase_rate, decrease_rate = f_expr, r_expr
-            else:
-                increase_rate, decrease_rate = [str(stoichiometry) + '*' + rate_expr
-                                                for rate_expr in [f_expr, r_expr]]
+            increase_rate, decrease_rate = f_expr, r_expr
+
+        stoichiometry = abs(net_stoichiometry)
+        if stoichiometry != 1:
+            increase_rate, decrease_rate = [str(stoichiometry) + '*' + rate_expr
+                                            for rate_expr in [increase_rate, decrease_rate]]
 
         # Return.
         return increase_rate + ' - ' + decrease_rate
@@ -195,7 +187,8 @@ class SteadyStateSolver(MeanFieldSolver):
         # Join the expressions.
         dtheta_dt_expression = ' + '.join(dtheta_dt_expression_list)
 
-        return dtheta_dt_expression
+        # Coverage of adsorbate that no reaction changes is constant.
+        return dtheta_dt_expression or '0'
         # }}}
 
     def get_dtheta_dt_expressions(self):
-- 
2.43.0


From 5b892f511b23bc23566a927648f66569355f173f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:53 +0000
Subject: [PATCH 06/56] fix: keep the sign of sums and the order of powers in
 analytical Jacobian, merge species repeated in a state

---
 scaks/solvers/mean_field_solver.py   |  8 +++++++-
 scaks/solvers/steady_state_solver.py | 11 ++++++++---
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/scaks/solvers/mean_field_solver.py b/scaks/solvers/mean_field_solver.py
index 06f7137..ec85b19 100644
--- a/scaks/solvers/mean_field_solver.py
+++ b/scaks/solvers/mean_field_solver.py
@@ -331,9 +331,15 @@ class MeanFieldSolver(SolverBase):
             if direction == 'r':
                 rate_str = 'kr[' + str(idx) + ']'
 
+            # Merge the species appearing several times in the state.
+            stoichiometries = {}
             for formula in formula_list:
-                stoichiometry = formula.stoichiometry()
                 species_name = formula.species_site()
+                stoichiometries[species_name] = (stoichiometries.get(species_name, 0) +
+                                                 formula.stoichiometry())
+
+            for species_name, stoichiometry in stoichiometries.items():
+                formula = ChemFormula(species_name)
                 #get type of species
                 if '*' in species_name:
                     if stoichiometry == 1:
diff --git a/scaks/solvers/steady_state_solver.py b/scaks/solvers/steady_state_solver.py
index df9518a..f687d06 100644
--- a/scaks/solvers/steady_state_solver.py
+++ b/scaks/solvers/steady_state_solver.py
@@ -258,12 +258,12 @@ class SteadyStateSolver(MeanFieldSolver):
         if '*' in adsorbate_name:
             adsorbate_name = '\\' + adsorbate_name
 
-        regex = r"((.*)\*|)(theta\['" + adsorbate_name + r"'\])(\*{2}(\d)|)(\*(.*)|)"
+        regex = r"((.*)\*|)(theta\['" + adsorbate_name + r"'\])(\*{2}(\d+)|)(\*(.*)|)"
         #r"(.*)\*(theta\['CO_s'\])(\*\*(\d)|)(\*(.*)|)"
         ###########################################################
         # group(1) -> ((.*)\*|), group(2) -> (.*)                 #
         # group(3) -> (theta\['"+adsorbate_name+"'\])             #
-        # group(4) -> (\*{2}(\d)|), group(5) -> \*{2}(\d) or None #
+        # group(4) -> (\*{2}(\d+)|), group(5) -> (\d+) or None    #
         # group(6) -> (\*(.*)|), group(7) -> (.*) or None         #
         ###########################################################
 
@@ -365,7 +365,7 @@ class SteadyStateSolver(MeanFieldSolver):
         # If contains both.
         if (site_name in sites_list) and (theta(adsorbate_name) in term_expression):
             #split two parts
-            regex = r"(.*)\*(theta\['" + adsorbate_name + r"'\])(\*{2}(\d)|)(\*(.*)|)"
+            regex = r"(.*)\*(theta\['" + adsorbate_name + r"'\])(\*{2}(\d+)|)(\*(.*)|)"
             m = re.search(regex, term_expression)
             if m.group(6):
                 site_part = m.group(1) + '*' + m.group(6)
@@ -420,6 +420,11 @@ class SteadyStateSolver(MeanFieldSolver):
                                                                 term_expression)
                          for term_expression in terms]
 
+        # NOTE: a derived term which is a sum must be put in parentheses,
+        #       or a minus sign before it only works on its first addend.
+        derived_terms = ['({})'.format(term) if ' + ' in term else term
+                         for term in derived_terms]
+
         # Combine 2 lists.
         derived_poly_list = []
         for combination in zip(derived_terms, operators):
-- 
2.43.0


From ecffa69038058c712fe66935e7fb34ef5e802df3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:25 +0000
Subject: [PATCH 07/56] fix: symbolic rates with liquids, symbolic Jacobian of
 any size and LaTeX log of dtheta/dt

---
 scaks/solvers/mean_field_solver.py   | 2 +-
 scaks/solvers/steady_state_solver.py | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/scaks/solvers/mean_field_solver.py b/scaks/solvers/mean_field_solver.py
index ec85b19..56bd66d 100644
--- a/scaks/solvers/mean_field_solver.py
+++ b/scaks/solvers/mean_field_solver.py
@@ -995,7 +995,7 @@ class MeanFieldSolver(SolverBase):
         c_dict = {}
         liquid_names = self._owner.liquid_names
         for c_sym, liquid_name in zip(self._c_sym, liquid_names):
-            c_dict.setdefault(c_sym, self._c[liquid_names])
+            c_dict.setdefault(c_sym, self._c[liquid_name])
 
         return c_dict
 
diff --git a/scaks/solvers/steady_state_solver.py b/scaks/solvers/steady_state_solver.py
index f687d06..eda91c6 100644
--- a/scaks/solvers/steady_state_solver.py
+++ b/scaks/solvers/steady_state_solver.py
@@ -590,7 +590,7 @@ class SteadyStateSolver(MeanFieldSolver):
 
         # Log it.
         if log_latex:
-            self.log_latex(self.dtheta_dt_latex)
+            self.log_latex(dtheta_dt_latexs)
 
         return dtheta_dt_syms
 
@@ -622,7 +622,7 @@ class SteadyStateSolver(MeanFieldSolver):
 
         # Allocate memories for jacobian matrix.
         m = n = len(dtheta_dt_syms)
-        sym_jacobian = [[0.0]*m, [0.0]*n]
+        sym_jacobian = [[0.0]*n for _ in range(m)]
 
         # dtheta/dt (row).
         for i in range(m):
@@ -652,7 +652,7 @@ class SteadyStateSolver(MeanFieldSolver):
         sym_jacobian = self.analytical_jacobian_sym()
 
         m = n = len(sym_jacobian)
-        num_jacobian = [[0.0]*m, [0.0]*n]
+        num_jacobian = [[0.0]*n for _ in range(m)]
 
         for i in range(m):
             for j in range(n):
-- 
2.43.0


From bbe35a6b32f004633ab359368b88b074d83a3943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:00 +0000
Subject: [PATCH 08/56] fix: weight thermodynamic corrections by stoichiometry,
 use the existing logger

---
 scaks/correctors/thermodynamic_corrector.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scaks/correctors/thermodynamic_corrector.py b/scaks/correctors/thermodynamic_corrector.py
index 1218c6d..efb9683 100644
--- a/scaks/correctors/thermodynamic_corrector.py
+++ b/scaks/correctors/thermodynamic_corrector.py
@@ -216,7 +216,7 @@ class ThermodynamicCorrector(CorrectorBase):
                 if ratio >= 0.3:
                     msg_template = "T/theta = {:.3e} is larger than 0.3, big error may be expected"
                     msg = msg_template.format(ratio)
-                    self.logger.warning(msg)
+                    self.__logger.warning(msg)
         # Nonlinear molecule.
         elif len(thetas) == 3:
             product = reduce(lambda x, y: x*y, thetas)
@@ -300,7 +300,7 @@ class ThermodynamicCorrector(CorrectorBase):
         for formula_list in formula_lists:
             delta = 0.0
             for formula in formula_list:
-                delta += correct_func(formula.formula())
+                delta += formula.stoichiometry()*correct_func(formula.species_site())
             deltas.append(delta)
 
         self.__change_relative_energies(relative_energies, rxn_idx, deltas)
-- 
2.43.0


From 90ad1267b8c3ee56e79e20fdb0c1a3dacf9c82ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:07 +0000
Subject: [PATCH 09/56] fix: look up the pressure of gases with a coefficient
 and raise it to that power

---
 scaks/solvers/solver_base.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/scaks/solvers/solver_base.py b/scaks/solvers/solver_base.py
index 60f8fe9..685d90c 100644
--- a/scaks/solvers/solver_base.py
+++ b/scaks/solvers/solver_base.py
@@ -147,17 +147,18 @@ class SolverBase(ModelShell):
         # Include pressures.
         if include_pressure:
             rxn_equation = RxnEquation(rxn_expression)
-            f = lambda gas: self._owner.species_definitions[gas]["pressure"]
+            f = lambda gas: (self._owner.species_definitions[gas.species_site()]["pressure"] **
+                             gas.stoichiometry())
 
             # Forward rate.
             adsorption_gases = rxn_equation.adsorption_gases()
-            pressures = [f(gas.formula()) for gas in adsorption_gases]
+            pressures = [f(gas) for gas in adsorption_gases]
             p = reduce(mul, pressures) if pressures else 1.0
             rf = p*rf
 
             # Reverse rate.
             desorption_gases = rxn_equation.desorption_gases()
-            pressures = [f(gas.formula()) for gas in desorption_gases]
+            pressures = [f(gas) for gas in desorption_gases]
             p = reduce(mul, pressures) if pressures else 1.0
             rr = p*rr
 
@@ -231,7 +232,7 @@ class SolverBase(ModelShell):
             # Get gas pressure.
             idx = is_types.index("gas")
             formula = istate[idx]
-            gas_name = formula.formula()
+            gas_name = formula.species_site()
             m = ParserBase.get_molecular_mass(formula.species(), absolute=True)
 
             if include_pressure:
@@ -285,7 +286,7 @@ class SolverBase(ModelShell):
             # Get gas pressure.
             idx = fs_types.index("gas")
             formula = fstate[idx]
-            gas_name = formula.formula()
+            gas_name = formula.species_site()
 
             if include_pressure:
                 p = P0*self._owner.species_definitions[gas_name]["pressure"]
-- 
2.43.0


From 364c72b713ee48a753226f622bb020bf40e7470d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:09 +0000
Subject: [PATCH 10/56] fix: let ConstrainedNewton work with mpmath numbers in
 golden section search

---
 scaks/solvers/rootfinding_iterators.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/scaks/solvers/rootfinding_iterators.py b/scaks/solvers/rootfinding_iterators.py
index 2199205..0ae165b 100644
--- a/scaks/solvers/rootfinding_iterators.py
+++ b/scaks/solvers/rootfinding_iterators.py
@@ -130,13 +130,14 @@ class ConstrainedNewton(RootfindingIterator):
 
             #use golden method to get optimal step size
             def fl(l):
-                x1 = self._matrix(x0) + l*s
+                x1 = self._matrix(x0) + s*self._mpfloat(l)
                 fx = self._matrix(f(tuple(x1)))
-                return norm(fx)
+                # NOTE: scipy can not check the validity of a mpmath float.
+                return float(norm(fx))
             l = golden(fl)
 #            print l
 #            l = mp.mpf('1.0')
-            x1 = self._matrix(x0) + l*s  # matrix
+            x1 = self._matrix(x0) + s*self._mpfloat(l)  # matrix
             x1 = self.constraint(tuple(x1))
             if x1 == x0:
                 self.logger.info("Solver: Found stationary point.")
-- 
2.43.0


From 0985d9f294917cf0fdd62e04f91b0517996da85e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:09 +0000
Subject: [PATCH 11/56] fix: use the given relative energies for the error of a
 good initial guess

---
 scaks/solvers/steady_state_solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scaks/solvers/steady_state_solver.py b/scaks/solvers/steady_state_solver.py
index eda91c6..e5e656b 100644
--- a/scaks/solvers/steady_state_solver.py
+++ b/scaks/solvers/steady_state_solver.py
@@ -807,7 +807,7 @@ class SteadyStateSolver(MeanFieldSolver):
                     # Get error.
                     fx = self.steady_state_function(c0, relative_energies)  # dtheta/dts
                     norm = self._norm(fx)
-                    resid = self.get_residual(c0)
+                    resid = self.get_residual(c0, relative_energies)
                     error = min(norm, resid)
                     self._error = error
                     if self._owner.log_allowed:
-- 
2.43.0


From 530dd8c94f523baa2b0d005c1b8b72d171b32291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:17 +0000
Subject: [PATCH 12/56] fix: finalize the on-the-fly analysis with the counter
 it is set up with

---
 scaks/solvers/steady_state_solver.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/scaks/solvers/steady_state_solver.py b/scaks/solvers/steady_state_solver.py
index e5e656b..9343746 100644
--- a/scaks/solvers/steady_state_solver.py
+++ b/scaks/solvers/steady_state_solver.py
@@ -792,6 +792,7 @@ class SteadyStateSolver(MeanFieldSolver):
 
         converged = False  # Flag for convergence.
         while not cancel:  # outer loop
+            setup_counter = None  # outer counter that plugins are set up with
             try:
             # {{{
                 # Good initial coverages.
@@ -855,6 +856,7 @@ class SteadyStateSolver(MeanFieldSolver):
                     self.__logger.info('-'*60)
 
                 # Setup analysis plugins
+                setup_counter = icvg_counter
                 for ap in self._owner.analysis:
                     ap.setup(self._owner, icvg_counter)
 
@@ -950,8 +952,10 @@ class SteadyStateSolver(MeanFieldSolver):
                     c0 = self._owner.hybrid_method(self._owner, icvg_counter)
                     icvg_counter += 1
             finally:
-                for ap in self._owner.analysis:
-                    ap.finalize(self._owner, icvg_counter)
+                # NOTE: the counter may have been increased for the next guess.
+                if setup_counter is not None:
+                    for ap in self._owner.analysis:
+                        ap.finalize(self._owner, setup_counter)
 
         ##############    main loop end   #################
 
-- 
2.43.0


From 580d7da469b2f4713937ade7b2b96c2c85549fd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:41 +0000
Subject: [PATCH 13/56] fix: let the main loop catch the singular Jacobian of
 ConstrainedNewton

---
 scaks/solvers/rootfinding_iterators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scaks/solvers/rootfinding_iterators.py b/scaks/solvers/rootfinding_iterators.py
index 0ae165b..a8d0631 100644
--- a/scaks/solvers/rootfinding_iterators.py
+++ b/scaks/solvers/rootfinding_iterators.py
@@ -126,7 +126,7 @@ class ConstrainedNewton(RootfindingIterator):
                 #print 'ZeroDivisionError!'
                 #cancel = True
                 #break
-                raise ValueError("ZeroDivisionError!")
+                raise ZeroDivisionError("Singular Jacobian matrix.")
 
             #use golden method to get optimal step size
             def fl(l):
-- 
2.43.0


From 49e02c94c095101b169e6955964554c84aabdef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:41 +0000
Subject: [PATCH 14/56] fix: reject a root with negative free site coverage

---
 scaks/solvers/steady_state_solver.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/scaks/solvers/steady_state_solver.py b/scaks/solvers/steady_state_solver.py
index 9343746..5ca2218 100644
--- a/scaks/solvers/steady_state_solver.py
+++ b/scaks/solvers/steady_state_solver.py
@@ -874,7 +874,11 @@ class SteadyStateSolver(MeanFieldSolver):
                     if ((not reach_max_iter) and (error < self._owner.tolerance)):
                         if resid < self._owner.tolerance:
                             # Check whether there is minus value in x
-                            for cvg in x:
+                            # or too little free site left (beyond round-off).
+                            cvgs_dict = self._cvg_tuple2dict(x)
+                            free_site_cvgs = [cvgs_dict[site] + self._mpf('1e-20')
+                                              for site in self._owner.site_names]
+                            for cvg in list(x) + free_site_cvgs:
                                 if cvg < 0.0:
                                     lt_zero = True  # less than 0
                                     break
-- 
2.43.0


From f4ff091ebf5520c9e8e3c135076cf2d3fe4efa75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:41 +0000
Subject: [PATCH 15/56] fix: constrain the coverages given by hybrid method
 before using them as initial guess

---
 scaks/solvers/steady_state_solver.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scaks/solvers/steady_state_solver.py b/scaks/solvers/steady_state_solver.py
index 5ca2218..95645f2 100644
--- a/scaks/solvers/steady_state_solver.py
+++ b/scaks/solvers/steady_state_solver.py
@@ -942,7 +942,7 @@ class SteadyStateSolver(MeanFieldSolver):
                         self.__logger.warning(msg)
                         break
                     else:
-                        c0 = self._owner.hybrid_method(self._owner, icvg_counter)
+                        c0 = constraint(self._owner.hybrid_method(self._owner, icvg_counter))
                         icvg_counter += 1
             # }}}
             except ZeroDivisionError:
@@ -953,7 +953,7 @@ class SteadyStateSolver(MeanFieldSolver):
                     self.__logger.warning(msg)
                     break
                 else:
-                    c0 = self._owner.hybrid_method(self._owner, icvg_counter)
+                    c0 = constraint(self._owner.hybrid_method(self._owner, icvg_counter))
                     icvg_counter += 1
             finally:
                 # NOTE: the counter may have been increased for the next guess.
-- 
2.43.0


From 0107cee4224ffc4ac15085d4379a492bd047c4b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:59 +0000
Subject: [PATCH 16/56] fix: keep the converged solution when calculating XRC,
 return the good guess

---
 scaks/solvers/steady_state_solver.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/scaks/solvers/steady_state_solver.py b/scaks/solvers/steady_state_solver.py
index 95645f2..ded27b1 100644
--- a/scaks/solvers/steady_state_solver.py
+++ b/scaks/solvers/steady_state_solver.py
@@ -1088,6 +1088,9 @@ class SteadyStateSolver(MeanFieldSolver):
                          gas_name=gas_name,
                          relative_energies=relative_energies)
 
+        # Solution of the unperturbed model to be restored at last.
+        error, archived_data = self._error, dict(self._archived_data_dict)
+
         # Original rate constants.
         kfs, _ = self.get_rate_constants(relative_energies=relative_energies)
 
@@ -1146,6 +1149,11 @@ class SteadyStateSolver(MeanFieldSolver):
             if self._owner.log_allowed:
                 self.__logger.info("XRC({}) = {:.2e}\n".format(rxn_expressions[i], float(XRC)))
 
+        # Restore the solution of the unperturbed model.
+        self._coverages, self._error = init_guess, error
+        for data_name, data in archived_data.items():
+            self.archive_data(data_name, data)
+
         # Ouput log info.
         self.__log_single_XRC(XRCs=XRCs, gas_name=gas_name)
 
@@ -1384,4 +1392,4 @@ class SteadyStateSolver(MeanFieldSolver):
     def good_guess(self):
         """ Query function for good initial coverages.
         """
-        self._good_guess
+        return self._good_guess
-- 
2.43.0


From aad85deac463c76caba7042e02a8ed37fdf3af6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:27 +0000
Subject: [PATCH 17/56] fix: use the archived steady state coverages and the
 hybrid method as initial guess in run()

---
 scaks/models/micro_kinetic_model.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/scaks/models/micro_kinetic_model.py b/scaks/models/micro_kinetic_model.py
index 1bf97a1..ca851e8 100644
--- a/scaks/models/micro_kinetic_model.py
+++ b/scaks/models/micro_kinetic_model.py
@@ -217,8 +217,8 @@ class MicroKineticModel(KineticModel):
         elif os.path.exists(self.data_file):
             with open(self.data_file, 'rb') as f:
                 data = pickle.load(f)
-            init_guess = 'steady_state_coverage'
-            if init_guess in data:
+            init_guess = 'steady_state_coverages'
+            if len(data.get(init_guess, ())) == len(self.adsorbate_names):
                 if self.log_allowed:
                     msg = 'use coverages in {} as initial guess...'.format(self.data_file)
                     self._logger.info(msg)
@@ -233,6 +233,7 @@ class MicroKineticModel(KineticModel):
         else:
             if self.log_allowed:
                 self._logger.info('Use model\'s hybrid method to guess initial coverages')
+            init_cvgs = self.hybrid_method(self, 0)
 
         # Solve steady state coverages.
         # Use scipy.optimize.fsolve or not (fast but low-precision).
-- 
2.43.0


From fabc76518c1f15ffdd8021a947ca339b5601e984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:40 +0000
Subject: [PATCH 18/56] fix: record coverages and error when solving by fsolve

---
 scaks/solvers/steady_state_solver.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/scaks/solvers/steady_state_solver.py b/scaks/solvers/steady_state_solver.py
index ded27b1..9c4f11e 100644
--- a/scaks/solvers/steady_state_solver.py
+++ b/scaks/solvers/steady_state_solver.py
@@ -751,7 +751,12 @@ class SteadyStateSolver(MeanFieldSolver):
         .. note::
             keys ":obj:`Gaf` and ":obj:`Gar` must be in relative energies dict
         '''
-        return self.coarse_steady_state_cvgs(c0, relative_energies)
+        converged_cvgs = self.coarse_steady_state_cvgs(c0, relative_energies)
+
+        self._coverages = tuple(converged_cvgs)
+        self._error = self.get_residual(converged_cvgs, relative_energies)
+
+        return converged_cvgs
 
     def get_steady_state_cvgs(self, c0=None, single_pt=False, relative_energies=None):
         """ Function to get steady state coverages.
-- 
2.43.0


From d2c7d21dcf7c34121c3f1ed01b6a28d570ede7a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:36 +0000
Subject: [PATCH 19/56] fix: write valid possible types to the coverages file

---
 scaks/solvers/kmc_plugins/coverages_analysis.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/scaks/solvers/kmc_plugins/coverages_analysis.py b/scaks/solvers/kmc_plugins/coverages_analysis.py
index eff44ab..913df92 100644
--- a/scaks/solvers/kmc_plugins/coverages_analysis.py
+++ b/scaks/solvers/kmc_plugins/coverages_analysis.py
@@ -97,8 +97,7 @@ class CoveragesAnalysis(KMCAnalysisPlugin):
             times_str = "times = []\n"
             steps_str = "steps = []\n"
             coverages_str = "coverages = {}\n".format([[]]*len(self.__possible_types))
-            possible_types_update = [f"'{string}'" for string in self.__possible_types]
-            possible_types_str = get_list_string("possible_types", possible_types_update)
+            possible_types_str = get_list_string("possible_types", self.__possible_types)
             with open(self.__filename, "w") as f:
                 content = (file_header + times_str + steps_str +
                            coverages_str + "\n" + possible_types_str)
-- 
2.43.0


From 18b5b471bdeb2a32ffec9f3aa90ccb5a9b40e63d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:36 +0000
Subject: [PATCH 20/56] fix: do not map a reverse process for redistribution
 processes

---
 scaks/solvers/kmc_solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scaks/solvers/kmc_solver.py b/scaks/solvers/kmc_solver.py
index 81d0552..0f2af98 100644
--- a/scaks/solvers/kmc_solver.py
+++ b/scaks/solvers/kmc_solver.py
@@ -209,7 +209,7 @@ class KMCSolver(SolverBase):
                     processes.append(rprocess)
 
                 # Add process reaction mapping.
-                if not fast:
+                if not fast and not redist:
                     process_mapping = "{}(<-)".format(process_dict["reaction"])
                     self.__process_mapping.append(process_mapping)
 
-- 
2.43.0


From 2d9c37be6a57ec8037effeddcceb6e2fd0bdf231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:36 +0000
Subject: [PATCH 21/56] fix: no division by zero when the steady frequency
 window has no duration

---
 scaks/solvers/kmc_plugins/frequency_analysis.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scaks/solvers/kmc_plugins/frequency_analysis.py b/scaks/solvers/kmc_plugins/frequency_analysis.py
index c67f300..22547f5 100644
--- a/scaks/solvers/kmc_plugins/frequency_analysis.py
+++ b/scaks/solvers/kmc_plugins/frequency_analysis.py
@@ -126,7 +126,8 @@ class FrequencyAnalysis(KMCAnalysisPlugin):
         # Calculate rates.
         reaction_rates = {}
         for reaction, occurency in steady_reaction_occurencies.items():
-            rate = occurency/(delta_t*nsites)
+            # No rate can be estimated from a window without duration.
+            rate = occurency/(delta_t*nsites) if delta_t > 0.0 else 0.0
             reaction_rates.setdefault(reaction, rate)
         reaction_rates_str = get_dict_string("reaction_rates", reaction_rates)
 
-- 
2.43.0


From b684486ac83522c28fa4ab21b4efacae9b045228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:36 +0000
Subject: [PATCH 22/56] fix: check the move vector and the lengths in
 CoordsGroup, move empty groups

---
 scaks/utilities/coordinate_utilities.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/scaks/utilities/coordinate_utilities.py b/scaks/utilities/coordinate_utilities.py
index efb1581..ed99e42 100644
--- a/scaks/utilities/coordinate_utilities.py
+++ b/scaks/utilities/coordinate_utilities.py
@@ -83,6 +83,12 @@ class CoordsGroup(object):
         if elements is None:
             elements = ["V"]*len(coordinates)
 
+        # Check.
+        if len(coordinates) != len(elements):
+            msg = "Length of coordinates({}) and elements({}) are different."
+            msg = msg.format(len(coordinates), len(elements))
+            raise ValueError(msg)
+
         for coordinate, element in zip(coordinates, elements):
             self.append(coordinate, element)
 
@@ -99,11 +105,11 @@ class CoordsGroup(object):
             move_vector = [0.0, 0.0, 0.0]
 
         # Check the parameter.
-        if type(move_vector) is not list and len(move_vector) != 3:
+        if type(move_vector) is not list or len(move_vector) != 3:
             raise ValueError("move_vector must be a list of three float numbers.")
 
         move_vector = np.array(move_vector)
-        ori_coords = np.array(self.__coords)
+        ori_coords = np.array(self.__coords).reshape(-1, 3)
         new_coords = (ori_coords + move_vector).tolist()
 
         return CoordsGroup(new_coords, copy.copy(self.__elements))
-- 
2.43.0


From f0cd3bae34eb28a7ef3dd0407ca1323d198703fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:36 +0000
Subject: [PATCH 23/56] fix: sum up the stoichiometries of a species repeated
 in a state, raise the parameter error

---
 scaks/parsers/rxn_parser.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/scaks/parsers/rxn_parser.py b/scaks/parsers/rxn_parser.py
index 16ff33f..fdf1703 100644
--- a/scaks/parsers/rxn_parser.py
+++ b/scaks/parsers/rxn_parser.py
@@ -173,8 +173,12 @@ class ChemState(object):
         """
         formula_list = self.tolist()
 
-        species_site_dict = {formula.species_site(): formula.stoichiometry()
-                             for formula in formula_list}
+        # NOTE: a species can appear more than once in a state.
+        species_site_dict = {}
+        for formula in formula_list:
+            species_site = formula.species_site()
+            species_site_dict.setdefault(species_site, 0)
+            species_site_dict[species_site] += formula.stoichiometry()
 
         return species_site_dict
 
@@ -234,7 +238,7 @@ class ChemState(object):
         # Check input parameter.
         if not isinstance(another, self.__class__):
             msg = "Parameter another must be instance of ChemState."
-            return ParameterError(msg)
+            raise ParameterError(msg)
 
         # Check elements.
         dict1 = self.get_elements_dict()
-- 
2.43.0


From 0ed5aff793a0739ffd76927bf2f7bd55ada76fcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:26 +0000
Subject: [PATCH 24/56] fix: total reaction with reverse steps, uninvolved
 steps and non-integer ratios

---
 scaks/parsers/parser_base.py | 36 +++++++++++++++++++++++++-----------
 1 file changed, 25 insertions(+), 11 deletions(-)

diff --git a/scaks/parsers/parser_base.py b/scaks/parsers/parser_base.py
index 9028a4c..2658ada 100644
--- a/scaks/parsers/parser_base.py
+++ b/scaks/parsers/parser_base.py
@@ -1,6 +1,8 @@
 import copy
 import re
 import logging
+from fractions import Fraction
+from math import gcd
 
 import numpy as np
 
@@ -198,17 +200,27 @@ class ParserBase(ModelShell):
         if not x.any():  # x is not empty
             raise ValueError('Failed to get basis of nullspace.')
 
-        x = [abs(i) for i in x.T.tolist()[0]]
-        #convert entries of x to integer
-        min_x = min(x)
-        x = [round(i/min_x, 1) for i in x]
-        x = np.matrix(x)
-        total_coefficients = (x*reapro_matrix).tolist()[0]
-
-        # cope with small differences between coeffs
-        abs_total_coefficients = list(map(abs, total_coefficients))
-        min_coeff = min(abs_total_coefficients)
-        total_coefficients = [int(i/min_coeff) for i in total_coefficients]
+        # convert entries of x to fractions, an elementary reaction may proceed
+        # in reverse direction or not take part in the total reaction.
+        x = x.T.tolist()[0]
+        ref_x = max(x, key=abs)
+        x = [Fraction(i/ref_x).limit_denominator(100) for i in x]
+        if sum(x) < 0:
+            x = [-i for i in x]
+
+        # convert total coefficients to the smallest integers
+        total_coefficients = [sum(i*Fraction(c) for i, c in zip(x, column))
+                              for column in reapro_matrix.T.tolist()]
+        denominator = 1
+        for coeff in total_coefficients:
+            denominator *= coeff.denominator//gcd(denominator, coeff.denominator)
+        total_coefficients = [int(i*denominator) for i in total_coefficients]
+        divisor = 0
+        for coeff in total_coefficients:
+            divisor = gcd(divisor, coeff)
+        if not divisor:
+            raise ValueError('No gas or liquid species in total reaction.')
+        total_coefficients = [i//divisor for i in total_coefficients]
 
         # create total rxn expression
         reactants_list, products_list = [], []
@@ -216,6 +228,8 @@ class ParserBase(ModelShell):
         for sp_name in reapro_names:
             idx = reapro_names.index(sp_name)
             coefficient = total_coefficients[idx]
+            if coefficient == 0:  # neither consumed nor produced
+                continue
             if coefficient < 0:  # for products
                 coefficient = abs(int(coefficient))
                 if coefficient == 1:
-- 
2.43.0


From 3a4b450e60553d94a0394970de67fa5935dd9c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:55 +0000
Subject: [PATCH 25/56] fix: count two-letter elements such as Cl as one
 element

---
 scaks/parsers/rxn_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scaks/parsers/rxn_parser.py b/scaks/parsers/rxn_parser.py
index fdf1703..ec7cba6 100644
--- a/scaks/parsers/rxn_parser.py
+++ b/scaks/parsers/rxn_parser.py
@@ -300,7 +300,7 @@ class ChemFormula(object):
         """
         self.__formula = formula
         self.__formula_regex = re.compile(r'(\d*)(([\w\*-]*)_(\d*)([a-zA-Z\*]+))')
-        self.__sp_regex = re.compile(r'([a-zA-Z\*])(\d*)')
+        self.__sp_regex = re.compile(r'([A-Z][a-z]?|[a-z\*])(\d*)')
 
         self.__split()
 
-- 
2.43.0


From c12127ac99c695005a559ac47254aa554016bf9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:28 +0000
Subject: [PATCH 26/56] fix: restart from a new guess when the Jacobian has a
 column of zeros

---
 scaks/solvers/rootfinding_iterators.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/scaks/solvers/rootfinding_iterators.py b/scaks/solvers/rootfinding_iterators.py
index a8d0631..61b5023 100644
--- a/scaks/solvers/rootfinding_iterators.py
+++ b/scaks/solvers/rootfinding_iterators.py
@@ -122,7 +122,8 @@ class ConstrainedNewton(RootfindingIterator):
             try:
                 s = self._Axb_solver(Jx, fxn)  # if use gmpy and numpy,
                 #print s                       # lose precision here
-            except ZeroDivisionError:
+            except (ZeroDivisionError, TypeError):
+                # NOTE: mpmath raises TypeError if it finds no pivot in a column.
                 #print 'ZeroDivisionError!'
                 #cancel = True
                 #break
@@ -238,7 +239,11 @@ class MDNewton(RootfindingIterator):
             # get direction of descent
             fxn = -fx
             Jx = J(x0)
-            s = mp.lu_solve(Jx, fxn)
+            try:
+                s = mp.lu_solve(Jx, fxn)
+            except TypeError:
+                # NOTE: mpmath raises TypeError if it finds no pivot in a column.
+                raise ZeroDivisionError("Singular Jacobian matrix.")
             if self.verbose:
                 self.logger.debug('Jx = \n%s', str(Jx))
                 self.logger.debug('s = \n%s', str(s))
-- 
2.43.0


From da888126ca5b6ac60b8052c3f2f431c86cf9a510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:25 +0000
Subject: [PATCH 27/56] fix: reject molecular formulas with unbalanced
 parentheses

---
 scaks/functions.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/scaks/functions.py b/scaks/functions.py
index 7c2d4d3..28371f1 100644
--- a/scaks/functions.py
+++ b/scaks/functions.py
@@ -30,6 +30,8 @@ def string2symbols(s):  # HACKED# copy-pasted from ase\atoms.py
                 p -= 1
                 if p == 0:
                     break
+        else:
+            raise ValueError("unbalanced parentheses in '{}'".format(s))
         j = i + 1
         while j < n and s[j].isdigit():
             j += 1
-- 
2.43.0


From 283f8a830c5a3e035c56b0339e7e013408cce4ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:23 +0000
Subject: [PATCH 28/56] fix: leave the coordinate group unchanged when append
 rejects the element

---
 scaks/utilities/coordinate_utilities.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/scaks/utilities/coordinate_utilities.py b/scaks/utilities/coordinate_utilities.py
index ed99e42..8ff3185 100644
--- a/scaks/utilities/coordinate_utilities.py
+++ b/scaks/utilities/coordinate_utilities.py
@@ -59,17 +59,15 @@ class CoordsGroup(object):
         :param element: element type, default value is "V"
         :type element: str
         """
-        # Append coordinates.
+        # Check both of them before anything is appended.
         self.__check_coordinate(coordinate)
-        self.__coords.append(coordinate)
-
-        # Append elements.
         if element is None:
-            self.__elements.append("V")
-        else:
-            if type(element) is not str:
-                raise ValueError("element must be a string.")
-            self.__elements.append(element)
+            element = "V"
+        elif type(element) is not str:
+            raise ValueError("element must be a string.")
+
+        self.__coords.append(coordinate)
+        self.__elements.append(element)
 
     def extend(self, coordinates, elements=None):
         """ Function to add new coordinates.
-- 
2.43.0


From bfa91b194c28c9c775eeefb8e968de7cacd938d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:47 +0000
Subject: [PATCH 29/56] fix: do not archive data of the perturbed models when
 calculating XRC

---
 scaks/__init__.py                    |  3 ++-
 scaks/solvers/steady_state_solver.py | 24 ++++++++++++++++--------
 2 files changed, 18 insertions(+), 9 deletions(-)

diff --git a/scaks/__init__.py b/scaks/__init__.py
index bf25d4e..fc6f405 100644
--- a/scaks/__init__.py
+++ b/scaks/__init__.py
@@ -29,6 +29,7 @@ class ModelShell(object):
     def __init__(self, owner):
         self._owner = owner
         self._archived_data_dict = {}
+        self._archive_allowed = True
 
     def archive_data(self, data_name, data):
         """
@@ -41,7 +42,7 @@ class ModelShell(object):
         :type data: any
         """
         # Update data dict.
-        if data_name in self._owner.archived_variables:
+        if self._archive_allowed and data_name in self._owner.archived_variables:
             self._archived_data_dict[data_name] = data
             # Dump data dict to data file
             if self._archived_data_dict:
diff --git a/scaks/solvers/steady_state_solver.py b/scaks/solvers/steady_state_solver.py
index 9c4f11e..496d263 100644
--- a/scaks/solvers/steady_state_solver.py
+++ b/scaks/solvers/steady_state_solver.py
@@ -1073,6 +1073,22 @@ class SteadyStateSolver(MeanFieldSolver):
         :param relative_energies: Relative energies for calculation, if not provided, use model's relative energies, default is None
         :type relative_energies: dict
         """
+        # Solution of the unperturbed model to be restored at last.
+        solution = {name: getattr(self, name) for name in
+                    ("_coverages", "_error", "_good_guess") if hasattr(self, name)}
+
+        # NOTE: data of the perturbed models must not be archived.
+        self._archive_allowed = False
+        try:
+            return self.__get_single_XRC(gas_name, epsilon, relative_energies)
+        finally:
+            self._archive_allowed = True
+            self.__dict__.update(solution)
+
+    def __get_single_XRC(self, gas_name, epsilon, relative_energies):
+        """
+        Private helper function to calculate the XRC for one gas species.
+        """
         # {{{
         # Get correct relative energies.
         if relative_energies is None:
@@ -1093,9 +1109,6 @@ class SteadyStateSolver(MeanFieldSolver):
                          gas_name=gas_name,
                          relative_energies=relative_energies)
 
-        # Solution of the unperturbed model to be restored at last.
-        error, archived_data = self._error, dict(self._archived_data_dict)
-
         # Original rate constants.
         kfs, _ = self.get_rate_constants(relative_energies=relative_energies)
 
@@ -1154,11 +1167,6 @@ class SteadyStateSolver(MeanFieldSolver):
             if self._owner.log_allowed:
                 self.__logger.info("XRC({}) = {:.2e}\n".format(rxn_expressions[i], float(XRC)))
 
-        # Restore the solution of the unperturbed model.
-        self._coverages, self._error = init_guess, error
-        for data_name, data in archived_data.items():
-            self.archive_data(data_name, data)
-
         # Ouput log info.
         self.__log_single_XRC(XRCs=XRCs, gas_name=gas_name)
 
-- 
2.43.0


From 7d9cdbece05b7ed31f6ce69b04cd5643cbfe8c75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:26 +0000
Subject: [PATCH 30/56] fix: progress of an ODE integration that ends at time
 zero

---
 scaks/solvers/steady_state_solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scaks/solvers/steady_state_solver.py b/scaks/solvers/steady_state_solver.py
index 496d263..e6f9c3e 100644
--- a/scaks/solvers/steady_state_solver.py
+++ b/scaks/solvers/steady_state_solver.py
@@ -1324,7 +1324,7 @@ class SteadyStateSolver(MeanFieldSolver):
                 if (self._owner.log_allowed and
                         nstep % self._owner.ode_output_interval == 0):
                     msg = "{:10.2f}%{:20f}" + "{:20.8e}"*nads
-                    msg = msg.format(r.t/t_end*100, r.t, *r.y)
+                    msg = msg.format((r.t - t_start)/(t_end - t_start)*100, r.t, *r.y)
                     self.__logger.info(msg)
 
                 # Flush time coverages to file.
-- 
2.43.0


From 90f3c5dee7886b20ce90212813246cc6b13add93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:52 +0000
Subject: [PATCH 31/56] fix: accept a list and a tuple as elements before and
 after a process

---
 scaks/solvers/kmc_solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scaks/solvers/kmc_solver.py b/scaks/solvers/kmc_solver.py
index 0f2af98..ff5242f 100644
--- a/scaks/solvers/kmc_solver.py
+++ b/scaks/solvers/kmc_solver.py
@@ -132,7 +132,7 @@ class KMCSolver(SolverBase):
             raise SetupError(msg)
 
         # Check if the elements are in possible elements.
-        all_elements = process_dict["elements_before"] + process_dict["elements_after"]
+        all_elements = list(process_dict["elements_before"]) + list(process_dict["elements_after"])
         possible_elements = self._owner.possible_element_types
         for element in all_elements:
             if element == '*':
-- 
2.43.0


From 406118d591d2494e4b73a805a722b8b3221f8466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:52 +0000
Subject: [PATCH 32/56] fix: do not repeat the process mapping when processes
 are requested again

---
 scaks/solvers/kmc_solver.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/scaks/solvers/kmc_solver.py b/scaks/solvers/kmc_solver.py
index ff5242f..84cd3ab 100644
--- a/scaks/solvers/kmc_solver.py
+++ b/scaks/solvers/kmc_solver.py
@@ -109,6 +109,8 @@ class KMCSolver(SolverBase):
 
     def get_processes(self):
         all_processes = []
+        # The mapping belongs to the processes returned here.
+        self.__process_mapping = []
         process_dicts = self._owner.process_dicts
         for process_dict in process_dicts:
             processes = self.__get_single_process(process_dict)
-- 
2.43.0


From d1c50b27a5d6ffc3ee4cf36e9f307711a451dd95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:52 +0000
Subject: [PATCH 33/56] fix: do not append an empty chunk to the coverages file

---
 scaks/solvers/kmc_plugins/coverages_analysis.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/scaks/solvers/kmc_plugins/coverages_analysis.py b/scaks/solvers/kmc_plugins/coverages_analysis.py
index 913df92..1c7660f 100644
--- a/scaks/solvers/kmc_plugins/coverages_analysis.py
+++ b/scaks/solvers/kmc_plugins/coverages_analysis.py
@@ -136,8 +136,9 @@ class CoveragesAnalysis(KMCAnalysisPlugin):
         Write all data to files.
         """
         if mpi.is_master:
-            # Write to file.
-            self.__flush()
+            # Write to file, a chunk without data could not be read back.
+            if self.__coverages:
+                self.__flush()
 
             # Info output.
             msg = "coverages informations are written to {}".format(self.__filename)
-- 
2.43.0


From 3cb46e09e35de076d5dca529a4fe3edf3b6fec11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:52 +0000
Subject: [PATCH 34/56] fix: begin the first TOF window at the start time of
 the simulation

---
 scaks/solvers/kmc_plugins/tof_analysis.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/scaks/solvers/kmc_plugins/tof_analysis.py b/scaks/solvers/kmc_plugins/tof_analysis.py
index ec2e687..220b2d2 100644
--- a/scaks/solvers/kmc_plugins/tof_analysis.py
+++ b/scaks/solvers/kmc_plugins/tof_analysis.py
@@ -73,6 +73,9 @@ class TOFAnalysis(KMCAnalysisPlugin):
         # }}}
 
     def setup(self, step, time, configuration, interactions):
+        # The first window begins when the simulation does.
+        self.__start_time = time
+
         # Create statistic data file.
         variables_str = ("times = []\ntofs = []\n")
         process_mapping = self.__kmc_model.process_mapping
-- 
2.43.0


From 45b40b58b1c5eb7633f82d197d8a23c4dc143caf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:52 +0000
Subject: [PATCH 35/56] fix: label the table of events with the step it was
 taken in

---
 scaks/solvers/kmc_plugins/event_analysis.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/scaks/solvers/kmc_plugins/event_analysis.py b/scaks/solvers/kmc_plugins/event_analysis.py
index d748107..bdfe3eb 100644
--- a/scaks/solvers/kmc_plugins/event_analysis.py
+++ b/scaks/solvers/kmc_plugins/event_analysis.py
@@ -55,6 +55,7 @@ class EventAnalysis(KMCAnalysisPlugin):
         # Buffer contains content string.
         self.__buffer = ""
         self.__previous_table = []
+        self.__previous_step = None
 
         # Table field names.
         self.__field_names = ["process", "available sites", "total rate", "probability"]
@@ -103,6 +104,7 @@ class EventAnalysis(KMCAnalysisPlugin):
             self.__flush_counter += 1
 
         self.__previous_table = current_table
+        self.__previous_step = step
 
         if mpi.is_master and self.__flush_counter >= self.__buffer_size:
             self.__flush()
@@ -113,7 +115,7 @@ class EventAnalysis(KMCAnalysisPlugin):
         """
         # Get title string.
         tot_sites = sum([v[2] for v in interactions_table])
-        title = u"\nStep: {}\nTotal available sites number: {}\n".format(step-1, tot_sites)
+        title = u"\nStep: {}\nTotal available sites number: {}\n".format(self.__previous_step, tot_sites)
 
         # Get pretty table string.
         table = PrettyTable()
-- 
2.43.0


From e5ab83c5989ffba2eb16f14489e55ed94f2be8ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:52 +0000
Subject: [PATCH 36/56] fix: no division by zero in event analysis when no
 process is available

---
 scaks/solvers/kmc_plugins/event_analysis.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/scaks/solvers/kmc_plugins/event_analysis.py b/scaks/solvers/kmc_plugins/event_analysis.py
index bdfe3eb..89a54c9 100644
--- a/scaks/solvers/kmc_plugins/event_analysis.py
+++ b/scaks/solvers/kmc_plugins/event_analysis.py
@@ -158,7 +158,9 @@ class EventAnalysis(KMCAnalysisPlugin):
 
         # Get probability table.
         total_rates = [n*r for n, r in zip(process_available_sites, process_rates)]
-        probabilities = [r/sum(total_rates) for r in total_rates]
+        # No process can be picked if none of them is available.
+        sum_rates = sum(total_rates)
+        probabilities = [r/sum_rates if sum_rates else 0.0 for r in total_rates]
 
         table = []
         for i, (rxn, n, r, p) in enumerate(zip(reactions,
-- 
2.43.0


From be77391341c2415852eff14301cced6437d6a7fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:34 +0000
Subject: [PATCH 37/56] fix: let analyses inherit their methods from a base
 analysis

---
 scaks/plugins/metaclasses.py | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/scaks/plugins/metaclasses.py b/scaks/plugins/metaclasses.py
index 35d470f..f660434 100644
--- a/scaks/plugins/metaclasses.py
+++ b/scaks/plugins/metaclasses.py
@@ -19,7 +19,9 @@ class AnalysisMeta(type):
                 msg = "{} must be a callable object".format(method)
                 raise AttributeError(msg)
             # Set default interface methods.
-            elif method is None:
+            # NOTE: a method inherited from another class must not be replaced,
+            #       but the placeholders of the interface class itself.
+            elif method is None and not cls.__is_inherited(method_name, bases, attrs):
                 if method_name == 'setup':
                     attrs[method_name] = lambda self, model, outer_counter: None
                 elif method_name == 'register_step':
@@ -32,3 +34,23 @@ class AnalysisMeta(type):
         attrs['logger'] = logging.getLogger(logger_name)
 
         return type.__new__(cls, name, bases, attrs)
+
+    @classmethod
+    def __is_inherited(mcs, method_name, bases, attrs):
+        """
+        Private helper function to check if the method of an analysis class is
+        provided by one of its base classes except the interface class.
+        """
+        if method_name in attrs:
+            return False
+
+        for base in bases:
+            for parent in base.__mro__:
+                if method_name not in vars(parent):
+                    continue
+                is_interface = (isinstance(parent, mcs) and
+                                not any(isinstance(b, mcs) for b in parent.__bases__))
+                if not is_interface and vars(parent)[method_name] is not None:
+                    return True
+
+        return False
-- 
2.43.0


From 02084e569e9ad565e96a5a714c509b9df6182e07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:09 +0000
Subject: [PATCH 38/56] fix: make the log directory before any process opens
 its log file

---
 scaks/models/kinetic_model.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/scaks/models/kinetic_model.py b/scaks/models/kinetic_model.py
index f3d72b2..a74d1e6 100644
--- a/scaks/models/kinetic_model.py
+++ b/scaks/models/kinetic_model.py
@@ -193,9 +193,10 @@ class KineticModel(object):
             if 1 == mpi.size:
                 filename = "out.log"
             else:
-                mpi.barrier()
-                if not os.path.exists("./log") and mpi.is_master:
+                if mpi.is_master and not os.path.exists("./log"):
                     os.mkdir("./log")
+                # NOTE: the directory must exist before any process opens its log.
+                mpi.barrier()
                 filename = "./log/out_{}.log".format(mpi.rank)
 
         # Create handlers.
-- 
2.43.0


From 74e106ee065dfec0bee5f43f664564f87aaca4c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:09 +0000
Subject: [PATCH 39/56] fix: make the data directory before any process of a
 parallel run writes to it

---
 scaks/models/micro_kinetic_model.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/scaks/models/micro_kinetic_model.py b/scaks/models/micro_kinetic_model.py
index ca851e8..df8571f 100644
--- a/scaks/models/micro_kinetic_model.py
+++ b/scaks/models/micro_kinetic_model.py
@@ -127,10 +127,11 @@ class MicroKineticModel(KineticModel):
         super(MicroKineticModel, self).__init__(**kwargs)
 
         # Create data directory if need.
-        if mpi.size != 1 and not os.path.exists("./data"):
-            mpi.barrier()
-            if mpi.is_master:
+        if mpi.size != 1:
+            if mpi.is_master and not os.path.exists("./data"):
                 os.mkdir("./data")
+            # NOTE: the directory must exist before any process writes its data.
+            mpi.barrier()
 
         # Model attributes definitions.
         self.__ss_cvgs = None          # steady-state coverages
-- 
2.43.0


From 0680dd0680c2423e39baf4abd4a6fd2b94a7ac03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:09 +0000
Subject: [PATCH 40/56] fix: set_logger_level reaches the handlers of every
 model

---
 scaks/models/kinetic_model.py | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/scaks/models/kinetic_model.py b/scaks/models/kinetic_model.py
index a74d1e6..b53500c 100644
--- a/scaks/models/kinetic_model.py
+++ b/scaks/models/kinetic_model.py
@@ -229,19 +229,18 @@ class KineticModel(object):
         :return: Old logging level of the handler
         :rtype: int
         """
-        # Locate handler.
-        handler = None
-        for h in self._logger.handlers:
-            if h.__class__.__name__ == handler_type:
-                handler = h
-                break
-
-        if handler is None:
+        # Locate handlers.
+        # NOTE: every model adds its own handlers to the common logger.
+        handlers = [h for h in self._logger.handlers
+                    if h.__class__.__name__ == handler_type]
+
+        if not handlers:
             raise ValueError("Unknown handler type '{}'".format(handler_type))
 
         # Reset logging level.
-        old_level = handler.level
-        handler.setLevel(level)
+        old_level = handlers[-1].level
+        for handler in handlers:
+            handler.setLevel(level)
 
         return old_level
 
-- 
2.43.0


From eb678b43e1a4763481cce422137101193b6dab17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:09 +0000
Subject: [PATCH 41/56] fix: processes of a parallel run write ODE trajectories
 of their own

---
 scaks/solvers/steady_state_solver.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/scaks/solvers/steady_state_solver.py b/scaks/solvers/steady_state_solver.py
index e6f9c3e..52c3a16 100644
--- a/scaks/solvers/steady_state_solver.py
+++ b/scaks/solvers/steady_state_solver.py
@@ -10,6 +10,7 @@ from scipy.optimize import fsolve
 from .. import file_header
 from ..descriptors.descriptors import Memoized, Property
 from ..errors.error import *
+from ..mpicommons import mpi
 from ..utilities.format_utilities import get_list_string
 from ..parsers.rxn_parser import *
 from .rootfinding_iterators import *
@@ -1303,7 +1304,7 @@ class SteadyStateSolver(MeanFieldSolver):
             # Write file header.
             if traj_output:
                 flush_counter = 0
-                with open("auto_ode_coverages.py", "w") as f:
+                with open(self.__ode_filename(), "w") as f:
                     time_str = "times = []\n\n"
                     coverages_str = "coverages = []\n\n"
                     f.write(file_header + time_str + coverages_str)
@@ -1348,11 +1349,22 @@ class SteadyStateSolver(MeanFieldSolver):
 
             if self._owner.log_allowed:
                 self.__logger.info('ODE integration trajectory is written' +
-                                   ' to auto_ode_coverages.py.')
+                                   ' to {}.'.format(self.__ode_filename()))
 
         return last_time, last_coverages
         # }}}
 
+    @staticmethod
+    def __ode_filename():
+        """
+        Private helper function to get the name of the trajectory file.
+        """
+        # NOTE: processes integrate on their own, as they log and archive.
+        if mpi.size == 1:
+            return "auto_ode_coverages.py"
+        else:
+            return "./data/auto_ode_coverages_{}.py".format(mpi.rank)
+
     def __ode_flush(self, flush_counter, times, coverages):
         """
         Private helper function to flush ode intergration data to file.
@@ -1376,7 +1388,7 @@ class SteadyStateSolver(MeanFieldSolver):
         content = comment + times_str + coverages_str
 
         # Flush to file.
-        with open("auto_ode_coverages.py", "a") as f:
+        with open(self.__ode_filename(), "a") as f:
             f.write(content)
 
         # Free buffer.
-- 
2.43.0


From 784676005271bdcd58abd523b249eeb6451e74e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:27 +0000
Subject: [PATCH 42/56] fix: damped Newton iteration never ended at a
 stationary point with a zero component

---
 scaks/solvers/rootfinding_iterators.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scaks/solvers/rootfinding_iterators.py b/scaks/solvers/rootfinding_iterators.py
index 61b5023..8a4210b 100644
--- a/scaks/solvers/rootfinding_iterators.py
+++ b/scaks/solvers/rootfinding_iterators.py
@@ -251,7 +251,8 @@ class MDNewton(RootfindingIterator):
             l = mp.mpf('1.0')
             x1 = x0 + s
             while True:
-                if x1 == x0:
+                # NOTE: x1 never gets equal to x0 where x0 has a zero component.
+                if x1 == x0 or l < mp.eps**2:
                     self.logger.info("Found stationary point.")
                     cancel = True
                     break
-- 
2.43.0


From de13acfebfd1c6638491deb727a6eefb481609dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:20 +0000
Subject: [PATCH 43/56] fix: constrained Newton iteration failed with a
 BracketError at an exact root

---
 scaks/solvers/rootfinding_iterators.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scaks/solvers/rootfinding_iterators.py b/scaks/solvers/rootfinding_iterators.py
index 8a4210b..2f2d5f7 100644
--- a/scaks/solvers/rootfinding_iterators.py
+++ b/scaks/solvers/rootfinding_iterators.py
@@ -135,7 +135,8 @@ class ConstrainedNewton(RootfindingIterator):
                 fx = self._matrix(f(tuple(x1)))
                 # NOTE: scipy can not check the validity of a mpmath float.
                 return float(norm(fx))
-            l = golden(fl)
+            # NOTE: there is no bracket on the line if x0 is a root already.
+            l = golden(fl) if float(norm(fx)) > 0.0 else 0.0
 #            print l
 #            l = mp.mpf('1.0')
             x1 = self._matrix(x0) + s*self._mpfloat(l)  # matrix
-- 
2.43.0


From 50968a4b8014be9bd3493476b849a512e7102f17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:42 +0000
Subject: [PATCH 44/56] fix: functions and generators in input files see the
 variables of the file

---
 scaks/functions.py                      | 22 ++++++++++++++++++++++
 scaks/models/kinetic_model.py           |  4 +---
 scaks/parsers/absolute_energy_parser.py |  3 +--
 scaks/parsers/kmc_parser.py             | 11 ++++-------
 scaks/parsers/relative_energy_parser.py |  3 +--
 5 files changed, 29 insertions(+), 14 deletions(-)

diff --git a/scaks/functions.py b/scaks/functions.py
index 28371f1..8b57d74 100644
--- a/scaks/functions.py
+++ b/scaks/functions.py
@@ -114,6 +114,28 @@ def return_deepcopy(func):
     return wrapper
 
 
+def load_variables(filename):
+    """
+    Helper function to run a Python input file and get variables defined in it.
+
+    Parameters:
+    -----------
+    filename: The name of the input file, str.
+
+    Returns:
+    --------
+    variables: The names and values of the variables, dict.
+    """
+    # NOTE: functions and generators in the file can only see its variables
+    #       if global and local names are the same.
+    variables = {}
+    with open(filename, "rb") as f:
+        exec(f.read(), variables)
+    variables.pop("__builtins__", None)
+
+    return variables
+
+
 def mangled_name(obj, attribute):
     """
     Helper function to get the mangled name of a private attribute of an object.
diff --git a/scaks/models/kinetic_model.py b/scaks/models/kinetic_model.py
index b53500c..e0acbc1 100644
--- a/scaks/models/kinetic_model.py
+++ b/scaks/models/kinetic_model.py
@@ -154,9 +154,7 @@ class KineticModel(object):
             self.setup_dict = setup_dict
         else:
             self.setup_file = setup_file
-            globs, locs = {}, {}
-            exec(open(self.setup_file, "rb").read(), globs, locs)
-            self.setup_dict = locs
+            self.setup_dict = load_variables(self.setup_file)
 
         # Set logger.
         self._set_logger()
diff --git a/scaks/parsers/absolute_energy_parser.py b/scaks/parsers/absolute_energy_parser.py
index 32e81e5..ba8d469 100644
--- a/scaks/parsers/absolute_energy_parser.py
+++ b/scaks/parsers/absolute_energy_parser.py
@@ -27,8 +27,7 @@ class AbsoluteEnergyParser(ParserBase):
 
         :return: :obj:`None`
         """
-        globs, locs = {}, {}
-        exec(open(filename, "rb").read(), globs, locs)
+        locs = load_variables(filename)
 
         self._owner._absolute_energies = locs["absolute_energies"]
 
diff --git a/scaks/parsers/kmc_parser.py b/scaks/parsers/kmc_parser.py
index 5c82707..87ba10c 100644
--- a/scaks/parsers/kmc_parser.py
+++ b/scaks/parsers/kmc_parser.py
@@ -20,7 +20,7 @@ from ..compatutil import reduce
 from ..database.thermo_data import kB_eV
 from ..errors.error import *
 from ..database.lattice_data import grid_neighbor_offsets
-from ..functions import mangled_name
+from ..functions import load_variables, mangled_name
 from .rxn_parser import *
 from .relative_energy_parser import RelativeEnergyParser
 from ..utilities.check_utilities import *
@@ -102,8 +102,7 @@ class KMCParser(RelativeEnergyParser):
         if not os.path.exists(filename):
             site_types = init_default_types()
         else:
-            globs, locs = {}, {}
-            exec(open(filename, "rb").read(), globs, locs)
+            locs = load_variables(filename)
 
             if "site_types" not in locs:
                 site_types = init_default_types()
@@ -184,8 +183,7 @@ class KMCParser(RelativeEnergyParser):
 
         # Use data in file.
         if os.path.exists(filename):
-            globs, locs = {}, {}
-            exec(open(filename, "rb").read(), globs, locs)
+            locs = load_variables(filename)
             if "types" in locs:
                 types = locs["types"]
             else:
@@ -218,8 +216,7 @@ class KMCParser(RelativeEnergyParser):
         if filename is None:
             filename = "kmc_processes.py"
 
-        globs, locs = {}, {}
-        exec(open(filename, "rb").read(), globs, locs)
+        locs = load_variables(filename)
 
         # Get all possible process objects.
         if self._owner.log_allowed:
diff --git a/scaks/parsers/relative_energy_parser.py b/scaks/parsers/relative_energy_parser.py
index 376fbe0..f62588c 100644
--- a/scaks/parsers/relative_energy_parser.py
+++ b/scaks/parsers/relative_energy_parser.py
@@ -81,8 +81,7 @@ class RelativeEnergyParser(ParserBase):
         # {{{
         # Read relative energy data file.
         if os.path.exists(filename):
-            globs, energy_data = {}, {}
-            exec(open(filename, "rb").read(), globs, energy_data)
+            energy_data = load_variables(filename)
         elif energy_data is None:
             raise IOError("{} is not found.".format(filename))
 
-- 
2.43.0


From eedc4892f3d5c35f634f17ef44a5c492a78c1069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:07 +0000
Subject: [PATCH 45/56] fix: texts with quotes in written lists and
 dictionaries could not be read back

---
 scaks/utilities/format_utilities.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/scaks/utilities/format_utilities.py b/scaks/utilities/format_utilities.py
index e12adc0..4d885e1 100644
--- a/scaks/utilities/format_utilities.py
+++ b/scaks/utilities/format_utilities.py
@@ -38,7 +38,7 @@ def get_list_string(var_name, list_obj, ncols=5):
 
         # add single quotes for string
         if isinstance(elem, str):
-            data += ("'" + elem + "', ")
+            data += (repr(elem) + ', ')
         else:
             data += (str(elem) + ', ')
     end = '\n]\n\n'
@@ -60,7 +60,9 @@ def get_dict_string(var_name, dict_obj):
     data = ""
     for key in sorted(dict_obj):
         value = dict_obj[key]
-        data += "    '{}': {},\n".format(key, value)
+        if isinstance(value, str):
+            value = repr(value)
+        data += "    {!r}: {},\n".format(key, value)
     end = "}\n\n"
 
     content = begin + data + end
-- 
2.43.0


From a2675af825e320398ff5d60612ec20c118be28cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:28 +0000
Subject: [PATCH 46/56] fix: the sum of two chemical formulas failed

---
 scaks/parsers/rxn_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scaks/parsers/rxn_parser.py b/scaks/parsers/rxn_parser.py
index ec7cba6..72f9dad 100644
--- a/scaks/parsers/rxn_parser.py
+++ b/scaks/parsers/rxn_parser.py
@@ -307,7 +307,7 @@ class ChemFormula(object):
     def __add__(self, formula_inst):
         """ Overload + operation function.
         """
-        chem_state = self.formula + ' + ' + formula_inst.formula
+        chem_state = self.formula() + ' + ' + formula_inst.formula()
         return ChemState(chem_state)
 
     def __split(self):
-- 
2.43.0


From 9146cecf5130ee6508df9374f18dfa3bdcc2d23b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:28 +0000
Subject: [PATCH 47/56] fix: unbalanced brace in the LaTeX text of coverage
 derivatives

---
 scaks/solvers/steady_state_solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scaks/solvers/steady_state_solver.py b/scaks/solvers/steady_state_solver.py
index 52c3a16..093e7d1 100644
--- a/scaks/solvers/steady_state_solver.py
+++ b/scaks/solvers/steady_state_solver.py
@@ -586,7 +586,7 @@ class SteadyStateSolver(MeanFieldSolver):
         dtheta_dt_syms = tuple(dtheta_dt_syms)
 
         # Latex strings.
-        dtheta_dt_latexs = self.get_latex_strs(part1=r'\frac{d\theta_{', part2=r'}}{dt}} ',
+        dtheta_dt_latexs = self.get_latex_strs(part1=r'\frac{d\theta_{', part2=r'}}{dt}',
                                                symbols=dtheta_dt_syms)
 
         # Log it.
-- 
2.43.0


From 2ed838b179117090a7e1eb6b95d8bb252d4343a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:28 +0000
Subject: [PATCH 48/56] fix: energy profiles of reactions without barrier
 failed if endothermic or given a transition state

---
 scaks/plotters/energy_profile_plotter.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/scaks/plotters/energy_profile_plotter.py b/scaks/plotters/energy_profile_plotter.py
index 849ba67..7034da0 100644
--- a/scaks/plotters/energy_profile_plotter.py
+++ b/scaks/plotters/energy_profile_plotter.py
@@ -59,9 +59,13 @@ class EnergyProfilePlotter(PlotterBase):
         for idx, (rxn, Ga, dG) in enumerate(zip(self._owner.rxn_expressions,
                                                 self._owner.relative_energies['Gaf'],
                                                 self._owner.relative_energies['dG'])):
-            energies = [0.0, dG] if abs(Ga) < 1e-5 else [0.0, Ga, dG]
+            # A transition state is drawn if it lies above both other states.
+            energies = [0.0, dG] if Ga - max(0.0, dG) < 1e-5 else [0.0, Ga, dG]
+            # NOTE: the line can only bear an equation with as many states.
+            nstates = len(RxnEquation(rxn).tolist())
+            rxn_equation = rxn if nstates == len(energies) else None
             canvas = EPCanvas()
-            canvas.add_line(ElementaryLine(energies, rxn_equation=rxn, **kwargs))
+            canvas.add_line(ElementaryLine(energies, rxn_equation=rxn_equation, **kwargs))
             canvas.draw()
             image_name = 'energy_profile/{}_{}.png'.format(idx, rxn)
             canvas.figure.savefig(image_name)
-- 
2.43.0


From ac1cfd5d6a5e39460f59c40c939907fba5fa348e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:36 +0000
Subject: [PATCH 49/56] fix: an incomplete absolute energy file left the model
 half updated

---
 scaks/parsers/absolute_energy_parser.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/scaks/parsers/absolute_energy_parser.py b/scaks/parsers/absolute_energy_parser.py
index ba8d469..7fcb4cb 100644
--- a/scaks/parsers/absolute_energy_parser.py
+++ b/scaks/parsers/absolute_energy_parser.py
@@ -29,13 +29,23 @@ class AbsoluteEnergyParser(ParserBase):
         """
         locs = load_variables(filename)
 
+        # The old data would be needed again if the new ones are not complete.
+        old_data = {attr: self._owner.__dict__[attr]
+                    for attr in ("_absolute_energies", "_has_absolute_energy")
+                    if attr in self._owner.__dict__}
+
         self._owner._absolute_energies = locs["absolute_energies"]
 
         # Set flag.
         self._owner._has_absolute_energy = True
 
         # Get relative energies from absolute energies.
-        relative_energies = self._get_relative_from_absolute()
+        try:
+            relative_energies = self._get_relative_from_absolute()
+        except Exception:
+            del self._owner._absolute_energies, self._owner._has_absolute_energy
+            self._owner.__dict__.update(old_data)
+            raise
         self._owner._relative_energies = relative_energies
 
         # Set flag.
-- 
2.43.0


From 0d4ae403ab5ab67305c60609c6a4866f12fdeb3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:55 +0000
Subject: [PATCH 50/56] fix: total reactions with large stoichiometric ratios
 were wrong or refused

---
 scaks/parsers/parser_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scaks/parsers/parser_base.py b/scaks/parsers/parser_base.py
index 2658ada..b5ed520 100644
--- a/scaks/parsers/parser_base.py
+++ b/scaks/parsers/parser_base.py
@@ -204,7 +204,7 @@ class ParserBase(ModelShell):
         # in reverse direction or not take part in the total reaction.
         x = x.T.tolist()[0]
         ref_x = max(x, key=abs)
-        x = [Fraction(i/ref_x).limit_denominator(100) for i in x]
+        x = [Fraction(i/ref_x).limit_denominator(100000) for i in x]
         if sum(x) < 0:
             x = [-i for i in x]
 
-- 
2.43.0


From ebf843c584ec69af2e7825a7cbcbc395fb74aea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:12 +0000
Subject: [PATCH 51/56] fix: a continued KMC run lost the setup line after its
 start time or started at zero

---
 scripts/kmc_run/change_start_time.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/scripts/kmc_run/change_start_time.py b/scripts/kmc_run/change_start_time.py
index c070a9d..e3321ec 100644
--- a/scripts/kmc_run/change_start_time.py
+++ b/scripts/kmc_run/change_start_time.py
@@ -13,11 +13,13 @@ with open("pt-100.mkm", "r") as f:
 found = False
 for idx, line in enumerate(content):
     if line.startswith("start_time"):
-        content[idx] = "start_time = {}".format(start_time)
+        content[idx] = "start_time = {}\n".format(start_time)
         found = True
 
 if not found:
-    content.append('start_time = 0.0\n')
+    if content and not content[-1].endswith("\n"):
+        content[-1] += "\n"
+    content.append('start_time = {}\n'.format(start_time))
 
 with open("pt-100.mkm", "w") as f:
     f.writelines(content)
-- 
2.43.0


From 145b5a9947600c5a95ad0bdc192a018c1db0bb99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:12 +0000
Subject: [PATCH 52/56] fix: the scripts that create KMC jobs failed with
 Python 3 and wrote unreadable pressures

---
 scripts/kmc_run/1d-run/create_jobs.py | 7 ++++---
 scripts/kmc_run/2d-run/create_jobs.py | 9 +++++----
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/scripts/kmc_run/1d-run/create_jobs.py b/scripts/kmc_run/1d-run/create_jobs.py
index 6994620..8a28cff 100644
--- a/scripts/kmc_run/1d-run/create_jobs.py
+++ b/scripts/kmc_run/1d-run/create_jobs.py
@@ -2,11 +2,12 @@
 # -*- coding: utf-8 -*-
 
 import os
-import commands
 import shutil
 
 import numpy as np
 
+from scaks.compatutil import subprocess
+
 def dict2setup(d):
     setup = ""
     for key, value in d.items():
@@ -37,8 +38,8 @@ if "__main__" == __name__:
             shutil.rmtree(dest)
 
         os.mkdir(dest)
-        commands.getstatusoutput("cp -r ./template/* {}".format(dest))
-        locs['species_definitions'][species_name]['pressure'] = p
+        subprocess.getstatusoutput("cp -r ./template/* {}".format(dest))
+        locs['species_definitions'][species_name]['pressure'] = float(p)
 
         # Write new setup file.
         with open("./{}/{}".format(dest, filename), "w") as f:
diff --git a/scripts/kmc_run/2d-run/create_jobs.py b/scripts/kmc_run/2d-run/create_jobs.py
index f227096..803f54c 100644
--- a/scripts/kmc_run/2d-run/create_jobs.py
+++ b/scripts/kmc_run/2d-run/create_jobs.py
@@ -2,11 +2,12 @@
 # -*- coding: utf-8 -*-
 
 import os
-import commands
 import shutil
 
 import numpy as np
 
+from scaks.compatutil import subprocess
+
 def dict2setup(d):
     setup = ""
     for key, value in d.items():
@@ -42,9 +43,9 @@ if "__main__" == __name__:
                 shutil.rmtree(job_dir)
 
             os.mkdir(job_dir)
-            commands.getstatusoutput("cp -r ./template/* {}".format(job_dir))
-            locs['species_definitions']['CO_g']['pressure'] = pCO
-            locs['species_definitions']['O2_g']['pressure'] = pO2
+            subprocess.getstatusoutput("cp -r ./template/* {}".format(job_dir))
+            locs['species_definitions']['CO_g']['pressure'] = float(pCO)
+            locs['species_definitions']['O2_g']['pressure'] = float(pO2)
 
             # Write new setup file.
             with open("./{}/{}".format(job_dir, filename), "w") as f:
-- 
2.43.0


From 4225222ed66a75e58dce1bd430f78341296be7fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:12 +0000
Subject: [PATCH 53/56] fix: the scripts that extract KMC results failed with
 Python 3

---
 scripts/kmc_plot/batch_plot/extract_tofs.py  | 1 -
 scripts/kmc_plot/map_plot/extract_CO_cvgs.py | 2 +-
 scripts/kmc_plot/map_plot/extract_O_cvgs.py  | 2 +-
 scripts/kmc_plot/map_plot/extract_tofs.py    | 3 +--
 4 files changed, 3 insertions(+), 5 deletions(-)

diff --git a/scripts/kmc_plot/batch_plot/extract_tofs.py b/scripts/kmc_plot/batch_plot/extract_tofs.py
index dbceac6..fba599d 100644
--- a/scripts/kmc_plot/batch_plot/extract_tofs.py
+++ b/scripts/kmc_plot/batch_plot/extract_tofs.py
@@ -1,7 +1,6 @@
 #!/usr/bin/env python
 # -*- coding: utf-8 -*-
 
-import commands
 import os
 
 import numpy as np
diff --git a/scripts/kmc_plot/map_plot/extract_CO_cvgs.py b/scripts/kmc_plot/map_plot/extract_CO_cvgs.py
index d314aa5..15dc612 100644
--- a/scripts/kmc_plot/map_plot/extract_CO_cvgs.py
+++ b/scripts/kmc_plot/map_plot/extract_CO_cvgs.py
@@ -23,7 +23,7 @@ for pO2_dir in pO2_dirs:
         # Read tofs.
         filename = "{}/{}/auto_coverages.py".format(pO2_dir, pCO_dir)
         globs, locs = {}, {}
-        execfile(filename, globs, locs)
+        exec(open(filename, "rb").read(), globs, locs)
         cvg = locs["coverages"][-1][-1]
         cvgs_1d.append(cvg)
     cvgs.append(cvgs_1d)
diff --git a/scripts/kmc_plot/map_plot/extract_O_cvgs.py b/scripts/kmc_plot/map_plot/extract_O_cvgs.py
index 34deb4e..cceee71 100644
--- a/scripts/kmc_plot/map_plot/extract_O_cvgs.py
+++ b/scripts/kmc_plot/map_plot/extract_O_cvgs.py
@@ -22,7 +22,7 @@ for pO2_dir in pO2_dirs:
         # Read coverages.
         filename = "{}/{}/auto_coverages.py".format(pO2_dir, pCO_dir)
         globs, locs = {}, {}
-        execfile(filename, globs, locs)
+        exec(open(filename, "rb").read(), globs, locs)
         cvg = locs["coverages"][-2][-1]
         cvgs_1d.append(cvg)
     cvgs.append(cvgs_1d)
diff --git a/scripts/kmc_plot/map_plot/extract_tofs.py b/scripts/kmc_plot/map_plot/extract_tofs.py
index a84f57b..091293c 100644
--- a/scripts/kmc_plot/map_plot/extract_tofs.py
+++ b/scripts/kmc_plot/map_plot/extract_tofs.py
@@ -2,7 +2,6 @@
 # -*- coding: utf-8 -*-
 
 import numpy as np
-from scipy.interpolate import interp2d
 import matplotlib.pyplot as plt
 
 from scaks.compatutil import subprocess
@@ -24,7 +23,7 @@ for pO2_dir in pO2_dirs:
         # Read tofs.
         filename = "{}/{}/auto_frequency.py".format(pO2_dir, pCO_dir)
         globs, locs = {}, {}
-        execfile(filename, globs, locs)
+        exec(open(filename, "rb").read(), globs, locs)
         reaction_rates = locs["reaction_rates"]
         TON = 0.0
         reactions = sorted(reaction_rates.keys())
-- 
2.43.0


From 7b681884b644ec0824f19beb275f56d2e9451f09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:22 +0000
Subject: [PATCH 54/56] fix: the KMC run script and the plot of frequencies
 failed with Python 3

---
 scripts/kmc_plot/plot_frequencies.py | 4 ++--
 scripts/kmc_run/run.py               | 7 ++++---
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/scripts/kmc_plot/plot_frequencies.py b/scripts/kmc_plot/plot_frequencies.py
index cf9e4c4..d8d5688 100644
--- a/scripts/kmc_plot/plot_frequencies.py
+++ b/scripts/kmc_plot/plot_frequencies.py
@@ -13,7 +13,7 @@ reaction_occurencies = locs['reaction_occurencies']
 reactions = sorted(reaction_occurencies)
 
 # Get data.
-N = len(reaction_occurencies)/2
+N = len(reaction_occurencies)//2
 forward_rxns = reactions[::2]
 reverse_rxns = reactions[1::2]
 f_occurencies = [reaction_occurencies[rxn] for rxn in forward_rxns]
@@ -33,7 +33,7 @@ plt.xlabel(r'$\bf{Frequency}$', fontsize=16)
 ax.set_yticks(ind + width)
 
 # Get yticklabels.
-ylabels = [r"$\bf{reaction(%d)}$" % i for i in xrange(N)]
+ylabels = [r"$\bf{reaction(%d)}$" % i for i in range(N)]
 ax.set_yticklabels(ylabels, rotation=-10, fontsize=13)
 
 plt.legend((rects1[0], rects2[0]), (r'$\bf{forward}$', r'$\bf{reverse}$'))
diff --git a/scripts/kmc_run/run.py b/scripts/kmc_run/run.py
index 5e20dcf..6359328 100644
--- a/scripts/kmc_run/run.py
+++ b/scripts/kmc_run/run.py
@@ -2,23 +2,24 @@
 Script to run scaks kMC simulation.
 """
 
-import commands
 import logging
+import sys
 import time
 
+from scaks.compatutil import subprocess
 from scaks.mpicommons import mpi
 from scaks.models.kmc_model import KMCModel
 from scaks.utilities.format_utilities import convert_time
 
 if "__main__" == __name__:
     # Remove old log file.
-    commands.getstatusoutput("rm -rm out.log auto_*")
+    subprocess.getstatusoutput("rm -rf out.log auto_*")
 
     # Set logger.
     logger = logging.getLogger("model.KMCModelRun")
 
     # Get setup file.
-    status, output= commands.getstatusoutput("ls *.mkm | tail -1")
+    status, output= subprocess.getstatusoutput("ls *.mkm | tail -1")
     if status:
         if mpi.is_master:
             logger.error(output)
-- 
2.43.0


From b3ef45f6a81ef5acbbeddf58b7cd44d312237922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:24 +0000
Subject: [PATCH 55/56] fix: setups of created jobs could not be read if a text
 holds quotes or backslashes

---
 scripts/kmc_run/1d-run/create_jobs.py | 3 +--
 scripts/kmc_run/2d-run/create_jobs.py | 3 +--
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/scripts/kmc_run/1d-run/create_jobs.py b/scripts/kmc_run/1d-run/create_jobs.py
index 8a28cff..636125c 100644
--- a/scripts/kmc_run/1d-run/create_jobs.py
+++ b/scripts/kmc_run/1d-run/create_jobs.py
@@ -11,8 +11,7 @@ from scaks.compatutil import subprocess
 def dict2setup(d):
     setup = ""
     for key, value in d.items():
-        value = "'{}'".format(value) if type(value) is str else value
-        line = "{} = {}\n".format(key, value)
+        line = "{} = {!r}\n".format(key, value)
         setup += line
     return setup
 
diff --git a/scripts/kmc_run/2d-run/create_jobs.py b/scripts/kmc_run/2d-run/create_jobs.py
index 803f54c..ba46e10 100644
--- a/scripts/kmc_run/2d-run/create_jobs.py
+++ b/scripts/kmc_run/2d-run/create_jobs.py
@@ -11,8 +11,7 @@ from scaks.compatutil import subprocess
 def dict2setup(d):
     setup = ""
     for key, value in d.items():
-        value = "'{}'".format(value) if type(value) is str else value
-        line = "{} = {}\n".format(key, value)
+        line = "{} = {!r}\n".format(key, value)
         setup += line
     return setup
 
-- 
2.43.0


From b40d52d7740bbed5948985af1b637ea927986103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:29:21 +0000
Subject: [PATCH 56/56] fix: refuse an empty or array-like initial guess of
 coverages

---
 scaks/models/micro_kinetic_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scaks/models/micro_kinetic_model.py b/scaks/models/micro_kinetic_model.py
index df8571f..39d49e5 100644
--- a/scaks/models/micro_kinetic_model.py
+++ b/scaks/models/micro_kinetic_model.py
@@ -199,7 +199,7 @@ class MicroKineticModel(KineticModel):
         # set initial guess(initial coverage)
         # if there is converged coverage in current path,
         # use it as initial guess
-        if init_cvgs:
+        if init_cvgs is not None:
             # Check init_cvgs type.
             if not isinstance(init_cvgs, (tuple, list)):
                 msg = "init_cvgs must be a list or tuple, but {} received."
-- 
2.43.0

