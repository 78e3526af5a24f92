From 5a8e0fd9c2859caa449547011d2bbcfcdb0c0155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:31 +0000
Subject: [PATCH 01/24] fix: count the performed iterations in performed_iter_

The attribute was documented as the total number of iterations but stayed 0.
---
 col_gen_estimator/_col_gen_classifier.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/col_gen_estimator/_col_gen_classifier.py b/col_gen_estimator/_col_gen_classifier.py
index 07b27fe..ebb18fd 100644
--- a/col_gen_estimator/_col_gen_classifier.py
+++ b/col_gen_estimator/_col_gen_classifier.py
@@ -380,6 +380,7 @@ class ColGenClassifier(ClassifierMixin, BaseEstimator):
             if self.max_iterations > 0 and self.iter_ >= self.max_iterations:
                 break
             self.iter_ += 1
+            self.performed_iter_ = self.iter_
             print("Iteration number: ", self.iter_)
             print("Time elapsed: ", time() - t_start)
             master_time_start = time()
-- 
2.43.0


From 1244b900f484fe5267bb648f7e1d26f59815f03e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:31 +0000
Subject: [PATCH 02/24] fix: give heuristic paths without rows a valid target

A path that no training row follows got target -1. Such a path can be selected,
and predict then fails for every row that reaches its leaf.
---
 col_gen_estimator/_dtree_classifier.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/col_gen_estimator/_dtree_classifier.py b/col_gen_estimator/_dtree_classifier.py
index 849dc8a..53c027b 100644
--- a/col_gen_estimator/_dtree_classifier.py
+++ b/col_gen_estimator/_dtree_classifier.py
@@ -1971,7 +1971,7 @@ class DTreeSubProblemHeuristic(BaseSubproblem):
             n_rows = X.shape[0]
 
             possible_targets = {}
-            best_target = -1
+            best_target = self.targets_[0]
             best_target_count = 0
             row_satisfies_path_array = [False]*n_rows
 
-- 
2.43.0


From 1a4121d467f848a26f45919e705b5535ecb24822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:31 +0000
Subject: [PATCH 03/24] fix: compute the true cost of paths found by
 DTreeSubProblemSat

Intermediate CP-SAT solutions may leave z variables at 0 although the row follows
the path and has its target. The reported path cost was then too low.
---
 col_gen_estimator/_dtree_classifier.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/col_gen_estimator/_dtree_classifier.py b/col_gen_estimator/_dtree_classifier.py
index 53c027b..87a2a79 100644
--- a/col_gen_estimator/_dtree_classifier.py
+++ b/col_gen_estimator/_dtree_classifier.py
@@ -1512,7 +1512,8 @@ class PathGenerator(cp_model.CpSolverSolutionCallback):
                  leaf_dual,
                  leaf, targets,
                  nodes,
-                 orig_obj_coeffs):
+                 orig_obj_coeffs,
+                 row_targets):
         cp_model.CpSolverSolutionCallback.__init__(self)
         self.u_vars = u_vars
         self.w_vars = w_vars
@@ -1524,6 +1525,7 @@ class PathGenerator(cp_model.CpSolverSolutionCallback):
         self.targets = targets
         self.nodes = nodes
         self.orig_obj_coeffs = orig_obj_coeffs
+        self.row_targets = row_targets
         self.solution_count = 0
         self.paths = []
         self.original_objective = 0.0
@@ -1532,11 +1534,15 @@ class PathGenerator(cp_model.CpSolverSolutionCallback):
         self.solution_count += 1
         original_objective = 0.0
         path_cost = 0.0
-        for z_var in self.z_vars:
+        # The z variables are not forced to 1 by the constraints, so they can be
+        # too small in intermediate solutions. Hence the cost is computed from
+        # the rows reaching the leaf and the selected target.
+        for i, z_var in enumerate(self.z_vars):
             if z_var == None:
                 continue
-            path_cost += self.orig_obj_coeffs[z_var] * \
-                self.Value(z_var)
+            if self.Value(self.w_vars[self.row_targets[i]]) > 0.5:
+                path_cost += self.orig_obj_coeffs[z_var] * \
+                    self.Value(self.y_vars[i])
 
         original_objective += path_cost
 
@@ -1907,7 +1913,8 @@ class DTreeSubProblemSat(BaseSubproblem):
                                        self.yc_vars_, leaf_dual, self.leaf_,
                                        self.targets_,
                                        self.nodes_,
-                                       self.orig_obj_coeffs)
+                                       self.orig_obj_coeffs,
+                                       self.y_)
         # status = self.cp_solver_.Solve(self.model_, path_generator)
         self.solve_model(self.model_, time_limit=2, callback=path_generator)
         # print(self.leaf_id_, " Path generation status: ",
-- 
2.43.0


From 2854a90194a23226330bd5b2285822a27fc63b88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:31 +0000
Subject: [PATCH 04/24] fix: select exactly one target in DTreeSubProblem

Constraint (8). With at most one target, a path without rows got target -1.
---
 col_gen_estimator/_dtree_classifier.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/col_gen_estimator/_dtree_classifier.py b/col_gen_estimator/_dtree_classifier.py
index 87a2a79..a41a448 100644
--- a/col_gen_estimator/_dtree_classifier.py
+++ b/col_gen_estimator/_dtree_classifier.py
@@ -1298,7 +1298,7 @@ class DTreeSubProblem(BaseSubproblem):
         # only one class selected
         # Binary variables indicating that the class is selected.
         self.w_vars_ = [None]*len(self.targets_)
-        single_target_cons = self.solver_.Constraint(0, 1, 'single_target')
+        single_target_cons = self.solver_.Constraint(1, 1, 'single_target')
         for i in range(len(self.targets_)):
             target = self.targets_[i]
             w_var = self.solver_.BoolVar('w_' + str(target))
-- 
2.43.0


From 90616fa1475fe027bc01ea2883198313b328886a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:15 +0000
Subject: [PATCH 05/24] fix: do not append generated paths to the caller's
 initial_paths

DTreeMasterProblem used the list object of the caller (a constructor parameter
of DTreeClassifier) as its own list of paths.
---
 col_gen_estimator/_dtree_classifier.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/col_gen_estimator/_dtree_classifier.py b/col_gen_estimator/_dtree_classifier.py
index a41a448..202c2a2 100644
--- a/col_gen_estimator/_dtree_classifier.py
+++ b/col_gen_estimator/_dtree_classifier.py
@@ -546,7 +546,7 @@ class DTreeMasterProblem(BaseMasterProblem):
         self.cut_gen_model_ = cp_model.CpModel()
         self.cut_obj_scale = 1000000
         self.generated_ = False
-        self.paths_ = initial_paths
+        self.paths_ = list(initial_paths)
         self.generated_paths_ = set()
         self.leaves_ = leaves
         self.nodes_ = nodes
-- 
2.43.0


From a1393e830c8af005051d85e81fbd931d383a77ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:15 +0000
Subject: [PATCH 06/24] fix: do not reuse cuts and path ids of an earlier
 master problem

Splits and data rows keep the cut indices and path ids of the master problem
that used them before. A second classifier (or a clone) using them then failed
or added wrong row constraints.
---
 col_gen_estimator/_dtree_classifier.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/col_gen_estimator/_dtree_classifier.py b/col_gen_estimator/_dtree_classifier.py
index 202c2a2..93d5062 100644
--- a/col_gen_estimator/_dtree_classifier.py
+++ b/col_gen_estimator/_dtree_classifier.py
@@ -625,6 +625,10 @@ class DTreeMasterProblem(BaseMasterProblem):
 
         self.X_ = X
         self.y_ = y
+        # Forget the cuts of other master problems that used the same splits.
+        for split in self.splits_:
+            split.left_cuts = set()
+            split.right_cuts = set()
         self.create_cut_gen_model()
         infinity = self.solver_.infinity()
         self.solver_.SetNumThreads(1)
@@ -726,6 +730,7 @@ class DTreeMasterProblem(BaseMasterProblem):
 
     def compute_satisfied_paths(self):
         for r, data_row in enumerate(self.data_rows):
+            data_row.reachable_paths = set()
             for path in self.paths_:
                 if row_satisfies_path(self.X_[r], self.leaves_[path.leaf_id],
                                       self.splits_, path):
-- 
2.43.0


From 7661b8e6cc4ad0efd483fe61b3c031abcec9be02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:15 +0000
Subject: [PATCH 07/24] fix: use the row weights in DTreeSubProblemOld

With aggregated rows the path cost and the reduced cost ignored the rows that
were merged into others.
---
 col_gen_estimator/_dtree_classifier.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/col_gen_estimator/_dtree_classifier.py b/col_gen_estimator/_dtree_classifier.py
index 93d5062..41bb8c6 100644
--- a/col_gen_estimator/_dtree_classifier.py
+++ b/col_gen_estimator/_dtree_classifier.py
@@ -2121,7 +2121,7 @@ class DTreeSubProblemOld(BaseSubproblem):
             y_var = self.solver_.BoolVar('y_'+str(i))
             row_dual = row_duals[i]
             if self.y_[i] == self.target_:
-                objective.SetCoefficient(y_var, 1-row_dual)
+                objective.SetCoefficient(y_var, obj_coeff-row_dual)
             else:
                 objective.SetCoefficient(y_var, -row_dual)
             self.y_vars_[i] = y_var.index()
@@ -2220,12 +2220,12 @@ class DTreeSubProblemOld(BaseSubproblem):
             if self.data_rows != None:
                 if self.data_rows[i].removed_from_sp:
                     continue
-                # obj_coeff = self.data_rows[i].weight
+                obj_coeff = self.data_rows[i].weight
 
             y_var = self.solver_.variable(self.y_vars_[i])
             row_dual = row_duals[i]
             if self.y_[i] == self.target_:
-                objective.SetCoefficient(y_var, 1-row_dual)
+                objective.SetCoefficient(y_var, obj_coeff-row_dual)
             else:
                 objective.SetCoefficient(y_var, -row_dual)
 
@@ -2346,10 +2346,10 @@ class DTreeSubProblemOld(BaseSubproblem):
             if self.data_rows != None:
                 if self.data_rows[i].removed_from_sp:
                     continue
-                # obj_coeff = self.data_rows[i].weight
+                obj_coeff = self.data_rows[i].weight
             y_var = self.solver_.variable(self.y_vars_[i])
             if self.y_[i] == self.target_:
-                path.cost += 1 * y_var.solution_value()
+                path.cost += obj_coeff * y_var.solution_value()
         return [path]
 
     def update_subproblem(self, X, y, dual_costs):
-- 
2.43.0


From 07853a4648d2ba914e83231d98527457c8966ac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:15 +0000
Subject: [PATCH 08/24] fix: predict on sparse matrices

predict accepts sparse input but failed on it as single entries of a row were read
by indexing a sparse row.
---
 col_gen_estimator/_bdr_classifier.py   | 3 +++
 col_gen_estimator/_dtree_classifier.py | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/col_gen_estimator/_bdr_classifier.py b/col_gen_estimator/_bdr_classifier.py
index d5ea232..08e9fef 100644
--- a/col_gen_estimator/_bdr_classifier.py
+++ b/col_gen_estimator/_bdr_classifier.py
@@ -86,6 +86,7 @@ import itertools
 from bitarray.util import int2ba
 from ortools.linear_solver import pywraplp
 from ortools.linear_solver import linear_solver_pb2
+from scipy.sparse import issparse
 from sklearn.utils.validation import check_array, check_is_fitted
 from ._col_gen_classifier import BaseMasterProblem
 from ._col_gen_classifier import BaseSubproblem
@@ -689,6 +690,8 @@ class BooleanDecisionRuleClassifier(ColGenClassifier):
             The label for each sample. The labels only contain values in {0,1}.
         """
         X = check_array(X, accept_sparse=True)
+        if issparse(X):
+            X = X.toarray()
         check_is_fitted(self, 'is_fitted_')
         explanation = self.master_problem.explanation
         print("Explanation=", explanation)
diff --git a/col_gen_estimator/_dtree_classifier.py b/col_gen_estimator/_dtree_classifier.py
index 41bb8c6..e0aa9aa 100644
--- a/col_gen_estimator/_dtree_classifier.py
+++ b/col_gen_estimator/_dtree_classifier.py
@@ -122,6 +122,7 @@ from ortools.linear_solver import pywraplp
 from ortools.linear_solver import linear_solver_pb2
 from ortools.sat.python import cp_model
 from math import floor, ceil
+from scipy.sparse import issparse
 from sklearn.utils.validation import check_array, check_is_fitted
 from ._col_gen_classifier import BaseMasterProblem
 from ._col_gen_classifier import BaseSubproblem
@@ -2542,6 +2543,8 @@ class DTreeClassifier(ColGenClassifier):
             The label for each sample.
         """
         X = check_array(X, accept_sparse=True)
+        if issparse(X):
+            X = X.toarray()
         check_is_fitted(self, 'is_fitted_')
         selected_paths = self.master_problem.selected_paths
         # Check for each row, which path it satisfies. There should be exactly
-- 
2.43.0


From c3598ca9c602a72a556b248180f78d8e60d95de0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:15 +0000
Subject: [PATCH 09/24] fix: keep the time limit when preprocessing has used it
 up

The remaining time could become negative, which removed the time limit.
---
 examples/dtree_experiment.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/examples/dtree_experiment.py b/examples/dtree_experiment.py
index bf7f9fe..7ba36e9 100644
--- a/examples/dtree_experiment.py
+++ b/examples/dtree_experiment.py
@@ -290,7 +290,9 @@ def main(argv):
     t2 = time()
     preprocessing_time = t2-t0
     print("Total preprocessing time: ", t2-t0)
-    time_limit -= preprocessing_time
+    if time_limit > 0:
+        # A limit that is not positive would mean no limit at all.
+        time_limit = max(time_limit - preprocessing_time, 0.001)
 
     t0 = time()
     clf = DTreeClassifier(paths.copy(), leaves.copy(), nodes.copy(),
-- 
2.43.0


From 4138e32bd08146cd3e403e186e1590cc375828bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:15 +0000
Subject: [PATCH 10/24] fix: keep at least one candidate split per node for
 deep trees

From depth 7 on the number of candidate splits to keep per node was 0.
---
 examples/dtree_experiment.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/examples/dtree_experiment.py b/examples/dtree_experiment.py
index 7ba36e9..9f63fe6 100644
--- a/examples/dtree_experiment.py
+++ b/examples/dtree_experiment.py
@@ -143,8 +143,8 @@ def main(argv):
         node.id = node_id
         node.candidate_splits = []
         combined_nodes[node_id] = node
-    q_root = int(150 / max_num_nodes)
-    q_node = int(100 / max_num_nodes)
+    q_root = max(int(150 / max_num_nodes), 1)
+    q_node = max(int(100 / max_num_nodes), 1)
 
     for i in range(300):
         if preprocessing_time_limit > 0 and time() - t0 > preprocessing_time_limit:
-- 
2.43.0


From 6296427fd91f2130d898ea6d2ba712db21898c63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:39 +0000
Subject: [PATCH 11/24] fix: train boolean rule classifiers with their current
 parameters and data

The problems were created once in the constructor. Values given by set_params
(hence by a grid search) were ignored, and fitting again on other data kept the
model of the first data.
---
 col_gen_estimator/_bdr_classifier.py     | 59 +++++++++++++++---------
 col_gen_estimator/_col_gen_classifier.py |  8 ++++
 2 files changed, 46 insertions(+), 21 deletions(-)

diff --git a/col_gen_estimator/_bdr_classifier.py b/col_gen_estimator/_bdr_classifier.py
index 08e9fef..dde0af2 100644
--- a/col_gen_estimator/_bdr_classifier.py
+++ b/col_gen_estimator/_bdr_classifier.py
@@ -653,22 +653,38 @@ class BooleanDecisionRuleClassifier(ColGenClassifier):
                  master_ip_solver_params="",
                  subproblem_solver="cbc",
                  subproblem_params=[[""]]):
+        self.C = C
+        self.p = p
+        self.rmp_solver = rmp_solver
+        self.subproblem_solver = subproblem_solver
+        self._create_problems()
         super(BooleanDecisionRuleClassifier, self).__init__(
             max_iterations,
-            master_problem=BDRMasterProblem(
-                C, p, rmp_solver),
-            subproblems=[[BDRSubProblem(
-                C, subproblem_solver)]],
+            master_problem=self.master_problem,
+            subproblems=self.subproblems,
             rmp_is_ip=True,
             rmp_solver_params=rmp_solver_params,
             master_ip_solver_params=master_ip_solver_params,
             subproblem_params=subproblem_params)
-        # Not used after this but we have to store them for sklearn
-        # compatibility.
-        self.C = C
-        self.p = p
-        self.rmp_solver = rmp_solver
-        self.subproblem_solver = subproblem_solver
+
+    def _create_subproblems(self):
+        """Creates the subproblems for the current parameters."""
+        return [[BDRSubProblem(self.C, self.subproblem_solver)]]
+
+    def _create_problems(self):
+        """Creates the master and the subproblems for the current parameters.
+        """
+        self.master_problem = BDRMasterProblem(self.C, self.p, self.rmp_solver)
+        self.subproblems = self._create_subproblems()
+        self._used_params = (
+            self.C, self.p, self.rmp_solver, self.subproblem_solver)
+
+    def _prepare_problems(self):
+        """Recreates the problems if they were already used for training or the
+        parameters were changed."""
+        params = (self.C, self.p, self.rmp_solver, self.subproblem_solver)
+        if self.master_problem.generated_ or params != self._used_params:
+            self._create_problems()
 
     def _more_tags(self):
         return {'X_types': ['categorical'],
@@ -828,20 +844,21 @@ class BooleanDecisionRuleClassifierWithHeuristic(
                  master_ip_solver_params="",
                  subproblem_solver="cbc",
                  subproblem_params=[[""], [""]]):
+        self.C = C
+        self.p = p
+        self.rmp_solver = rmp_solver
+        self.subproblem_solver = subproblem_solver
+        self._create_problems()
         super(BooleanDecisionRuleClassifier, self).__init__(
             max_iterations,
-            master_problem=BDRMasterProblem(
-                C, p, rmp_solver),
-            subproblems=[[BDRHeuristic(K=1)],
-                         [BDRSubProblem(
-                             C, subproblem_solver)]],
+            master_problem=self.master_problem,
+            subproblems=self.subproblems,
             rmp_is_ip=True,
             rmp_solver_params=rmp_solver_params,
             master_ip_solver_params=master_ip_solver_params,
             subproblem_params=subproblem_params)
-        # Not used after this but we have to store them for sklearn
-        # compatibility.
-        self.C = C
-        self.p = p
-        self.rmp_solver = rmp_solver
-        self.subproblem_solver = subproblem_solver
+
+    def _create_subproblems(self):
+        """Creates the heuristic and the exact subproblem."""
+        return [[BDRHeuristic(K=1)],
+                [BDRSubProblem(self.C, self.subproblem_solver)]]
diff --git a/col_gen_estimator/_col_gen_classifier.py b/col_gen_estimator/_col_gen_classifier.py
index ebb18fd..7f90b2b 100644
--- a/col_gen_estimator/_col_gen_classifier.py
+++ b/col_gen_estimator/_col_gen_classifier.py
@@ -361,6 +361,7 @@ class ColGenClassifier(ClassifierMixin, BaseEstimator):
                 "Classifier can't train when only one class is present.")
 
         # Initiate the master and subproblems
+        self._prepare_problems()
         self.master_problem.generate_mp(X, self.processed_y_)
 
         self.performed_iter_ = 0
@@ -459,6 +460,13 @@ class ColGenClassifier(ClassifierMixin, BaseEstimator):
         # Return the classifier
         return self
 
+    def _prepare_problems(self):
+        """ (Optional) Called at the beginning of the training. Estimators that
+        create the master and the subproblems from their own parameters can
+        recreate them here.
+        """
+        return
+
     def predict(self, X):
         """ Predicts the class based on the solution of master problem. This
         method is abstract.
-- 
2.43.0


From 32bffc391d15cb0a3ef9038c67a63f7581b3253c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:16 +0000
Subject: [PATCH 12/24] fix: keep the constructor parameters of DTreeClassifier
 usable

use_old_sp and master_solver_type were not stored, so get_params, clone and repr
failed. subproblem_params was overwritten, and set_params had no effect on the
parameters used for the master and the subproblems.
---
 col_gen_estimator/_col_gen_classifier.py |  6 +-
 col_gen_estimator/_dtree_classifier.py   | 72 +++++++++++++++++-------
 2 files changed, 57 insertions(+), 21 deletions(-)

diff --git a/col_gen_estimator/_col_gen_classifier.py b/col_gen_estimator/_col_gen_classifier.py
index 7f90b2b..c51293a 100644
--- a/col_gen_estimator/_col_gen_classifier.py
+++ b/col_gen_estimator/_col_gen_classifier.py
@@ -421,7 +421,7 @@ class ColGenClassifier(ClassifierMixin, BaseEstimator):
                     generated_columns = self.subproblems[sp_level][sp_ind] \
                         .generate_columns(
                         X, self.processed_y_, dual_costs,
-                        self.subproblem_params[sp_level][sp_ind])
+                        self._get_subproblem_params(sp_level, sp_ind))
                     sp_time_end = time()
                     self.time_spent_sp_[
                         sp_level][sp_ind] += sp_time_end - sp_time_start
@@ -467,6 +467,10 @@ class ColGenClassifier(ClassifierMixin, BaseEstimator):
         """
         return
 
+    def _get_subproblem_params(self, sp_level, sp_ind):
+        """ Returns the parameters for solving the given subproblem."""
+        return self.subproblem_params[sp_level][sp_ind]
+
     def predict(self, X):
         """ Predicts the class based on the solution of master problem. This
         method is abstract.
diff --git a/col_gen_estimator/_dtree_classifier.py b/col_gen_estimator/_dtree_classifier.py
index e0aa9aa..6101253 100644
--- a/col_gen_estimator/_dtree_classifier.py
+++ b/col_gen_estimator/_dtree_classifier.py
@@ -2451,8 +2451,44 @@ class DTreeClassifier(ColGenClassifier):
         self.master_beta_constraints_as_cuts = master_beta_constraints_as_cuts
         self.master_generate_cuts = master_generate_cuts
         self.data_rows = data_rows
+        self.use_old_sp = use_old_sp
+        self.master_solver_type = master_solver_type
+        all_subproblem_params = self._create_problems()
+
+        rmp_is_ip = True
+        super().__init__(max_iterations, time_limit,
+                         self.master_problem, self.subproblems,
+                         rmp_is_ip, rmp_solver_params, master_ip_solver_params,
+                         all_subproblem_params)
+        # The base class gets the parameters per subproblem. See
+        # _get_subproblem_params.
+        self.subproblem_params = subproblem_params
+
+    def _get_used_params(self):
+        """Returns the parameters used for creating the problems."""
+        return (self.initial_paths, self.leaves, self.nodes, self.splits,
+                self.tree_depth, self.targets, self.num_master_cuts_round,
+                self.master_beta_constraints_as_cuts,
+                self.master_generate_cuts, self.data_rows, self.use_old_sp,
+                self.master_solver_type)
+
+    def _prepare_problems(self):
+        """Recreates the problems if the parameters were changed."""
+        if any(used is not param for used, param in
+               zip(self._used_params, self._get_used_params())):
+            self._create_problems()
+
+    def _get_subproblem_params(self, sp_level, sp_ind):
+        """The parameters are only used for the exact subproblems."""
+        return "" if sp_level == 0 else self.subproblem_params
+
+    def _create_problems(self):
+        """Creates the master and the subproblems for the current parameters.
+        Returns the list of parameters of the subproblems.
+        """
+        self._used_params = self._get_used_params()
         split_ids = []
-        for split in splits:
+        for split in self.splits:
             split_ids.append(split.id)
         # Each node must be in sequence.
         node_ids = []
@@ -2465,7 +2501,7 @@ class DTreeClassifier(ColGenClassifier):
         # Each leaf must be in sequence.
         leaf_ids = []
         leaf_id = 0
-        for leaf in leaves:
+        for leaf in self.leaves:
             assert leaf.id == leaf_id
             leaf_ids.append(leaf.id)
             leaf_id += 1
@@ -2477,52 +2513,48 @@ class DTreeClassifier(ColGenClassifier):
                 assert node_id in node_ids
             for split_id in path.splits:
                 assert split_id in split_ids, "split id " + str(split_id)
-            assert path.target in targets
+            assert path.target in self.targets
             assert len(path.node_ids) == self.tree_depth
             assert len(path.splits) == self.tree_depth
 
         self.master_problem = DTreeMasterProblem(
             self.initial_paths, self.leaves, self.nodes, self.splits,
-            num_cuts_round=num_master_cuts_round,
-            beta_constraints_as_cuts=master_beta_constraints_as_cuts,
-            generate_cuts=master_generate_cuts,
-            solver_type=master_solver_type,
-            data_rows=data_rows)
+            num_cuts_round=self.num_master_cuts_round,
+            beta_constraints_as_cuts=self.master_beta_constraints_as_cuts,
+            generate_cuts=self.master_generate_cuts,
+            solver_type=self.master_solver_type,
+            data_rows=self.data_rows)
         self.subproblems = []
         all_subproblem_params = []
         heuristic = DTreeSubProblemHeuristic(
             self.leaves, self.nodes, self.splits, self.targets,
-            self.tree_depth, data_rows=data_rows)
+            self.tree_depth, data_rows=self.data_rows)
         self.subproblems.append([heuristic])
         all_subproblem_params.append([""])
         self.subproblems.append([])
         all_subproblem_params.append([])
         for leaf in self.leaves:
-            if use_old_sp:
+            if self.use_old_sp:
                 for target in self.targets:
                     subproblem = DTreeSubProblemOld(
                         leaf, self.nodes, self.splits, target,
                         self.tree_depth, solver_str='sat',
-                        data_rows=data_rows)
+                        data_rows=self.data_rows)
                     self.subproblems[1].append(subproblem)
-                    all_subproblem_params[1].append(subproblem_params)
+                    all_subproblem_params[1].append(self.subproblem_params)
             else:
                 # subproblem = DTreeSubProblem(
                 #     leaf, self.nodes, self.splits, self.targets,
                 #     self.tree_depth, solver_str='sat',
-                #     data_rows=data_rows)
+                #     data_rows=self.data_rows)
                 subproblem = DTreeSubProblemSat(
                     leaf, self.nodes, self.splits, self.targets,
                     self.tree_depth,
-                    data_rows=data_rows)
+                    data_rows=self.data_rows)
                 self.subproblems[1].append(subproblem)
-                all_subproblem_params[1].append(subproblem_params)
+                all_subproblem_params[1].append(self.subproblem_params)
 
-        rmp_is_ip = True
-        super().__init__(max_iterations, time_limit,
-                         self.master_problem, self.subproblems,
-                         rmp_is_ip, rmp_solver_params, master_ip_solver_params,
-                         all_subproblem_params)
+        return all_subproblem_params
 
     def _more_tags(self):
         return {'X_types': ['categorical'],
-- 
2.43.0


From 615f637b96c7cb25149c37c962a7d34e7f275438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:15 +0000
Subject: [PATCH 13/24] fix: start the experiment only with paths over the
 candidate splits

---
 examples/dtree_experiment.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/examples/dtree_experiment.py b/examples/dtree_experiment.py
index 9f63fe6..9f26310 100644
--- a/examples/dtree_experiment.py
+++ b/examples/dtree_experiment.py
@@ -216,17 +216,23 @@ def main(argv):
             combined_nodes[node_id].candidate_splits_count.append(0)
             combined_nodes[node_id].last_split = 0
 
+    splits = get_splits_list(combined_splits)
+    nodes = get_nodes_list(combined_nodes)
+
+    if REDUCED_SPLITS:
+        nodes = reduce_splits(nodes, splits, q_root, q_node)
+        # The initial paths must use the remaining candidates. The splits of
+        # the latest tree always remain.
+        for node in nodes:
+            if node.last_split not in node.candidate_splits:
+                node.last_split = node.candidate_splits[0]
+
     all_leaves, all_paths = get_all_leaves_paths(
         combined_nodes, experiment_max_depth, splits, X_train.to_numpy(),
         y_train)
 
     paths = get_paths_list(all_paths)
     leaves = get_leaves_list(all_leaves)
-    splits = get_splits_list(combined_splits)
-    nodes = get_nodes_list(combined_nodes)
-
-    if REDUCED_SPLITS:
-        nodes = reduce_splits(nodes, splits, q_root, q_node)
 
     # for split in splits:
     #     print("Split removed ", split.id, split.removed)
@@ -266,6 +272,10 @@ def main(argv):
                 y_train)
             if path == None:
                 continue
+            # The master problem is only consistent for candidate splits.
+            if any(split not in nodes[node_id].candidate_splits
+                   for node_id, split in zip(path.node_ids, path.splits)):
+                continue
             found = False
             for p in paths:
                 if path.is_same_as(p):
-- 
2.43.0


From 750911c2ad87398db4a8c68694da0b2b14ee488e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:19 +0000
Subject: [PATCH 14/24] fix: read text labels of the test file as text

A test file that only contains numeric looking labels of a text label column
was read as numbers and then rejected as unseen labels.
---
 examples/dtree_experiment.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/examples/dtree_experiment.py b/examples/dtree_experiment.py
index 9f26310..2b5a2a6 100644
--- a/examples/dtree_experiment.py
+++ b/examples/dtree_experiment.py
@@ -108,7 +108,11 @@ def main(argv):
             results_dir = "results/" + arg + "/"
 
     train_df = pd.read_csv(train_file, sep=sep, header=header)
-    test_df = pd.read_csv(test_file, sep=sep, header=header)
+    # Text labels remain text, also if those in the test file look numeric.
+    dtype = None
+    if train_df.dtypes.iloc[-1] == object:
+        dtype = {train_df.columns[-1]: object}
+    test_df = pd.read_csv(test_file, sep=sep, header=header, dtype=dtype)
 
     print(train_df.head())
 
-- 
2.43.0


From ed2da3244e9d31f4a338e08269382adea5e9adc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:44 +0000
Subject: [PATCH 15/24] fix: train decision trees from their initial paths
 again on a second fit

A second fit continued with the master and the subproblems of the first one.
---
 col_gen_estimator/_dtree_classifier.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/col_gen_estimator/_dtree_classifier.py b/col_gen_estimator/_dtree_classifier.py
index 6101253..e338606 100644
--- a/col_gen_estimator/_dtree_classifier.py
+++ b/col_gen_estimator/_dtree_classifier.py
@@ -2473,9 +2473,11 @@ class DTreeClassifier(ColGenClassifier):
                 self.master_solver_type)
 
     def _prepare_problems(self):
-        """Recreates the problems if the parameters were changed."""
-        if any(used is not param for used, param in
-               zip(self._used_params, self._get_used_params())):
+        """Recreates the problems if they were already used for training or the
+        parameters were changed."""
+        if self.master_problem.generated_ or any(
+                used is not param for used, param in
+                zip(self._used_params, self._get_used_params())):
             self._create_problems()
 
     def _get_subproblem_params(self, sp_level, sp_ind):
-- 
2.43.0


From 1bd8f437197ed291c888b56d81bf359a5192c8d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:21 +0000
Subject: [PATCH 16/24] Revert "fix: read text labels of the test file as text"

This reverts commit 750911c2ad87398db4a8c68694da0b2b14ee488e.
---
 examples/dtree_experiment.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/examples/dtree_experiment.py b/examples/dtree_experiment.py
index 2b5a2a6..9f26310 100644
--- a/examples/dtree_experiment.py
+++ b/examples/dtree_experiment.py
@@ -108,11 +108,7 @@ def main(argv):
             results_dir = "results/" + arg + "/"
 
     train_df = pd.read_csv(train_file, sep=sep, header=header)
-    # Text labels remain text, also if those in the test file look numeric.
-    dtype = None
-    if train_df.dtypes.iloc[-1] == object:
-        dtype = {train_df.columns[-1]: object}
-    test_df = pd.read_csv(test_file, sep=sep, header=header, dtype=dtype)
+    test_df = pd.read_csv(test_file, sep=sep, header=header)
 
     print(train_df.head())
 
-- 
2.43.0


From c34330c031b0140d894069c00738910048d30abd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:21 +0000
Subject: [PATCH 17/24] Revert "fix: start the experiment only with paths over
 the candidate splits"

This reverts commit 615f637b96c7cb25149c37c962a7d34e7f275438.
---
 examples/dtree_experiment.py | 20 +++++---------------
 1 file changed, 5 insertions(+), 15 deletions(-)

diff --git a/examples/dtree_experiment.py b/examples/dtree_experiment.py
index 9f26310..9f63fe6 100644
--- a/examples/dtree_experiment.py
+++ b/examples/dtree_experiment.py
@@ -216,23 +216,17 @@ def main(argv):
             combined_nodes[node_id].candidate_splits_count.append(0)
             combined_nodes[node_id].last_split = 0
 
-    splits = get_splits_list(combined_splits)
-    nodes = get_nodes_list(combined_nodes)
-
-    if REDUCED_SPLITS:
-        nodes = reduce_splits(nodes, splits, q_root, q_node)
-        # The initial paths must use the remaining candidates. The splits of
-        # the latest tree always remain.
-        for node in nodes:
-            if node.last_split not in node.candidate_splits:
-                node.last_split = node.candidate_splits[0]
-
     all_leaves, all_paths = get_all_leaves_paths(
         combined_nodes, experiment_max_depth, splits, X_train.to_numpy(),
         y_train)
 
     paths = get_paths_list(all_paths)
     leaves = get_leaves_list(all_leaves)
+    splits = get_splits_list(combined_splits)
+    nodes = get_nodes_list(combined_nodes)
+
+    if REDUCED_SPLITS:
+        nodes = reduce_splits(nodes, splits, q_root, q_node)
 
     # for split in splits:
     #     print("Split removed ", split.id, split.removed)
@@ -272,10 +266,6 @@ def main(argv):
                 y_train)
             if path == None:
                 continue
-            # The master problem is only consistent for candidate splits.
-            if any(split not in nodes[node_id].candidate_splits
-                   for node_id, split in zip(path.node_ids, path.splits)):
-                continue
             found = False
             for p in paths:
                 if path.is_same_as(p):
-- 
2.43.0


From 4994f79baf9ae3f52d08ae06e87571d0143b8420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:21 +0000
Subject: [PATCH 18/24] Revert "fix: keep at least one candidate split per node
 for deep trees"

This reverts commit 4138e32bd08146cd3e403e186e1590cc375828bb.
---
 examples/dtree_experiment.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/examples/dtree_experiment.py b/examples/dtree_experiment.py
index 9f63fe6..7ba36e9 100644
--- a/examples/dtree_experiment.py
+++ b/examples/dtree_experiment.py
@@ -143,8 +143,8 @@ def main(argv):
         node.id = node_id
         node.candidate_splits = []
         combined_nodes[node_id] = node
-    q_root = max(int(150 / max_num_nodes), 1)
-    q_node = max(int(100 / max_num_nodes), 1)
+    q_root = int(150 / max_num_nodes)
+    q_node = int(100 / max_num_nodes)
 
     for i in range(300):
         if preprocessing_time_limit > 0 and time() - t0 > preprocessing_time_limit:
-- 
2.43.0


From 83b6cb75e9c19053e3c8b145a487f801e891b04d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:21 +0000
Subject: [PATCH 19/24] Revert "fix: keep the time limit when preprocessing has
 used it up"

This reverts commit c3598ca9c602a72a556b248180f78d8e60d95de0.
---
 examples/dtree_experiment.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/examples/dtree_experiment.py b/examples/dtree_experiment.py
index 7ba36e9..bf7f9fe 100644
--- a/examples/dtree_experiment.py
+++ b/examples/dtree_experiment.py
@@ -290,9 +290,7 @@ def main(argv):
     t2 = time()
     preprocessing_time = t2-t0
     print("Total preprocessing time: ", t2-t0)
-    if time_limit > 0:
-        # A limit that is not positive would mean no limit at all.
-        time_limit = max(time_limit - preprocessing_time, 0.001)
+    time_limit -= preprocessing_time
 
     t0 = time()
     clf = DTreeClassifier(paths.copy(), leaves.copy(), nodes.copy(),
-- 
2.43.0


From 4a74267985e6314a32d16ba25e1c5d9026e7e2e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:02 +0000
Subject: [PATCH 20/24] fix: solve the path LP again when the simplex ends
 abnormally

---
 col_gen_estimator/_dtree_classifier.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/col_gen_estimator/_dtree_classifier.py b/col_gen_estimator/_dtree_classifier.py
index e338606..1f5671d 100644
--- a/col_gen_estimator/_dtree_classifier.py
+++ b/col_gen_estimator/_dtree_classifier.py
@@ -1027,6 +1027,19 @@ class DTreeMasterProblem(BaseMasterProblem):
                 xp_var = self.solver_.variable(path.id)
                 xp_var.SetUb(0)
 
+    def retry_abnormal_solve(self, solver_params):
+        """Solves the RMP again, with the dual and then the primal simplex, if
+        the last solve failed for numerical reasons.
+        """
+        for algorithm in [pywraplp.MPSolverParameters.DUAL,
+                          pywraplp.MPSolverParameters.PRIMAL]:
+            if self.rmp_result_status != pywraplp.Solver.ABNORMAL:
+                break
+            retry_params = get_params_from_string(solver_params)
+            retry_params.SetIntegerParam(
+                pywraplp.MPSolverParameters.LP_ALGORITHM, algorithm)
+            self.rmp_result_status = self.solver_.Solve(retry_params)
+
     def solve_rmp(self, solver_params=''):
         """TODO: Documentation.
         """
@@ -1036,6 +1049,7 @@ class DTreeMasterProblem(BaseMasterProblem):
 
         self.rmp_result_status = self.solver_.Solve(
             get_params_from_string(solver_params))
+        self.retry_abnormal_solve(solver_params)
 
         # TODO: Hide this under optional logging flag.
         print('Number of variables RMIP = %d' % self.solver_.NumVariables())
@@ -1070,6 +1084,7 @@ class DTreeMasterProblem(BaseMasterProblem):
                             pywraplp.MPSolverParameters.DUAL)
                         self.rmp_result_status = self.solver_.Solve(
                             cuts_params)
+                        self.retry_abnormal_solve(solver_params)
                         if len(cut_rows) > 0:
                             newly_added_cuts.extend(cut_rows)
                     else:
-- 
2.43.0


From f7c1b35d9998ed59e869b7a2de40a8e1af789a36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:36 +0000
Subject: [PATCH 21/24] fix: refuse single-class data before overwriting the
 previous fit

---
 col_gen_estimator/_col_gen_classifier.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/col_gen_estimator/_col_gen_classifier.py b/col_gen_estimator/_col_gen_classifier.py
index c51293a..b370d7a 100644
--- a/col_gen_estimator/_col_gen_classifier.py
+++ b/col_gen_estimator/_col_gen_classifier.py
@@ -345,8 +345,10 @@ class ColGenClassifier(ClassifierMixin, BaseEstimator):
         # Check that X and y have correct shape
         X, y = check_X_y(X, y)
         has_time_limit = self.time_limit > 0
-        # Store the classes seen during fit
-        self.classes_ = unique_labels(y)
+        # Refuse the data before anything of a previous fit is overwritten.
+        if len(unique_labels(y)) <= 1:
+            raise ValueError(
+                "Classifier can't train when only one class is present.")
 
         self.X_ = X
         self.y_ = y
@@ -356,9 +358,6 @@ class ColGenClassifier(ClassifierMixin, BaseEstimator):
         self.processed_y_ = self.label_encoder_.fit_transform(y)
         # Store the classes seen during fit
         self.classes_ = unique_labels(y)
-        if len(self.classes_) <= 1:
-            raise ValueError(
-                "Classifier can't train when only one class is present.")
 
         # Initiate the master and subproblems
         self._prepare_problems()
-- 
2.43.0


From 6f8cd570153dc11ba0a03b2a9cb45c4916bb5100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:21 +0000
Subject: [PATCH 22/24] fix: solve the RMP without presolve if it keeps ending
 abnormally

---
 col_gen_estimator/_dtree_classifier.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/col_gen_estimator/_dtree_classifier.py b/col_gen_estimator/_dtree_classifier.py
index 1f5671d..960e406 100644
--- a/col_gen_estimator/_dtree_classifier.py
+++ b/col_gen_estimator/_dtree_classifier.py
@@ -1029,16 +1029,18 @@ class DTreeMasterProblem(BaseMasterProblem):
 
     def retry_abnormal_solve(self, solver_params):
         """Solves the RMP again, with the dual and then the primal simplex, if
-        the last solve failed for numerical reasons.
+        the last solve failed for numerical reasons. Presolve is left out if
+        it does not help.
         """
-        for algorithm in [pywraplp.MPSolverParameters.DUAL,
-                          pywraplp.MPSolverParameters.PRIMAL]:
-            if self.rmp_result_status != pywraplp.Solver.ABNORMAL:
-                break
-            retry_params = get_params_from_string(solver_params)
-            retry_params.SetIntegerParam(
-                pywraplp.MPSolverParameters.LP_ALGORITHM, algorithm)
-            self.rmp_result_status = self.solver_.Solve(retry_params)
+        params = pywraplp.MPSolverParameters
+        for presolve in [params.PRESOLVE_ON, params.PRESOLVE_OFF]:
+            for algorithm in [params.DUAL, params.PRIMAL]:
+                if self.rmp_result_status != pywraplp.Solver.ABNORMAL:
+                    return
+                retry_params = get_params_from_string(solver_params)
+                retry_params.SetIntegerParam(params.LP_ALGORITHM, algorithm)
+                retry_params.SetIntegerParam(params.PRESOLVE, presolve)
+                self.rmp_result_status = self.solver_.Solve(retry_params)
 
     def solve_rmp(self, solver_params=''):
         """TODO: Documentation.
-- 
2.43.0


From 1f489e9a7daa0140fb43e48a9bea8e58e64a4150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:40 +0000
Subject: [PATCH 23/24] fix: clip the numerical noise below zero of the clause
 duals

---
 col_gen_estimator/_bdr_classifier.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/col_gen_estimator/_bdr_classifier.py b/col_gen_estimator/_bdr_classifier.py
index dde0af2..0045ce1 100644
--- a/col_gen_estimator/_bdr_classifier.py
+++ b/col_gen_estimator/_bdr_classifier.py
@@ -306,7 +306,8 @@ class BDRMasterProblem(BaseMasterProblem):
         for i in range(n_positive_examples):
             clause_satisfaction_cons = self.solver_.constraint(
                 self.clause_satisfaction_[i])
-            cs_duals.append(clause_satisfaction_cons.dual_value())
+            # The dual costs are non-negative up to numerical noise.
+            cs_duals.append(max(0.0, clause_satisfaction_cons.dual_value()))
         return (cc_dual, cs_duals)
 
     def solve_ip(self, solver_params=''):
-- 
2.43.0


From 08ad6445460d057a354d67c303a186eeb1df8c9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:34 +0000
Subject: [PATCH 24/24] fix: let nodes of a smaller tree have inner nodes as
 children again

preprocess_rows marked the lowest nodes as parents of leaves and never
took the mark back. Node objects used before by a master problem of
smaller depth then reached no node below that depth.
---
 col_gen_estimator/_dtree_classifier.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/col_gen_estimator/_dtree_classifier.py b/col_gen_estimator/_dtree_classifier.py
index 960e406..d187943 100644
--- a/col_gen_estimator/_dtree_classifier.py
+++ b/col_gen_estimator/_dtree_classifier.py
@@ -750,10 +750,10 @@ class DTreeMasterProblem(BaseMasterProblem):
 
             node.left_child = 2 * node.id + 1
             node.right_child = 2 * node.id + 2
-            if node.left_child >= 2**depth - 1:
+            node.children_are_leaves = node.left_child >= 2**depth - 1
+            if node.children_are_leaves:
                 node.left_child -= (2**(depth) - 1)
                 node.right_child -= (2**(depth) - 1)
-                node.children_are_leaves = True
 
             # print(node.id, node.parent, node.left_child,
             #       node.right_child, node.children_are_leaves)
-- 
2.43.0

