From 9e3d8b1bb0a7518346b349a25f793666e8dd80d0 Mon Sep 17 00:00:00 2001
From: verif <v@example.com>
Date: Thu, 19 Nov 2026 19:10:34 +0000
Subject: [PATCH 1/8] fix: report the number of performed iterations

performed_iter_ is documented as the total number of iterations performed in
the column generation loop, but it was never updated and always stayed 0.
---
 col_gen_estimator/_col_gen_classifier.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/col_gen_estimator/_col_gen_classifier.py b/col_gen_estimator/_col_gen_classifier.py
index 07b27fe..ebb18fd 100644
--- a/col_gen_estimator/_col_gen_classifier.py
+++ b/col_gen_estimator/_col_gen_classifier.py
@@ -380,6 +380,7 @@ class ColGenClassifier(ClassifierMixin, BaseEstimator):
             if self.max_iterations > 0 and self.iter_ >= self.max_iterations:
                 break
             self.iter_ += 1
+            self.performed_iter_ = self.iter_
             print("Iteration number: ", self.iter_)
             print("Time elapsed: ", time() - t_start)
             master_time_start = time()
-- 
2.43.0


From 3409130ac2b9905486ff246c125f14184b67a7bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:48 +0000
Subject: [PATCH 2/8] fix: the older path pricer counts merged rows with their
 weight

---
 col_gen_estimator/_dtree_classifier.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/col_gen_estimator/_dtree_classifier.py b/col_gen_estimator/_dtree_classifier.py
index 849dc8a..90f7ad3 100644
--- a/col_gen_estimator/_dtree_classifier.py
+++ b/col_gen_estimator/_dtree_classifier.py
@@ -2109,7 +2109,7 @@ class DTreeSubProblemOld(BaseSubproblem):
             y_var = self.solver_.BoolVar('y_'+str(i))
             row_dual = row_duals[i]
             if self.y_[i] == self.target_:
-                objective.SetCoefficient(y_var, 1-row_dual)
+                objective.SetCoefficient(y_var, obj_coeff-row_dual)
             else:
                 objective.SetCoefficient(y_var, -row_dual)
             self.y_vars_[i] = y_var.index()
@@ -2208,12 +2208,12 @@ class DTreeSubProblemOld(BaseSubproblem):
             if self.data_rows != None:
                 if self.data_rows[i].removed_from_sp:
                     continue
-                # obj_coeff = self.data_rows[i].weight
+                obj_coeff = self.data_rows[i].weight
 
             y_var = self.solver_.variable(self.y_vars_[i])
             row_dual = row_duals[i]
             if self.y_[i] == self.target_:
-                objective.SetCoefficient(y_var, 1-row_dual)
+                objective.SetCoefficient(y_var, obj_coeff-row_dual)
             else:
                 objective.SetCoefficient(y_var, -row_dual)
 
@@ -2334,10 +2334,10 @@ class DTreeSubProblemOld(BaseSubproblem):
             if self.data_rows != None:
                 if self.data_rows[i].removed_from_sp:
                     continue
-                # obj_coeff = self.data_rows[i].weight
+                obj_coeff = self.data_rows[i].weight
             y_var = self.solver_.variable(self.y_vars_[i])
             if self.y_[i] == self.target_:
-                path.cost += 1 * y_var.solution_value()
+                path.cost += obj_coeff * y_var.solution_value()
         return [path]
 
     def update_subproblem(self, X, y, dual_costs):
-- 
2.43.0


From 4b663e14fe4981dcd42b11da717c4d9a0a6e58d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:19 +0000
Subject: [PATCH 3/8] fix: the MIP path pricer always selects a target

---
 col_gen_estimator/_dtree_classifier.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/col_gen_estimator/_dtree_classifier.py b/col_gen_estimator/_dtree_classifier.py
index 90f7ad3..35c6797 100644
--- a/col_gen_estimator/_dtree_classifier.py
+++ b/col_gen_estimator/_dtree_classifier.py
@@ -1298,7 +1298,7 @@ class DTreeSubProblem(BaseSubproblem):
         # only one class selected
         # Binary variables indicating that the class is selected.
         self.w_vars_ = [None]*len(self.targets_)
-        single_target_cons = self.solver_.Constraint(0, 1, 'single_target')
+        single_target_cons = self.solver_.Constraint(1, 1, 'single_target')
         for i in range(len(self.targets_)):
             target = self.targets_[i]
             w_var = self.solver_.BoolVar('w_' + str(target))
-- 
2.43.0


From fd01acd9e5ffa1827f9d18792b7b3b17a0b140f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:02 +0000
Subject: [PATCH 4/8] fix: paths of intermediate solutions get their true cost

---
 col_gen_estimator/_dtree_classifier.py | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/col_gen_estimator/_dtree_classifier.py b/col_gen_estimator/_dtree_classifier.py
index 35c6797..b574431 100644
--- a/col_gen_estimator/_dtree_classifier.py
+++ b/col_gen_estimator/_dtree_classifier.py
@@ -1915,8 +1915,30 @@ class DTreeSubProblemSat(BaseSubproblem):
         print(self.leaf_id_, " Path generation objective: ",
               path_generator.original_objective)
         paths = path_generator.paths
+        # The intermediate solutions need not count all the rows correctly
+        # classified by the path.
+        for path in paths:
+            path.cost = self.compute_path_cost(path)
         return paths
 
+    def compute_path_cost(self, path):
+        """Returns the (weighted) number of rows correctly classified by the
+        given path.
+        """
+        cost = 0
+        for row in range(self.X_.shape[0]):
+            weight = 1
+            if self.data_rows is not None:
+                if self.data_rows[row].removed_from_sp:
+                    continue
+                weight = self.data_rows[row].weight
+            if self.y_[row] != path.target:
+                continue
+            if row_satisfies_path(self.X_[row], self.leaf_, self.splits_,
+                                  path):
+                cost += weight
+        return cost
+
 
 class DTreeSubProblemHeuristic(BaseSubproblem):
     """TODO: Documentation."""
-- 
2.43.0


From 20e4bb0fefcd92acf2eb063e41d990cf0062c6a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:12 +0000
Subject: [PATCH 5/8] fix: the path heuristic gives unused leaves a valid
 target

---
 col_gen_estimator/_dtree_classifier.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/col_gen_estimator/_dtree_classifier.py b/col_gen_estimator/_dtree_classifier.py
index b574431..0c7840e 100644
--- a/col_gen_estimator/_dtree_classifier.py
+++ b/col_gen_estimator/_dtree_classifier.py
@@ -1993,7 +1993,7 @@ class DTreeSubProblemHeuristic(BaseSubproblem):
             n_rows = X.shape[0]
 
             possible_targets = {}
-            best_target = -1
+            best_target = self.targets_[0]
             best_target_count = 0
             row_satisfies_path_array = [False]*n_rows
 
-- 
2.43.0


From 6b1b3df4b83fc107fef2f5989bf27c2749db1326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:05 +0000
Subject: [PATCH 6/8] fix: rule classifiers use their current parameters and
 data in every fit

---
 col_gen_estimator/_bdr_classifier.py     | 25 ++++++++++++++++++++----
 col_gen_estimator/_col_gen_classifier.py | 10 ++++++++++
 2 files changed, 31 insertions(+), 4 deletions(-)

diff --git a/col_gen_estimator/_bdr_classifier.py b/col_gen_estimator/_bdr_classifier.py
index d5ea232..3cda8b7 100644
--- a/col_gen_estimator/_bdr_classifier.py
+++ b/col_gen_estimator/_bdr_classifier.py
@@ -662,13 +662,21 @@ class BooleanDecisionRuleClassifier(ColGenClassifier):
             rmp_solver_params=rmp_solver_params,
             master_ip_solver_params=master_ip_solver_params,
             subproblem_params=subproblem_params)
-        # Not used after this but we have to store them for sklearn
-        # compatibility.
+        # Used for creating the problems again for each fit.
         self.C = C
         self.p = p
         self.rmp_solver = rmp_solver
         self.subproblem_solver = subproblem_solver
 
+    def reset_problems(self):
+        """Creates the master problem and the subproblem with the current
+        parameters.
+        """
+        self.master_problem = BDRMasterProblem(
+            self.C, self.p, self.rmp_solver)
+        self.subproblems = [[BDRSubProblem(
+            self.C, self.subproblem_solver)]]
+
     def _more_tags(self):
         return {'X_types': ['categorical'],
                 'non_deterministic': True,
@@ -836,9 +844,18 @@ class BooleanDecisionRuleClassifierWithHeuristic(
             rmp_solver_params=rmp_solver_params,
             master_ip_solver_params=master_ip_solver_params,
             subproblem_params=subproblem_params)
-        # Not used after this but we have to store them for sklearn
-        # compatibility.
+        # Used for creating the problems again for each fit.
         self.C = C
         self.p = p
         self.rmp_solver = rmp_solver
         self.subproblem_solver = subproblem_solver
+
+    def reset_problems(self):
+        """Creates the master problem and the subproblems with the current
+        parameters.
+        """
+        self.master_problem = BDRMasterProblem(
+            self.C, self.p, self.rmp_solver)
+        self.subproblems = [[BDRHeuristic(K=1)],
+                            [BDRSubProblem(
+                                self.C, self.subproblem_solver)]]
diff --git a/col_gen_estimator/_col_gen_classifier.py b/col_gen_estimator/_col_gen_classifier.py
index ebb18fd..46f35da 100644
--- a/col_gen_estimator/_col_gen_classifier.py
+++ b/col_gen_estimator/_col_gen_classifier.py
@@ -326,6 +326,15 @@ class ColGenClassifier(ClassifierMixin, BaseEstimator):
         for level in range(len(subproblems)):
             assert len(subproblems[level]) == len(subproblem_params[level])
 
+    def reset_problems(self):
+        """ (Optional) Called by :meth:`fit` before generating the master
+        problem. The estimators which create the master problem and the
+        subproblems from their parameters should create them again here, so
+        that changed parameters take effect and nothing is kept from an
+        earlier fit.
+        """
+        return
+
     def fit(self, X, y):
         """Runs the column generation loop.
 
@@ -361,6 +370,7 @@ class ColGenClassifier(ClassifierMixin, BaseEstimator):
                 "Classifier can't train when only one class is present.")
 
         # Initiate the master and subproblems
+        self.reset_problems()
         self.master_problem.generate_mp(X, self.processed_y_)
 
         self.performed_iter_ = 0
-- 
2.43.0


From 18012f4146f4f27237d09fd19cd890a14f4d0fe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:16 +0000
Subject: [PATCH 7/8] fix: the tree master problem keeps its own initial paths

---
 col_gen_estimator/_dtree_classifier.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/col_gen_estimator/_dtree_classifier.py b/col_gen_estimator/_dtree_classifier.py
index 0c7840e..8a11c75 100644
--- a/col_gen_estimator/_dtree_classifier.py
+++ b/col_gen_estimator/_dtree_classifier.py
@@ -121,6 +121,7 @@ import multiprocessing as mp
 from ortools.linear_solver import pywraplp
 from ortools.linear_solver import linear_solver_pb2
 from ortools.sat.python import cp_model
+from copy import copy
 from math import floor, ceil
 from sklearn.utils.validation import check_array, check_is_fitted
 from ._col_gen_classifier import BaseMasterProblem
@@ -546,7 +547,8 @@ class DTreeMasterProblem(BaseMasterProblem):
         self.cut_gen_model_ = cp_model.CpModel()
         self.cut_obj_scale = 1000000
         self.generated_ = False
-        self.paths_ = initial_paths
+        # Own copies, the callers list and paths are never modified.
+        self.paths_ = [copy(path) for path in initial_paths]
         self.generated_paths_ = set()
         self.leaves_ = leaves
         self.nodes_ = nodes
-- 
2.43.0


From c127ef407076bc3f056f5323f0b385511479cf00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:43 +0000
Subject: [PATCH 8/8] fix: tree problems sharing splits and rows do not share
 cuts and paths

---
 col_gen_estimator/_dtree_classifier.py | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/col_gen_estimator/_dtree_classifier.py b/col_gen_estimator/_dtree_classifier.py
index 8a11c75..f3f99f4 100644
--- a/col_gen_estimator/_dtree_classifier.py
+++ b/col_gen_estimator/_dtree_classifier.py
@@ -394,6 +394,23 @@ def get_satisfied_rows(path, leaf, splits):
     return satisfied_rows
 
 
+def copy_splits(splits):
+    """Returns copies of the splits without any cuts, for a problem which
+    stores its own cuts in them.
+
+    Parameters
+    ----------
+    splits: (list(Split)) splits to copy.
+    """
+    own_splits = []
+    for split in splits:
+        own_split = copy(split)
+        own_split.left_cuts = set()
+        own_split.right_cuts = set()
+        own_splits.append(own_split)
+    return own_splits
+
+
 def get_satisfied_cuts(path, leaf, splits):
     """Returns the set of satisfied cut (beta) rows for the given path.
     We use set intersection to compute this faster. This requires that we store
@@ -552,7 +569,7 @@ class DTreeMasterProblem(BaseMasterProblem):
         self.generated_paths_ = set()
         self.leaves_ = leaves
         self.nodes_ = nodes
-        self.splits_ = splits
+        self.splits_ = copy_splits(splits)
         self.data_rows = data_rows
         self.num_cuts_round = num_cuts_round
         self.generate_cuts = generate_cuts
@@ -727,7 +744,11 @@ class DTreeMasterProblem(BaseMasterProblem):
             self.path_solution_values[xp_var_id] = xp_var.solution_value()
 
     def compute_satisfied_paths(self):
+        # The reachable paths belong to this problem, the other information of
+        # the rows is only read.
+        self.data_rows = [copy(data_row) for data_row in self.data_rows]
         for r, data_row in enumerate(self.data_rows):
+            data_row.reachable_paths = set()
             for path in self.paths_:
                 if row_satisfies_path(self.X_[r], self.leaves_[path.leaf_id],
                                       self.splits_, path):
@@ -1950,7 +1971,7 @@ class DTreeSubProblemHeuristic(BaseSubproblem):
         super().__init__()
         self.leaves_ = leaves
         self.nodes_ = nodes
-        self.splits_ = splits
+        self.splits_ = copy_splits(splits)
         self.targets_ = targets
         self.tree_depth_ = depth
         self.data_rows = data_rows
-- 
2.43.0

