"""Source of /verif/properties.jsonl (run it to regenerate the file)."""
import json, os
CG = "col_gen_estimator/_col_gen_classifier.py"
BD = "col_gen_estimator/_bdr_classifier.py"
DT = "col_gen_estimator/_dtree_classifier.py"
PT = "col_gen_estimator/_parameter_tuner.py"
EX = "examples/dtree_experiment.py"
P = []


def prop(id, title, statement, over, text, why, files, mech, state=(), obs=(), hook=None):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
            "mechanism": [{"name": a, "where": b} for a, b in mech],
            "observe_at": list(obs), "hook_needed": hook}})


prop("C01", "Pricing escalates level by level and the master is re-solved after progress",
     "In every iteration of a fit the restricted master is solved exactly once, every subproblem is updated with exactly the duals that solve returned, and the subproblems are then priced in level order and in list order within a level: a later subproblem is asked in the same iteration only while no earlier one got a column accepted. Every column a subproblem returns is offered to the master exactly once, in the returned order, and acceptance of one of them does not stop the rest of that batch from being offered. The per-subproblem column counts the classifier reports equal the number of columns the master accepted from that subproblem during this fit.",
     ["histories", "configurations"],
     "Every shape of subproblem levels, every sequence of answers of the subproblems (batches of columns) and of the master (accept or refuse each column, improve or not).",
     "The tests run two tiny fits with one or two subproblems; the order of calls, refused columns, several subproblems per level and escalation back to the cheap level after an expensive one are never driven.",
     [CG], [("nested level / subproblem loop of fit", CG + ":ColGenClassifier.fit")],
     [("num_col_added_sp_", "accepted columns per subproblem", CG)],
     ["calls received by user-supplied master and subproblem objects", "num_col_added_sp_"])

prop("C02", "A fit stops for the right reason and reports it truthfully",
     "A fit stops only because a complete pricing round over all subproblems gained no column, because the positive iteration limit was reached, or because the positive time limit had passed when a subproblem was about to be priced; negative limits mean no limit. The optimality flag is true exactly when the last round asked every subproblem and gained no column, the time-limit flag is true exactly when pricing was cut short by the elapsed time, no subproblem is priced after the time limit has passed and the iteration limit is never exceeded. The reported number of performed iterations, of improving iterations, and the reported time spent per component equal what actually happened during this fit.",
     ["histories", "configurations", "schedules"],
     "Every sequence of component answers combined with every placement of the elapsed-time jump inside one component call, every iteration limit and every time limit.",
     "The tests never set a time limit, only check an iteration limit that is not reached, and cannot place the passing of time inside a chosen component call.",
     [CG], [("while loop, limits and flags of fit", CG + ":ColGenClassifier.fit")],
     [("mp_optimal_", "no subproblem gained a column", CG), ("time_limit_reached_", "pricing cut short", CG), ("performed_iter_", "iterations performed", CG), ("time_spent_sp_", "time per subproblem", CG)],
     ["mp_optimal_", "time_limit_reached_", "iter_", "performed_iter_", "num_improving_iter_", "time_spent_master_", "time_spent_sp_", "time_add_col_"],
     None)

prop("C03", "Training labels are encoded canonically and training is finalised exactly once",
     "For labels of any sortable type with at least two classes, the master and every subproblem see the same data matrix and the labels replaced by their 0-based rank among the sorted distinct labels, and the distinct labels are reported in sorted order; data with a single class or mismatched lengths is rejected with an error before the master or any subproblem is asked for anything. The integer master is solved exactly once, after all pricing, if the problem is declared integer and never otherwise. If that integer solve reports failure the fit raises and the estimator is not marked as fitted.",
     ["inputs", "configurations"],
     "Every label vector over several label alphabets (ints, negative ints, floats, strings, booleans) of two to four samples, with integer finalisation on or off and succeeding or failing.",
     "The tests only use labels 0/1 in int8 and one single-class case.",
     [CG], [("label encoding and finalisation in fit", CG + ":ColGenClassifier.fit")],
     [("classes_", "distinct labels", CG), ("processed_y_", "encoded labels", CG)],
     ["arguments received by master and subproblems", "classes_", "is_fitted_"])

prop("C04", "The rule-selection master is the documented LP after every history of columns",
     "For every binary data set, complexity budget, false-negative weight and history of added clauses and re-solves, the master's LP is exactly: minimise weight times uncovered positives plus the number of negatives satisfying each chosen clause, subject to every positive being covered or penalised and the total complexity (clause length plus one) of chosen clauses staying within the budget, over the initial empty clause and the added clauses. The reported objective is its optimum and the returned duals (complexity dual as a non-negative value, one non-negative dual per positive sample in data order) certify it. Adding an empty clause is refused and leaves the LP unchanged.",
     ["histories", "inputs", "configurations"],
     "All small binary data sets and label vectors, budgets, weights, and all histories of add-column / re-solve operations up to a depth.",
     "The tests check coefficients for one 4x4 data set and one dual vector; interleavings of adding columns and re-solving and other budgets or weights are not covered.",
     [BD], [("generate_mp / add_column / solve_rmp", BD + ":BDRMasterProblem"), ("get_objective_coeff_mp, get_clause_coeffs", BD + ":BDRMasterProblem")],
     [("clause_dict_", "clauses in the master", BD)],
     ["solve_rmp return value", "solver_.Objective().Value()", "add_column return value"])

prop("C05", "The final rule is the cheapest clause set within the complexity budget",
     "The explanation produced by the integer master is always a set of clauses that were added (or the initial empty clause) whose total complexity, clause length plus one each, is within the budget. Its cost, the false-negative weight per uncovered positive plus one for every (negative sample, chosen clause satisfied by it) pair, is the minimum over all subsets of the available clauses that respect the budget.",
     ["histories", "inputs", "configurations"],
     "All small data sets, budgets and weights and all sets and orders of added clauses up to a bound, with the LP solved or not before.",
     "One test adds a single clause and checks the explanation; optimality and budget are never compared with the alternatives.",
     [BD], [("solve_ip", BD + ":BDRMasterProblem.solve_ip")],
     [("explanation", "selected clauses", BD)], ["explanation after solve_ip"])

prop("C06", "Exact rule pricing finds the best clause or proves there is none",
     "For every binary data set and every sequence of non-negative dual vectors presented to the same exact clause pricer, each call returns no clause exactly when no clause of length at most the bound has reduced cost (complexity dual times length-plus-one, minus duals of satisfied positives, plus satisfied negatives) below -1e-6, and otherwise returns exactly one clause within the length bound that attains the minimum reduced cost. The answer depends only on the current duals, never on earlier calls.",
     ["inputs", "histories"],
     "All small data sets, length bounds and all sequences of one to three dual vectors from a small alphabet on one pricer object.",
     "The tests price one data set with two dual vectors.",
     [BD], [("create_submip / update_objective / generate_columns", BD + ":BDRSubProblem")],
     [("z_vars_, delta_vars_", "MIP variables reused between calls", BD)], ["generate_columns return value"])

prop("C07", "Heuristic rule pricing returns exactly the improving short clauses",
     "For every binary data set and dual vector the enumeration pricer returns exactly the set of clauses of length one up to its length bound whose reduced cost is below -1e-6, each exactly once as a list of increasing feature indices. It returns nothing else and keeps no memory between calls.",
     ["inputs", "histories"],
     "All small data sets, length bounds 1 to 3 and dual vectors from a small alphabet, in sequences on one object.",
     "Two dual vectors on one data set with length bound 1 are tested; the length-2 test does not even run.",
     [BD], [("generate_columns", BD + ":BDRHeuristic.generate_columns")], (), ["generate_columns return value"])

prop("C08", "Rule learning run to optimality reaches the true LP bound and a consistent rule",
     "When a rule classifier is fitted without limits on any binary two-class data set it terminates, declares optimality, and its final LP value equals the optimum of the LP over all clauses of length at most the complexity budget, with or without the heuristic pricer. Its final rule respects the budget, costs no less than that bound and no more than the best rule the generated clauses allow (in particular no more than predicting all-negative or, if affordable, all-positive). Its training predictions are exactly what that rule says.",
     ["inputs", "configurations"],
     "All binary data sets up to a size (as multisets of rows with every labelling), budgets and weights, both classifier variants.",
     "Two fits on one data set are tested.",
     [BD, CG], [("BooleanDecisionRuleClassifier / ...WithHeuristic", BD), ("fit loop", CG)],
     [("mp_optimal_", "optimality flag", CG)], ["mp_optimal_", "final LP objective", "explanation", "predict"])

prop("C09", "Rule predictions are the OR of ANDs, row by row, in the original labels",
     "For every fitted rule and every binary row, the prediction is the larger of the two training labels if the row has a one in every feature of at least one chosen clause, and the smaller label otherwise; the empty clause is satisfied by every row and an empty explanation by none. Each row's prediction is independent of the other rows in the batch and of their order, has the type of the training labels, and predicting changes nothing about the fitted estimator; predicting before fitting raises.",
     ["inputs", "histories"],
     "All explanations over up to four features (sets of up to two or three clauses), all binary rows, several label alphabets, all batch orders.",
     "Only one prediction on the training data is tested.",
     [BD], [("predict, satisfies_clause", BD + ":BooleanDecisionRuleClassifier.predict")], (), ["predict return value"])

prop("C10", "Leaves and paths follow one consistent complete-tree numbering",
     "For every depth and leaf number, the nodes recorded as left and right ancestors of that leaf are exactly the internal nodes met when descending from node 0 with children 2i+1 (left) and 2i+2 (right) to the leaf counted from left to right, each on the side the descent takes, and a path set to that leaf lists exactly these nodes. Re-using the same leaf or path object for another leaf or depth leaves nothing of the previous one. Hence for every assignment of branch outcomes to nodes exactly one leaf is reached.",
     ["inputs", "histories"],
     "All depths up to a bound, all leaves, all pairs of consecutive uses of one object.",
     "Only the four leaves of depth 2 are tested.",
     [DT], [("Leaf.create_leaf, Path.set_leaf", DT)], (), ["left_nodes", "right_nodes", "node_ids"])

prop("C11", "All ways of routing a row down a path agree, and a tree partitions the rows",
     "A row follows a path exactly when at every node of the path its feature value is at most the split threshold if the leaf lies to the left of that node, and greater otherwise (a value equal to the threshold goes left). Testing one row directly, intersecting the per-split row sets and intersecting the per-split cut sets all give this same answer for every path, in any listing order of the nodes and without changing the sets. For any assignment of splits to the nodes of a tree every row follows exactly one of the leaf paths.",
     ["inputs"],
     "All data sets over small value alphabets that hit the thresholds, all split tables, all paths for all leaves up to depth 3, all listing orders.",
     "No test routes rows through paths directly.",
     [DT], [("row_satisfies_path, get_satisfied_rows, get_satisfied_cuts", DT)],
     [("left_rows/right_rows/left_cuts/right_cuts", "per-split membership", DT)], ["function results"])

prop("C12", "The tree master is the documented LP after every history of columns",
     "For every small tree problem and history of initial paths, added paths and re-solves, the tree master's LP maximises the total cost of chosen paths subject to one path per leaf, at most one chosen path per row (rows that can reach at most two leaves may be left out because they are implied) and, for every leaf, node and candidate split, agreement with a shared split-selection variable. The reported objective is the optimum of that LP over the paths present, the returned duals certify it (dual feasible for every present path and split variable, and summing to the objective), and the improvement report compares consecutive optima. Adding paths one by one gives the same optimum as supplying them up front.",
     ["histories", "inputs"],
     "All small data sets and candidate-split layouts of depth 1 and 2 (some depth 3), with all small sets and orders of added paths interleaved with re-solves.",
     "Two tests check the duals of one instance.",
     [DT], [("generate_mp / add_column / solve_rmp", DT + ":DTreeMasterProblem")],
     [("leaf_cons_, row_cons_, ns_constraints_", "LP rows", DT)], ["solve_rmp return value", "rmp_objective_", "rmp_objective_improved"])

prop("C13", "Cutting planes only remove fractional solutions and are priced consistently",
     "Every row or generated cut the tree master adds is satisfied by every valid tree over the candidate splits, so cuts never change the best tree obtainable from the paths present; generated cut rows are branch patterns some data point could have (consistent across thresholds of the same feature). No pattern is cut twice. Row constraints postponed as cuts are separated at most ten per round, each at most once, and once enough rounds have run the LP optimum equals that of the LP with all row constraints. The LP value and duals returned after cutting, including one dual per cut and the list of newly added cut patterns, certify the LP with exactly the rows and cuts added so far, also for paths added afterwards.",
     ["histories", "inputs", "schedules"],
     "Small tree problems with fractional master solutions (with rows duplicated so that more than ten are violated), all solver answers of the cut search, and histories that add paths and re-solve across several cut rounds.",
     "Cuts are only generated every tenth iteration and no test reaches a tenth iteration.",
     [DT], [("add_beta_cuts, add_cuts, CutGenerator, create_cut_gen_model", DT + ":DTreeMasterProblem")],
     [("added_row", "row constraints present", DT), ("cut_cons_", "generated cuts", DT)], ["solve_rmp return value", "total_cuts_added", "rmp_objective_"])

prop("C14", "Exact path pricing finds a best improving path or proves there is none",
     "For every leaf, data set, duals and added cut patterns, each exact path pricer (the CP-SAT one, the MIP one, and the per-target one for its target) returns no path when no path for that leaf over the candidate splits has reduced cost above 1e-6, and otherwise returns improving paths including one of maximum reduced cost (up to the 1e-5 resolution to which the CP-SAT objective is scaled, or the gap at which the MIP solver stops). Every returned path lists exactly the nodes of its leaf, one candidate split each, a valid target, and a cost equal to the (weighted) number of training rows that follow it and have that target, whatever intermediate solutions the solver reports on the way. The answer depends only on the current duals and the cuts added so far, not on earlier calls.",
     ["inputs", "histories", "schedules"],
     "Small data sets, candidate layouts of depth 1 to 3, two and three classes, all dual vectors with a bounded number of non-zero entries, sequences of updates with growing cut lists on one object, and every possible intermediate solution of the CP-SAT search.",
     "The tests price two leaves of one instance with one dual vector, only with the MIP pricer; solver callbacks, weights, cuts and re-use are untested.",
     [DT], [("DTreeSubProblem, DTreeSubProblemSat, DTreeSubProblemOld, PathGenerator", DT)],
     [("yc_vars_, cut_rows_starting_index", "cuts known to the pricer", DT)], ["generate_columns return value"])

prop("C15", "Heuristic path pricing only proposes genuine improving paths",
     "Whatever the random draws, every path the random pricer returns belongs to its leaf, uses distinct candidate splits, has a valid target that is a most frequent (weighted) class among the rows following it, a cost equal to that count, and a reduced cost above 1e-6 with respect to the duals passed, including the duals of all cuts; no path is returned twice in a batch. Every drawn path with reduced cost above 1e-6 is returned. The counters of successful and failed draws add up to the number of draws.",
     ["schedules", "inputs", "histories"],
     "All random choice sequences up to a bound (and draws that cover every path), small data sets, weights and removed rows, duals with few non-zero entries, growing cut lists.",
     "One seed on one instance is tested.",
     [DT], [("generate_columns, get_reduced_cost, update_subproblem", DT + ":DTreeSubProblemHeuristic")],
     [("num_cuts", "cuts seen", DT)], ["generate_columns return value", "success_rounds", "failed_rounds"])

prop("C16", "Dropping and merging rows never changes what is learned",
     "Preprocessing removes a row from the master only if it can reach at most two leaves or is indistinguishable by the applicable candidate splits from a row that is kept or itself removed for such a reason, and removes it from pricing only if merged into such a row with the same label whose weight then counts it; total weight per class is preserved. With the preprocessed rows the master LP optimum, the reduced cost and cost of every path and the best tree are the same as with all rows. The reachable leaves and nodes, parent and child numbers computed for a row and node are exactly those some choice of candidate splits produces.",
     ["inputs", "configurations"],
     "All small data sets (with duplicated and conflicting rows) and candidate layouts of depth 1 to 3, with and without aggressive merging, for the master's own preprocessing and the experiment script's.",
     "No test calls any preprocessing.",
     [DT, EX], [("preprocess_rows", DT + ":DTreeMasterProblem.preprocess_rows"), ("preprocess, preprocess_nodes, add_rows_to_splits", EX)],
     [("removed_from_master, removed_from_sp, weight, reachable_*", "row flags", DT)], ["Row attributes", "Node attributes", "LP optimum"])

prop("C17", "The integer tree master selects a valid best tree from the available paths",
     "After the integer solve, the selected paths contain exactly one path per leaf, agree on the split of every shared node, and so form one complete tree in which every training row follows exactly one selected path. Their total cost is the maximum over all valid trees that can be assembled from the available paths, whether or not rows were postponed as cuts or cuts were added before, and with true path costs equals the number of correctly classified training rows.",
     ["histories", "inputs"],
     "All small path pools (including pools with several inconsistent trees and tempting inconsistent combinations), in all add orders, with and without LP and cut rounds before.",
     "Only one end-to-end fit checks its predictions.",
     [DT], [("solve_ip", DT + ":DTreeMasterProblem.solve_ip")], [("selected_paths", "chosen tree", DT)], ["selected_paths"])

prop("C18", "Tree learning run to optimality reaches the LP bound over all paths",
     "When a tree classifier is fitted without limits, from any valid initial tree, on any data set, it terminates, declares optimality, and its LP value equals the optimum of the master LP over all paths that can be built from the candidate splits. The final tree is valid, at least as accurate as the initial tree, never more accurate than the LP bound, and its training predictions have exactly the accuracy of its objective. This holds for the current and the older pricer and for any random draws of the heuristic.",
     ["inputs", "configurations", "schedules"],
     "All small data sets and labellings over several candidate layouts of depth 1 and 2, initial trees, two and three classes, both pricers, row postponement on or off, several heuristic draw policies.",
     "One fit with one missing path is tested.",
     [DT, CG], [("DTreeClassifier.fit", DT), ("fit loop", CG)], [("mp_optimal_", "optimality flag", CG)], ["mp_optimal_", "rmp_objective_", "selected_paths", "predict"])

prop("C19", "A fitted tree classifies every row as its tree says, in the original labels",
     "For every fitted tree and every finite numeric row, whether or not training rows reached that region, the prediction is the original label of the target of the one selected path the row follows, thresholds inclusive on the left. Predictions are independent per row and of batch order, have the type of the training labels, and predicting changes nothing about the fitted estimator; predicting before fitting raises.",
     ["inputs", "histories"],
     "All small fitted trees of depth 1 and 2 (including ones with leaves no training row reaches), all rows over value grids around the thresholds, several label alphabets.",
     "Only predictions on the training rows of one instance are tested.",
     [DT], [("predict, row_satisfies_path", DT + ":DTreeClassifier.predict")], (), ["predict return value"])

prop("C20", "An estimator learns only from its current parameters and its last data",
     "For every history of constructing, setting parameters, cloning, fitting and predicting a rule classifier, the result of the last fit (cost of the rule, agreement of rule and predictions, flags, counts) is the same as that of a fresh estimator constructed with the same parameters and fitted once on the same data; two estimators fitted one after the other never influence each other, even when tree classifiers share the objects describing the problem (paths, leaves, nodes, splits, data rows). Parameter changes made through the scikit-learn interface therefore take effect on the next fit, as parameter search requires. A tree classifier re-fitted on the same data keeps a tree of the same training cost.",
     ["histories", "configurations"],
     "All histories up to a depth over fit on several data sets, parameter changes of each parameter, clone, predict, for both rule classifiers and the tree classifier.",
     "The scikit-learn conformance checks skip these estimators and no test fits twice or changes a parameter.",
     [BD, CG, DT], [("constructors building master and subproblems", BD), ("fit", CG)], (), ["explanation", "predict", "flags and counts", "get_params"])

prop("C21", "Training and prediction never modify the caller's data",
     "Fitting and predicting with any of the classifiers leave the caller's sample matrix, label vector, list of initial paths (its length and members), candidate-split lists, thresholds, row memberships and target list exactly as they were. Repeating the same prediction gives the same answer.",
     ["inputs", "histories"],
     "Small problems of every kind for every classifier variant and configuration, with the arguments compared before and after each operation.",
     "No test looks at its inputs after the call.",
     [DT, BD, CG], [("master keeps a list of paths", DT + ":DTreeMasterProblem.__init__")], (), ["arguments after the call"])

prop("C22", "Running statistics equal the exact mean and sample variance after every history",
     "After any history of pushed values and clears, the running statistic reports the number of values since the last clear, their arithmetic mean, their sample variance (zero for fewer than two values) and its square root, as if computed from scratch. The variance is never negative and nothing pushed before a clear is remembered.",
     ["histories"],
     "All push/clear histories up to a depth over a small value alphabet, plus histories with offsets and magnitudes that stress cancellation.",
     "One history of two pushes is tested and clear is never called.",
     [PT], [("RunningStat", PT)], [("old_mean_, new_mean_, old_std_, new_std_", "accumulators", PT)], ["num_data_values", "mean", "variance", "standard_deviation"])

prop("C23", "The parameter tuner explores, then exploits only near-best values",
     "For every history of selections and scores and every random draw, the tuner returns one of the registered values; for its configured number of first selections it explores (two-valued parameters alternate by the flag bit of the remaining count, others are drawn at random), after that it selects only values scored fewer than four times while any exist, and otherwise only values whose final score plus a tenth of their standard deviation reaches the best final score, each such value being possible. A score without an explicit index is credited to the value selected last; each value's final score is its mean score plus the exploration factor divided by its count; counts add up to the number of scores.",
     ["histories", "schedules"],
     "All histories up to a depth of selecting and scoring with scores from a small alphabet, all random draws, two- and three-valued parameters, several explore counts, flags and factors.",
     "Two short deterministic histories are tested.",
     [PT], [("Parameter.get_best_value, adjust_score", PT)], [("final_scores_, counts_, explore_count_, current_index_", "tuner state", PT)], ["get_best_value return value", "counts_", "final_scores_", "total_counts_"])

prop("C24", "Every subproblem solve respects its limit and scores the settings it used",
     "Solving a model through the shared subproblem solver applies the requested time limit and, for each tuned solver setting, the value the tuner selected for this solve; the model is solved once with the caller's callback. Afterwards exactly one score is credited to each setting's selected value: minus the sum of a time part (solve time over limit when proven optimal, else one) and a gap part (zero when optimal, the relative gap when feasible with same-sign objective and bound, else one), and one solve time and one gap are recorded. Settings tuned by one subproblem never affect another.",
     ["histories", "fault_sequences"],
     "All sequences up to a depth of solver outcomes (optimal, feasible with several objectives and bounds, infeasible, unknown, invalid model) with several times and limits, on one or two subproblems.",
     "No test calls it directly; only optimal outcomes occur.",
     [CG, PT], [("BaseSubproblem.solve_model", CG)], [("solve_times_, gaps_, tunable_params_", "history", CG)], ["solver parameters at the solve call", "solve_times_", "gaps_", "tuner counts and scores"])

prop("C25", "Path identity is a true equivalence on leaf, target, cost and node-split pairs",
     "Two paths are the same exactly when they have the same leaf, target and cost and assign the same splits to the same nodes, in whatever order the nodes are listed. The relation is reflexive, symmetric and transitive, ignores the path's number and origin, and comparing changes neither path.",
     ["inputs"],
     "All pairs (and triples) of paths up to depth 3 over small split, cost and target alphabets with all listing orders.",
     "One path is compared with six variants.",
     [DT], [("Path.is_same_as", DT)], (), ["is_same_as return value"])

prop("C26", "Imported CART trees are represented faithfully in the experiment's tree problem",
     "For every sequence of CART trees, the experiment gives each distinct (feature, threshold) pair one split number, numbered consecutively and stable as more trees are merged, records at every complete-tree node exactly the splits some tree used there with the right number of occurrences and the last one used, and maps CART's node numbering to the complete-tree numbering. The initial paths built from a tree route every row as that tree does, carry the most frequent class of the rows reaching the leaf and its count as cost, and no path is produced for a leaf whose ancestors are missing or use a removed split.",
     ["inputs", "histories"],
     "All binary tree shapes up to depth 2 or 3 with all small labelings, all sequences of up to three trees, all small data sets for the path construction.",
     "The experiment script has no tests.",
     [EX], [("get_all_splits, merge_all_splits, get_all_nodes, merge_all_nodes, get_all_leaves_paths, get_path_for_leaf, get_*_list", EX)], (), ["returned structures"])

prop("C27", "Split reduction keeps the most frequent candidates and flags the rest",
     "Reducing candidate splits keeps at every node the requested number (one bound for the root, one for the others) of candidates with the highest counts, with counts still matched to their splits and nothing invented, keeps all nodes in order, and marks a split as removed exactly when no node kept it.",
     ["inputs", "configurations"],
     "All small candidate lists and count vectors (with ties) on trees of one and three nodes and all bounds.",
     "The experiment script has no tests.",
     [EX], [("reduce_splits", EX)], (), ["node candidate lists and counts", "Split.removed"])

prop("C28", "The experiment hands over a valid problem and reports true results",
     "For every training file on which CART finds at least one split, every test file and every sequence of CART trees, the experiment constructs the classifier with consecutive nodes, leaves and splits, candidate lists that contain every split an initial path uses at that node, initial paths that include a complete valid tree and have true costs, and correct row memberships, within the requested depth and iteration limits and with no more than the time left of a positive time limit. The learned tree classifies at least as many training rows correctly as the CART baseline. The results file then contains the baseline and the column-generation accuracies on the training and test files as recomputed from the trees, and the iteration and column counts of the fit.",
     ["inputs", "schedules", "configurations"],
     "Small training files and all short sequences of small CART trees in the bootstrap rounds, with every placement of the preprocessing timeout among the rounds, depths 1 to 3.",
     "The experiment script has no tests.",
     [EX, DT], [("main", EX)], (), ["arguments of the classifier constructor", "results CSV"])

prop("C29", "An interrupted fit leaves a valid model and more learning never hurts",
     "However a fit is interrupted, by an iteration limit or by the time limit passing inside any call of a component, the tree classifier ends with a complete valid tree whose cost equals its training accuracy, is at least that of the initial tree and is the best over the paths generated so far, and the rule classifier ends with the cheapest rule within the budget over the clauses generated so far; the training predictions are those of that model. With the same random draws, raising the iteration limit by one never makes the model worse, never loses generated columns and (unless cuts are added) never makes the LP value worse; a limit that is not reached changes nothing. Optimality is declared only when the LP value equals the optimum over all possible paths or clauses.",
     ["inputs", "schedules", "configurations"],
     "All small problems, initial trees, configurations and draw policies; every iteration limit up to the natural end and every component call as the place where the time limit passes.",
     "The tests fit a few tiny problems to the end; no test has a time limit and none compares fits stopped at different iterations, where columns were added after the last LP solve.",
     [CG, DT, BD], [("fit loop and integer finalisation", CG + ":ColGenClassifier.fit"), ("solve_ip", DT + ":DTreeMasterProblem.solve_ip"), ("solve_ip", BD + ":BDRMasterProblem.solve_ip")],
     [("selected_paths", "paths of the final tree", DT), ("explanation", "clauses of the final rule", BD)],
     ["predict", "selected_paths", "explanation", "mp_optimal_", "time_limit_reached_"])

prop("C30", "Learning depends on the values of the data, not their form or order",
     "Fitting and predicting give the same result for numerically equal data in any container, numeric type or memory layout (lists, tuples, integer, boolean and floating types of every width, C and Fortran order, views with strides, read-only arrays, data frames and series with any index): the same LP optimum, the same optimality flag, the same cost of the final rule or tree, and predictions equal to those of that model. The LP optimum of an unlimited fit does not depend on the order of the rows, of the features or of the candidate splits, and repeating every row k times multiplies it by k.",
     ["inputs", "configurations"],
     "Every representation of the matrix and of the labels for fitting combined with several for predicting, every order of the rows of small sets and fixed orders of larger ones, repetitions up to 130-fold, both rule classifiers and all tree configurations.",
     "The tests use int8 arrays in one order; narrow types only overflow on sets of more than 127 rows, and layouts and orders are never varied.",
     [CG, DT, BD], [("fit", CG + ":ColGenClassifier.fit"), ("get_objective_coeff_mp, get_clause_coeffs, predict", BD), ("row_satisfies_path, predict", DT)],
     (), ["predict", "rmp_objective_", "solver_.Objective().Value()", "mp_optimal_"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
            f.write(json.dumps(p) + "\n")
