From 980a11074417aac59ccb58ca0586ded1e59a9f77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:11:36 +0000
Subject: [PATCH 01/20] fix: do not dereference an empty range for the norm of
 a matrix without columns

---
 printemps/utility/sparse/sparse_matrix.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/printemps/utility/sparse/sparse_matrix.h b/printemps/utility/sparse/sparse_matrix.h
index fce8010..2b74e85 100644
--- a/printemps/utility/sparse/sparse_matrix.h
+++ b/printemps/utility/sparse/sparse_matrix.h
@@ -91,7 +91,9 @@ struct SparseMatrix {
             c_temp[this->column_indices[i]] += VALUE;
             norm_infty = std::max(norm_infty, VALUE);
         }
-        this->norm_one   = *std::max_element(c_temp.begin(), c_temp.end());
+        this->norm_one   = c_temp.empty()
+                               ? 0.0
+                               : *std::max_element(c_temp.begin(), c_temp.end());
         this->norm_infty = norm_infty;
     }
 
-- 
2.43.0


From ada114e0d98394264dfce7d30cb0c23e741173bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:12:16 +0000
Subject: [PATCH 02/20] fix: fix a variable without any sensitivity within its
 bounds

---
 printemps/preprocess/problem_size_reducer.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/printemps/preprocess/problem_size_reducer.h b/printemps/preprocess/problem_size_reducer.h
index 134ff7b..bb87f5e 100644
--- a/printemps/preprocess/problem_size_reducer.h
+++ b/printemps/preprocess/problem_size_reducer.h
@@ -92,13 +92,17 @@ class ProblemSizeReducer {
 
         const auto SENSITIVITY = a_variable_ptr->objective_sensitivity();
         if (fabs(SENSITIVITY) < constant::EPSILON_10) {
+            const auto FIX_VALUE =
+                std::min(std::max(static_cast<T_Variable>(0),
+                                  a_variable_ptr->lower_bound()),
+                         a_variable_ptr->upper_bound());
             utility::print_message(
                 "The value of the variable " + a_variable_ptr->name() +
-                    " was fixed at " + std::to_string(0) +
+                    " was fixed at " + std::to_string(FIX_VALUE) +
                     " because it does not have sensitivity to any "
                     "constraint or objective function.",
                 a_IS_ENABLED_PRINT);
-            a_variable_ptr->fix_by(0);
+            a_variable_ptr->fix_by(FIX_VALUE);
             return true;
         }
 
-- 
2.43.0


From 68d9470e9bee7841d4d4c536006ad319646afd7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:12:16 +0000
Subject: [PATCH 03/20] fix: keep a singleton equality constraint which the
 variable cannot satisfy

---
 printemps/preprocess/problem_size_reducer.h | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/printemps/preprocess/problem_size_reducer.h b/printemps/preprocess/problem_size_reducer.h
index bb87f5e..95a2bc2 100644
--- a/printemps/preprocess/problem_size_reducer.h
+++ b/printemps/preprocess/problem_size_reducer.h
@@ -301,7 +301,17 @@ class ProblemSizeReducer {
                 /**
                  * If the singleton constraint is defined by an equality as
                  * ax+b=0, the value of the variable x will be fixed at -b/a.
+                 * The constraint will be kept if the variable cannot take the
+                 * value, because it cannot be satisfied.
                  */
+                if (std::fabs(bound_temp - std::round(bound_temp)) >
+                        constant::EPSILON ||
+                    std::round(bound_temp) < variable_lower_bound ||
+                    std::round(bound_temp) > variable_upper_bound) {
+                    return std::make_pair(is_constraint_disabled,
+                                          is_variable_bound_updated);
+                }
+
                 utility::print_message(  //
                     "The constraint " + a_constraint_ptr->name() +
                         " was removed instead of fixing the value of the "
@@ -310,7 +320,8 @@ class ProblemSizeReducer {
                         std::to_string(bound_temp) + ".",
                     a_IS_ENABLED_PRINT);
 
-                variable_ptr->fix_by(bound_temp);
+                variable_ptr->fix_by(
+                    static_cast<T_Variable>(std::round(bound_temp)));
                 if (a_constraint_ptr->is_enabled()) {
                     a_constraint_ptr->disable();
                     is_constraint_disabled = true;
-- 
2.43.0


From 73c105561bbd94d7c63dc334d28dd136632e47dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:12:52 +0000
Subject: [PATCH 04/20] fix: keep a singleton constraint whose bound is too
 large to be applied

---
 printemps/preprocess/problem_size_reducer.h | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/printemps/preprocess/problem_size_reducer.h b/printemps/preprocess/problem_size_reducer.h
index 95a2bc2..0da1cc4 100644
--- a/printemps/preprocess/problem_size_reducer.h
+++ b/printemps/preprocess/problem_size_reducer.h
@@ -362,6 +362,13 @@ class ProblemSizeReducer {
                     variable_ptr->set_bound(variable_lower_bound, bound_floor);
                     is_variable_bound_updated = true;
                     (*variable_bound_update_count_ptr)++;
+                } else if (bound_floor < variable_upper_bound) {
+                    /**
+                     * The bound is not tightened by such a large value, and
+                     * the constraint is not redundant.
+                     */
+                    return std::make_pair(is_constraint_disabled,
+                                          is_variable_bound_updated);
                 } else {
                     utility::print_message(  //
                         "The redundant constraint " + a_constraint_ptr->name() +
@@ -409,6 +416,13 @@ class ProblemSizeReducer {
                     variable_ptr->set_bound(bound_ceil, variable_upper_bound);
                     is_variable_bound_updated = true;
                     (*variable_bound_update_count_ptr)++;
+                } else if (bound_ceil > variable_lower_bound) {
+                    /**
+                     * The bound is not tightened by such a large value, and
+                     * the constraint is not redundant.
+                     */
+                    return std::make_pair(is_constraint_disabled,
+                                          is_variable_bound_updated);
                 } else {
                     utility::print_message(  //
                         "The redundant constraint " + a_constraint_ptr->name() +
-- 
2.43.0


From f78e09b3a26a58029c0913e384ed688e5b62ee4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:12:52 +0000
Subject: [PATCH 05/20] fix: give the online bounding the objective value in
 its original sign

---
 .../solver/tabu_search/controller/tabu_search_controller.h     | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/printemps/solver/tabu_search/controller/tabu_search_controller.h b/printemps/solver/tabu_search/controller/tabu_search_controller.h
index b850364..4ac0ca3 100755
--- a/printemps/solver/tabu_search/controller/tabu_search_controller.h
+++ b/printemps/solver/tabu_search/controller/tabu_search_controller.h
@@ -958,7 +958,8 @@ class TabuSearchController
                 !state.previous_is_feasible_incumbent_updated) {
                 this->update_variable_bounds(
                     this->m_global_state_ptr->incumbent_holder
-                        .feasible_incumbent_objective(),
+                            .feasible_incumbent_objective() *
+                        this->m_model_ptr->sign(),
                     true,
                     this->m_option.output.verbose >= option::verbose::Outer);
             }
-- 
2.43.0


From 47bc1eaf3b1be921c811147e3a2c7a656b311c32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:12:52 +0000
Subject: [PATCH 06/20] fix: compare the incumbent and the dual bound in the
 same sign

---
 printemps/solver/tabu_search/core/tabu_search_core.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/printemps/solver/tabu_search/core/tabu_search_core.h b/printemps/solver/tabu_search/core/tabu_search_core.h
index 454439c..e5cdf28 100755
--- a/printemps/solver/tabu_search/core/tabu_search_core.h
+++ b/printemps/solver/tabu_search/core/tabu_search_core.h
@@ -151,7 +151,8 @@ class TabuSearchCore {
 
         if (STATE.number_of_moves > 0) {
             if (fabs(m_global_state_ptr->incumbent_holder
-                         .feasible_incumbent_objective() -
+                             .feasible_incumbent_objective() *
+                         m_model_ptr->sign() -
                      m_global_state_ptr->incumbent_holder.dual_bound()) <
                 constant::EPSILON) {
                 m_state_manager.set_termination_status(
-- 
2.43.0


From db9e2876b25cf3034f589717b43048c0ac533f5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:23:25 +0000
Subject: [PATCH 07/20] fix: accumulate the fixed terms of an expression
 without truncation

---
 printemps/model_component/expression.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/printemps/model_component/expression.h b/printemps/model_component/expression.h
index f3eae0a..c7316d3 100644
--- a/printemps/model_component/expression.h
+++ b/printemps/model_component/expression.h
@@ -392,7 +392,7 @@ class Expression : public multi_array::AbstractMultiArrayElement {
 
     /*************************************************************************/
     inline T_Expression fixed_term_value(void) {
-        int fixed_term_value = 0;
+        T_Expression fixed_term_value = 0;
         for (const auto &sensitivity : m_sensitivities) {
             if (sensitivity.first->is_fixed()) {
                 fixed_term_value +=
-- 
2.43.0


From d52deb038d2a7e5fac61507d6764791d7330a240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:24:42 +0000
Subject: [PATCH 08/20] fix: do not alter a variable twice by a combined move
 in the local search

---
 .../local_search/core/local_search_core.h     | 21 ++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/printemps/solver/local_search/core/local_search_core.h b/printemps/solver/local_search/core/local_search_core.h
index aec54ab..dfad219 100755
--- a/printemps/solver/local_search/core/local_search_core.h
+++ b/printemps/solver/local_search/core/local_search_core.h
@@ -469,7 +469,9 @@ class LocalSearchCore {
         std::vector<int>                     move_indices;
         std::unordered_set<
             model_component::Constraint<T_Variable, T_Expression>*>
-                                                     constraint_ptrs;
+            constraint_ptrs;
+        std::unordered_set<model_component::Variable<T_Variable, T_Expression>*>
+                                                     variable_ptrs;
         neighborhood::Move<T_Variable, T_Expression> move;
         int number_of_performed_moves = 0;
 
@@ -589,6 +591,7 @@ class LocalSearchCore {
 
             move.alterations.reserve(m_model_ptr->number_of_variables());
             constraint_ptrs.clear();
+            variable_ptrs.clear();
             number_of_performed_moves = 0;
             move.initialize();
             for (auto i = 0; i < NUMBER_OF_MOVES; i++) {
@@ -620,10 +623,26 @@ class LocalSearchCore {
                     }
                 }
 
+                /**
+                 * A variable must not be altered twice by the combined move,
+                 * even if it is not related to any enabled constraint.
+                 */
+                for (const auto& alteration : move_ptr->alterations) {
+                    if (variable_ptrs.find(alteration.first) !=
+                        variable_ptrs.end()) {
+                        has_intersection = true;
+                        break;
+                    }
+                }
+
                 if (has_intersection) {
                     continue;
                 }
 
+                for (const auto& alteration : move_ptr->alterations) {
+                    variable_ptrs.insert(alteration.first);
+                }
+
                 move.alterations.insert(move.alterations.end(),
                                         move_ptr->alterations.begin(),
                                         move_ptr->alterations.end());
-- 
2.43.0


From bac8399551bce52843b1f219a90f27196f2350cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:27:42 +0000
Subject: [PATCH 09/20] fix: keep the selection constraints when the bounds of
 their variables are tightened online

---
 printemps/model_component/variable.h              | 8 +++++++-
 printemps/neighborhood/selection_move_generator.h | 8 ++++++++
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/printemps/model_component/variable.h b/printemps/model_component/variable.h
index d3ec5eb..7b68deb 100644
--- a/printemps/model_component/variable.h
+++ b/printemps/model_component/variable.h
@@ -224,7 +224,13 @@ class Variable : public multi_array::AbstractMultiArrayElement {
         m_value       = std::min(m_value, m_upper_bound);
         m_value       = std::max(m_value, m_lower_bound);
 
-        this->setup_sense_binary_or_integer();
+        /**
+         * The variable covered by a selection constraint remains so even if its
+         * bound is tightened.
+         */
+        if (m_extension->sense != VariableSense::Selection) {
+            this->setup_sense_binary_or_integer();
+        }
         this->update_margin();
     }
 
diff --git a/printemps/neighborhood/selection_move_generator.h b/printemps/neighborhood/selection_move_generator.h
index ad30173..014c102 100644
--- a/printemps/neighborhood/selection_move_generator.h
+++ b/printemps/neighborhood/selection_move_generator.h
@@ -109,6 +109,14 @@ class SelectionMoveGenerator
                         continue;
                     }
 
+                    /**
+                     * The selected variable can be fixed after the setup.
+                     */
+                    if ((*a_moves_ptr)[i].alterations[0].first->is_fixed()) {
+                        (*a_flags)[i] = 0;
+                        continue;
+                    }
+
                     if (a_ACCEPT_ALL) {
                         /** nothing to do */
                     } else {
-- 
2.43.0


From 97e27112f96a08690dc6d6802143eb4290a0fe8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:28:55 +0000
Subject: [PATCH 10/20] fix: adapt an imported solution to the variable bounds
 tightened online

---
 printemps/model/model.h         | 15 ++++++++++-----
 printemps/preprocess/verifier.h |  3 +++
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/printemps/model/model.h b/printemps/model/model.h
index a473399..206dc31 100644
--- a/printemps/model/model.h
+++ b/printemps/model/model.h
@@ -3356,19 +3356,24 @@ class Model {
         for (auto &&proxy : m_variable_proxies) {
             for (auto &&variable : proxy.flat_indexed_variables()) {
                 if (VARIABLES.find(variable.name()) != VARIABLES.end()) {
-                    variable = VARIABLES.at(variable.name());
+                    variable.set_value_if_mutable(
+                        VARIABLES.at(variable.name()));
                 } else {
-                    variable = 0;
+                    variable.set_value_if_mutable(0);
                 }
             }
         }
+        /**
+         * The solution can be inconsistent with the variable bounds tightened
+         * after it was found.
+         */
         preprocess::Verifier<T_Variable, T_Expression> verifier(this);
         verifier.verify_and_correct_selection_variables_initial_values(  //
-            false, false);
+            true, false);
         verifier.verify_and_correct_binary_variables_initial_values(  //
-            false, false);
+            true, false);
         verifier.verify_and_correct_integer_variables_initial_values(  //
-            false, false);
+            true, false);
     }
 
     /*************************************************************************/
diff --git a/printemps/preprocess/verifier.h b/printemps/preprocess/verifier.h
index 09486e7..36cd346 100644
--- a/printemps/preprocess/verifier.h
+++ b/printemps/preprocess/verifier.h
@@ -186,6 +186,7 @@ class Verifier {
                 }
 
                 selected_variable_ptr->set_value_if_mutable(1);
+                selected_variable_ptr->select();
 
                 for (auto &&sensitivity :
                      selected_variable_ptr->constraint_sensitivities()) {
@@ -260,6 +261,7 @@ class Verifier {
                 }
 
                 selected_variable_ptr->set_value_if_mutable(1);
+                selected_variable_ptr->select();
 
                 for (auto &&sensitivity :
                      selected_variable_ptr->constraint_sensitivities()) {
@@ -326,6 +328,7 @@ class Verifier {
                 };
 
                 selected_variable_ptr->set_value_if_mutable(1);
+                selected_variable_ptr->select();
                 this->print_correction(selected_variable_ptr->name(), 0, 1,
                                        a_IS_ENABLED_PRINT);
 
-- 
2.43.0


From 2cb295ba09d951cc26ae67ce61786dfa6360fa1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:30:00 +0000
Subject: [PATCH 11/20] fix: classify a constraint by its current coefficients
 and variables

---
 printemps/model_component/constraint.h | 61 +++++++++++++++-----------
 1 file changed, 36 insertions(+), 25 deletions(-)

diff --git a/printemps/model_component/constraint.h b/printemps/model_component/constraint.h
index 4238381..11ab6a4 100644
--- a/printemps/model_component/constraint.h
+++ b/printemps/model_component/constraint.h
@@ -234,6 +234,35 @@ class Constraint : public multi_array::AbstractMultiArrayElement {
         m_negative_part    = 0;
         m_is_enabled       = true;
 
+        this->setup_coefficient_attributes();
+        this->clear_constraint_type();
+
+        switch (m_sense) {
+            case ConstraintSense::Less: {
+                m_is_less_or_equal    = true;
+                m_is_greater_or_equal = false;
+                break;
+            }
+            case ConstraintSense::Equal: {
+                m_is_less_or_equal    = true;
+                m_is_greater_or_equal = true;
+                break;
+            }
+            case ConstraintSense::Greater: {
+                m_is_less_or_equal    = false;
+                m_is_greater_or_equal = true;
+                break;
+            }
+            default: {
+                throw std::logic_error(utility::format_error_location(
+                    __FILE__, __LINE__, __func__,
+                    "Constraint sense is invalid."));
+            }
+        }
+    }
+
+    /*************************************************************************/
+    inline void setup_coefficient_attributes(void) {
         m_is_integer    = true;
         auto is_integer = [](const T_Expression a_VALUE) {
             return fabs(a_VALUE - floor(a_VALUE)) < constant::EPSILON_10;
@@ -272,36 +301,18 @@ class Constraint : public multi_array::AbstractMultiArrayElement {
                 break;
             }
         }
-
-        this->clear_constraint_type();
-
-        switch (m_sense) {
-            case ConstraintSense::Less: {
-                m_is_less_or_equal    = true;
-                m_is_greater_or_equal = false;
-                break;
-            }
-            case ConstraintSense::Equal: {
-                m_is_less_or_equal    = true;
-                m_is_greater_or_equal = true;
-                break;
-            }
-            case ConstraintSense::Greater: {
-                m_is_less_or_equal    = false;
-                m_is_greater_or_equal = true;
-                break;
-            }
-            default: {
-                throw std::logic_error(utility::format_error_location(
-                    __FILE__, __LINE__, __func__,
-                    "Constraint sense is invalid."));
-            }
-        }
     }
 
     /*************************************************************************/
     inline void setup_constraint_type(void) {
         this->clear_constraint_type();
+
+        /**
+         * The expression and the variable senses can be changed after setup()
+         * was called, for example by eliminating dependent variables.
+         */
+        this->setup_coefficient_attributes();
+
         /// Singleton
         if (m_expression.sensitivities().size() == 1) {
             m_is_singleton = true;
-- 
2.43.0


From 8991120f538d76ee9f06be1271cc4d5458e177c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:30:37 +0000
Subject: [PATCH 12/20] fix: do not overwrite a fixed or beneficial variable in
 removing redundant set variables

---
 printemps/preprocess/problem_size_reducer.h | 29 ++++++++++++++++++---
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/printemps/preprocess/problem_size_reducer.h b/printemps/preprocess/problem_size_reducer.h
index 0da1cc4..59dc6cd 100644
--- a/printemps/preprocess/problem_size_reducer.h
+++ b/printemps/preprocess/problem_size_reducer.h
@@ -698,15 +698,36 @@ class ProblemSizeReducer {
                 }
 
                 /**
-                 * If the variable j is fixed at 0, the following procedure can
-                 * be skipped.
+                 * If the variable j is fixed, the following procedure can be
+                 * skipped.
                  */
-                if (variable_ptrs[j]->is_fixed() &&
-                    variable_ptrs[j]->value() == 0) {
+                if (variable_ptrs[j]->is_fixed()) {
                     j++;
                     continue;
                 }
 
+                /**
+                 * If the variable j improves the objective function and is
+                 * related to only set covering constraints, the following
+                 * procedure will be skipped because both of the variables i
+                 * and j can be 1 in every optimal solution.
+                 */
+                if (m_model_ptr->sign() *
+                        variable_ptrs[j]->objective_sensitivity() <
+                    0) {
+                    const auto &RELATED_CONSTRAINT_PTRS =
+                        variable_ptrs[j]->related_constraint_ptrs();
+                    if (std::none_of(RELATED_CONSTRAINT_PTRS.begin(),
+                                     RELATED_CONSTRAINT_PTRS.end(),
+                                     [](const auto &a_CONSTRAINT_PTR) {
+                                         return a_CONSTRAINT_PTR
+                                             ->is_less_or_equal();
+                                     })) {
+                        j++;
+                        continue;
+                    }
+                }
+
                 /**
                  * If the constraint coefficient pattern of the variables i and
                  * j is same, fix the value of the variable j at 0.
-- 
2.43.0


From e93aadb59df17f49fd1bc339a7ef5ee7cfc56caf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:56:06 +0000
Subject: [PATCH 13/20] fix: keep the configured number of threads after the
 first tabu search loop

---
 .../controller/tabu_search_controller_state_manager.h       | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/printemps/solver/tabu_search/controller/tabu_search_controller_state_manager.h b/printemps/solver/tabu_search/controller/tabu_search_controller_state_manager.h
index 2ac9809..7b9c1b5 100755
--- a/printemps/solver/tabu_search/controller/tabu_search_controller_state_manager.h
+++ b/printemps/solver/tabu_search/controller/tabu_search_controller_state_manager.h
@@ -1415,7 +1415,8 @@ class TabuSearchControllerStateManager {
             m_state.is_enabled_move_update_parallelization =
                 m_state.number_of_threads_move_update > 1;
         } else {
-            m_state.number_of_threads_move_update = omp_get_max_threads();
+            m_state.number_of_threads_move_update =
+                m_option.parallel.number_of_threads_move_update;
             m_state.is_enabled_move_update_parallelization =
                 m_option.parallel.is_enabled_move_update_parallelization;
         }
@@ -1448,7 +1449,8 @@ class TabuSearchControllerStateManager {
             m_state.is_enabled_move_evaluation_parallelization =
                 m_state.number_of_threads_move_evaluation > 1;
         } else {
-            m_state.number_of_threads_move_evaluation = omp_get_max_threads();
+            m_state.number_of_threads_move_evaluation =
+                m_option.parallel.number_of_threads_move_evaluation;
             m_state.is_enabled_move_evaluation_parallelization =
                 m_option.parallel.is_enabled_move_evaluation_parallelization;
         }
-- 
2.43.0


From b95e9b2549599ea1bebf60dce75d910a46478dcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:56:16 +0000
Subject: [PATCH 14/20] fix: limit the number of threads in the remaining
 parallel loops of the searches

---
 printemps/neighborhood/inverted_integers_move_generator.h      | 3 ++-
 printemps/solver/lagrange_dual/core/lagrange_dual_core.h       | 3 ++-
 .../lagrange_dual/core/lagrange_dual_core_state_manager.h      | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/printemps/neighborhood/inverted_integers_move_generator.h b/printemps/neighborhood/inverted_integers_move_generator.h
index cdd3730..d187419 100644
--- a/printemps/neighborhood/inverted_integers_move_generator.h
+++ b/printemps/neighborhood/inverted_integers_move_generator.h
@@ -123,7 +123,8 @@ class InvertedIntegersMoveGenerator
                 const int MOVES_SIZE = a_moves_ptr->size();
 
 #ifdef _OPENMP
-#pragma omp parallel for if (a_IS_ENABLED_PARALLEL) schedule(static)
+#pragma omp parallel for if (a_IS_ENABLED_PARALLEL) schedule(static) \
+    num_threads(a_NUMBER_OF_THREADS)
 #endif
                 for (auto i = 0; i < MOVES_SIZE; i++) {
                     (*a_flags)[i] = 1;
diff --git a/printemps/solver/lagrange_dual/core/lagrange_dual_core.h b/printemps/solver/lagrange_dual/core/lagrange_dual_core.h
index 251bed1..d35ac6e 100755
--- a/printemps/solver/lagrange_dual/core/lagrange_dual_core.h
+++ b/printemps/solver/lagrange_dual/core/lagrange_dual_core.h
@@ -430,7 +430,8 @@ class LagrangeDualCore {
 #ifdef _OPENMP
 #pragma omp parallel for if (m_option.parallel                                \
                                  .is_enabled_move_evaluation_parallelization) \
-    schedule(static)
+    schedule(static)                                                          \
+        num_threads(m_option.parallel.number_of_threads_move_evaluation)
 #endif
             for (auto i = 0; i < VARIABLES_SIZE; i++) {
                 if (variable_ptrs[i]->is_fixed()) {
diff --git a/printemps/solver/lagrange_dual/core/lagrange_dual_core_state_manager.h b/printemps/solver/lagrange_dual/core/lagrange_dual_core_state_manager.h
index af0a9a8..2e92bb2 100755
--- a/printemps/solver/lagrange_dual/core/lagrange_dual_core_state_manager.h
+++ b/printemps/solver/lagrange_dual/core/lagrange_dual_core_state_manager.h
@@ -193,7 +193,8 @@ class LagrangeDualCoreStateManager {
 #ifdef _OPENMP
 #pragma omp parallel for if (m_option.parallel                                \
                                  .is_enabled_move_evaluation_parallelization) \
-    schedule(static)
+    schedule(static)                                                          \
+        num_threads(m_option.parallel.number_of_threads_move_evaluation)
 #endif
         for (auto i = 0; i < CONSTRAINTS_SIZE; i++) {
             const double CONSTRAINT_VALUE =
-- 
2.43.0


From 01b5c30c182a6c27ca3acc3bdb323eea3da991e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:05:27 +0000
Subject: [PATCH 15/20] fix: compute the dual bounds with the enabled
 constraints, the sign and the constant of the objective

---
 printemps/model/model.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/printemps/model/model.h b/printemps/model/model.h
index 206dc31..8aeb0af 100644
--- a/printemps/model/model.h
+++ b/printemps/model/model.h
@@ -1463,7 +1463,7 @@ class Model {
         using utility::sparse::SparseMatrix;
         using utility::sparse::Vector;
 
-        double objective_offset = 0.0;
+        double objective_offset = m_objective.expression().constant_value();
         for (const auto &variable_ptr :
              m_variable_reference.fixed_variable_ptrs) {
             objective_offset +=
@@ -3025,14 +3025,15 @@ class Model {
             &a_LAGRANGE_MULTIPLIER_PROXIES) const noexcept {
         double lagrangian = m_objective.value();
 
-        for (auto &&constraint_ptr : m_constraint_reference.constraint_ptrs) {
+        for (auto &&constraint_ptr :
+             m_constraint_reference.enabled_constraint_ptrs) {
             const int PROXY_INDEX = constraint_ptr->proxy_index();
             const int FLAT_INDEX  = constraint_ptr->flat_index();
 
             lagrangian +=
                 a_LAGRANGE_MULTIPLIER_PROXIES[PROXY_INDEX].flat_indexed_values(
                     FLAT_INDEX) *
-                constraint_ptr->constraint_value();
+                constraint_ptr->constraint_value() * this->sign();
         }
         return lagrangian;
     }
-- 
2.43.0


From 243f040dca35b548786dda62bccac0214c601b06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:07:33 +0000
Subject: [PATCH 16/20] fix: refresh the objective improvabilities before
 concluding optimality from the absence of moves

---
 printemps/solver/tabu_search/core/tabu_search_core.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/printemps/solver/tabu_search/core/tabu_search_core.h b/printemps/solver/tabu_search/core/tabu_search_core.h
index e5cdf28..edf5b7c 100755
--- a/printemps/solver/tabu_search/core/tabu_search_core.h
+++ b/printemps/solver/tabu_search/core/tabu_search_core.h
@@ -169,6 +169,7 @@ class TabuSearchCore {
              * improvable solution, the solution should be an optimum. It can
              * happen for decomp2 instance in MIPLIB 2017.
              */
+            m_model_ptr->update_variable_objective_improvabilities();
             m_state_manager.set_termination_status(
                 TabuSearchCoreTerminationStatus::OPTIMAL);
             for (const auto& variable_ptr :
-- 
2.43.0


From 910868982a6f9670f6071f2efb043bc51c8c6c74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:10:04 +0000
Subject: [PATCH 17/20] fix: ignore the disabled constraints in the
 minimization of the Lagrangian

---
 printemps/solver/lagrange_dual/core/lagrange_dual_core.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/printemps/solver/lagrange_dual/core/lagrange_dual_core.h b/printemps/solver/lagrange_dual/core/lagrange_dual_core.h
index d35ac6e..36eca00 100755
--- a/printemps/solver/lagrange_dual/core/lagrange_dual_core.h
+++ b/printemps/solver/lagrange_dual/core/lagrange_dual_core.h
@@ -443,6 +443,9 @@ class LagrangeDualCore {
                      variable_ptrs[i]->constraint_sensitivities()) {
                     const auto&  constraint_ptr = item.first;
                     const double SENSITIVITY    = item.second;
+                    if (!constraint_ptr->is_enabled()) {
+                        continue;
+                    }
 
                     const int PROXY_INDEX = constraint_ptr->proxy_index();
                     const int FLAT_INDEX  = constraint_ptr->flat_index();
-- 
2.43.0


From 80f4876a142de3198ede122d8e23819fc3c95b89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:17 +0000
Subject: [PATCH 18/20] fix: remove every duplicated solution from an archive

---
 printemps/solution/solution_archive.h | 28 +++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/printemps/solution/solution_archive.h b/printemps/solution/solution_archive.h
index 3977660..56b191e 100644
--- a/printemps/solution/solution_archive.h
+++ b/printemps/solution/solution_archive.h
@@ -105,12 +105,28 @@ class SolutionArchive {
             }
         }
 
-        solutions.erase(std::unique(solutions.begin(), solutions.end(),
-                                    [](const auto& a_LHS, const auto& a_RHS) {
-                                        return a_LHS.variables ==
-                                               a_RHS.variables;
-                                    }),
-                        solutions.end());
+        /**
+         * Remove the duplicated solutions. They are not necessarily adjacent to
+         * each other when other solutions have the same objective value.
+         */
+        std::vector<SparseSolution<T_Variable, T_Expression>> unique_solutions;
+        unique_solutions.reserve(solutions.size());
+        std::size_t group_begin = 0;
+        for (auto&& solution : solutions) {
+            if (!unique_solutions.empty() &&
+                unique_solutions.back().objective != solution.objective) {
+                group_begin = unique_solutions.size();
+            }
+            if (std::none_of(unique_solutions.begin() + group_begin,
+                             unique_solutions.end(),
+                             [&solution](const auto& a_SOLUTION) {
+                                 return a_SOLUTION.variables ==
+                                        solution.variables;
+                             })) {
+                unique_solutions.push_back(solution);
+            }
+        }
+        solutions = std::move(unique_solutions);
 
         const int SOLUTIONS_SIZE = static_cast<int>(solutions.size());
         if (m_max_size > 0 && SOLUTIONS_SIZE > m_max_size) {
-- 
2.43.0


From f8eb6fff12c16166f584b6722ef0f3eafee5bfa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:10:24 +0000
Subject: [PATCH 19/20] fix: report a failure in writing a result file

---
 printemps/model/model.h                                |  6 ++++++
 .../preprocess/flippable_variable_pair_extractor.h     |  6 ++++++
 printemps/solution/named_solution.h                    |  6 ++++++
 printemps/utility/json/json.h                          | 10 ++++++++++
 4 files changed, 28 insertions(+)

diff --git a/printemps/model/model.h b/printemps/model/model.h
index 8aeb0af..64bb9b7 100644
--- a/printemps/model/model.h
+++ b/printemps/model/model.h
@@ -3707,6 +3707,12 @@ class Model {
         ofs << "ENDATA" << std::endl;
 
         ofs.close();
+
+        if (ofs.fail()) {
+            throw std::logic_error(utility::format_error_location(
+                __FILE__, __LINE__, __func__,
+                "Cannot write the specified file: " + a_FILE_NAME));
+        }
     }
 
     /*********************************************************************/
diff --git a/printemps/preprocess/flippable_variable_pair_extractor.h b/printemps/preprocess/flippable_variable_pair_extractor.h
index d641ee2..fbf8ce5 100644
--- a/printemps/preprocess/flippable_variable_pair_extractor.h
+++ b/printemps/preprocess/flippable_variable_pair_extractor.h
@@ -138,6 +138,12 @@ class FlippableVariablePairExtractor {
                 << pair.overlap_rate << " " << std::endl;
         }
         ofs.close();
+
+        if (ofs.fail()) {
+            throw std::logic_error(utility::format_error_location(
+                __FILE__, __LINE__, __func__,
+                "Cannot write the specified file: " + a_FILE_NAME));
+        }
     }
 
     /*************************************************************************/
diff --git a/printemps/solution/named_solution.h b/printemps/solution/named_solution.h
index 89d8a1f..2079755 100644
--- a/printemps/solution/named_solution.h
+++ b/printemps/solution/named_solution.h
@@ -164,6 +164,12 @@ class NamedSolution {
         }
 
         ofs.close();
+
+        if (ofs.fail()) {
+            throw std::logic_error(utility::format_error_location(
+                __FILE__, __LINE__, __func__,
+                "Cannot write the specified file: " + a_FILE_NAME));
+        }
     }
 
     /*************************************************************************/
diff --git a/printemps/utility/json/json.h b/printemps/utility/json/json.h
index e7d5d8b..3f61993 100644
--- a/printemps/utility/json/json.h
+++ b/printemps/utility/json/json.h
@@ -676,6 +676,11 @@ inline void write_json_object(const JsonObject&  a_OBJECT,
     std::ofstream ofs(a_FILE_NAME);
     ofs << a_OBJECT;
     ofs.close();
+
+    if (ofs.fail()) {
+        throw std::logic_error("Cannot write the specified file: " +
+                               a_FILE_NAME);
+    }
 }
 
 /*****************************************************************************/
@@ -684,6 +689,11 @@ inline void write_json_array(const JsonArray&   a_ARRAY,
     std::ofstream ofs(a_FILE_NAME);
     ofs << a_ARRAY;
     ofs.close();
+
+    if (ofs.fail()) {
+        throw std::logic_error("Cannot write the specified file: " +
+                               a_FILE_NAME);
+    }
 }
 
 /*****************************************************************************/
-- 
2.43.0


From ffc1e3b0ca7239e8e265c0580e77b2443b36dbf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:20:26 +0000
Subject: [PATCH 20/20] fix: report a failure in reading an input file

---
 printemps/helper/auxiliary_file_reader.h | 15 +++++++++++++++
 printemps/mps/mps.h                      |  5 +++++
 printemps/utility/json/json.h            | 14 ++++++++++++--
 3 files changed, 32 insertions(+), 2 deletions(-)

diff --git a/printemps/helper/auxiliary_file_reader.h b/printemps/helper/auxiliary_file_reader.h
index 657f0df..c6c5b31 100644
--- a/printemps/helper/auxiliary_file_reader.h
+++ b/printemps/helper/auxiliary_file_reader.h
@@ -31,6 +31,11 @@ inline std::unordered_map<std::string, int> read_names_and_values(
         while (std::getline(ifs, buffer)) {
             lines.push_back(buffer);
         }
+        if (ifs.bad()) {
+            throw std::logic_error(utility::format_error_location(
+                __FILE__, __LINE__, __func__,
+                "Cannot read the specified file: " + a_FILE_NAME));
+        }
         ifs.close();
     }
 
@@ -78,6 +83,11 @@ inline std::unordered_set<std::string> read_names(
         while (std::getline(ifs, buffer)) {
             lines.push_back(buffer);
         }
+        if (ifs.bad()) {
+            throw std::logic_error(utility::format_error_location(
+                __FILE__, __LINE__, __func__,
+                "Cannot read the specified file: " + a_FILE_NAME));
+        }
         ifs.close();
     }
 
@@ -125,6 +135,11 @@ inline std::vector<std::pair<std::string, std::string>> read_name_pairs(
         while (std::getline(ifs, buffer)) {
             lines.push_back(buffer);
         }
+        if (ifs.bad()) {
+            throw std::logic_error(utility::format_error_location(
+                __FILE__, __LINE__, __func__,
+                "Cannot read the specified file: " + a_FILE_NAME));
+        }
         ifs.close();
     }
 
diff --git a/printemps/mps/mps.h b/printemps/mps/mps.h
index ece5b5b..ffec6aa 100644
--- a/printemps/mps/mps.h
+++ b/printemps/mps/mps.h
@@ -77,6 +77,11 @@ struct MPS {
             while (std::getline(ifs, buffer)) {
                 lines.push_back(buffer);
             }
+            if (ifs.bad()) {
+                throw std::logic_error(utility::format_error_location(
+                    __FILE__, __LINE__, __func__,
+                    "Cannot read the specified MPS file: " + a_FILE_NAME));
+            }
             ifs.close();
         }
 
diff --git a/printemps/utility/json/json.h b/printemps/utility/json/json.h
index 3f61993..64f598f 100644
--- a/printemps/utility/json/json.h
+++ b/printemps/utility/json/json.h
@@ -713,6 +713,11 @@ inline JsonObject read_json_object(const std::string& a_FILE_NAME) {
         str += buffer;
     }
 
+    if (ifs.bad()) {
+        throw std::logic_error("Cannot read the specified file: " +
+                               a_FILE_NAME);
+    }
+
     ifs.close();
 
     if (close_count(str, '{', '}') != 0) {
@@ -727,7 +732,7 @@ inline JsonObject read_json_object(const std::string& a_FILE_NAME) {
 
     const auto TOKENS = tokenize(str);
 
-    if (TOKENS.front() != "{" || TOKENS.back() != "}") {
+    if (TOKENS.empty() || TOKENS.front() != "{" || TOKENS.back() != "}") {
         throw std::logic_error("Specified JSON file is not valid: " +
                                a_FILE_NAME);
     }
@@ -752,6 +757,11 @@ inline JsonArray read_json_array(const std::string& a_FILE_NAME) {
         str += buffer;
     }
 
+    if (ifs.bad()) {
+        throw std::logic_error("Cannot read the specified file: " +
+                               a_FILE_NAME);
+    }
+
     ifs.close();
 
     if (close_count(str, '{', '}') != 0) {
@@ -766,7 +776,7 @@ inline JsonArray read_json_array(const std::string& a_FILE_NAME) {
 
     const auto TOKENS = tokenize(str);
 
-    if (TOKENS.front() != "[" || TOKENS.back() != "]") {
+    if (TOKENS.empty() || TOKENS.front() != "[" || TOKENS.back() != "]") {
         throw std::logic_error("Specified JSON file is not valid: " +
                                a_FILE_NAME);
     }
-- 
2.43.0

