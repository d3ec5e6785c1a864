From 22a578353e98845f814b1a6d9aeb537127cd4945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:39 +0000
Subject: [PATCH 01/27] fix: do not fix an empty column twice (objective offset
 was counted twice)

remove_variables_with_close_bounds fixed columns with col_size 0 that are
still in the list of empty columns; remove_empty_cols then fixed them again.
---
 src/explorers/SimpleReductions.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/explorers/SimpleReductions.c b/src/explorers/SimpleReductions.c
index 22ced65..a23c711 100644
--- a/src/explorers/SimpleReductions.c
+++ b/src/explorers/SimpleReductions.c
@@ -691,8 +691,12 @@ PresolveStatus remove_variables_with_close_bounds(Problem *prob)
 
         if (IS_EQUAL_FEAS_TOL(bounds[ii].lb, bounds[ii].ub))
         {
-            // no need to check return value since bounds are equal
-            fix_col(constraints, (int) ii, bounds[ii].lb, c[ii]);
+            // an empty column is fixed (once) by remove_empty_cols
+            if (col_sizes[ii] > 0)
+            {
+                // no need to check return value since bounds are equal
+                fix_col(constraints, (int) ii, bounds[ii].lb, c[ii]);
+            }
         }
         else if (bounds[ii].lb > bounds[ii].ub + FEAS_TOL)
         {
-- 
2.43.0


From 21f21aff33d20ca00edb7914199f5426adc84290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:08 +0000
Subject: [PATCH 02/27] fix: report infeasibility detected while eliminating a
 doubleton equality row

---
 src/core/Presolver.c    |  2 ++
 src/explorers/DtonsEq.c | 38 +++++++++++++++++++++++++-------------
 2 files changed, 27 insertions(+), 13 deletions(-)

diff --git a/src/core/Presolver.c b/src/core/Presolver.c
index 5adc344..be391df 100644
--- a/src/core/Presolver.c
+++ b/src/core/Presolver.c
@@ -481,6 +481,8 @@ static inline PresolveStatus run_fast_explorers(Problem *prob, const Settings *s
     if (stgs->dton_eq)
     {
         status |= remove_dton_eq_rows(prob, stgs->max_shift);
+        RETURN_IF_INFEASIBLE(status);
+
         // after removing doubleton equality rows, there can be new empty rows,
         // new singleton rows, and new empty columns
         status |= run_trivial_explorers(prob, stgs);
diff --git a/src/explorers/DtonsEq.c b/src/explorers/DtonsEq.c
index 1f08315..22fe339 100644
--- a/src/explorers/DtonsEq.c
+++ b/src/explorers/DtonsEq.c
@@ -185,10 +185,12 @@ static inline void can_dton_be_eliminated(Matrix *AT, const double *row_vals,
     *subst = row_cols[*subst];
 }
 
-// lb and ub are bounds on variable that gets substituted
-static inline void modify_bounds(Constraints *constraints, int i, double aij,
-                                 double aik, double rhs, double lb_subst,
-                                 double ub_subst, int stay, ColTag col_tag_subst)
+// lb and ub are bounds on variable that gets substituted. Returns INFEASIBLE if
+// the transferred bounds contradict the bounds of the variable that stays.
+static inline PresolveStatus modify_bounds(Constraints *constraints, int i,
+                                           double aij, double aik, double rhs,
+                                           double lb_subst, double ub_subst,
+                                           int stay, ColTag col_tag_subst)
 {
     assert(aij != 0 && aik != 0);
     bool same_sign = (aik * aij > 0.0);
@@ -198,18 +200,20 @@ static inline void modify_bounds(Constraints *constraints, int i, double aij,
         if (!HAS_TAG(col_tag_subst, C_TAG_LB_INF))
         {
             double new_ub_cand = (rhs - aik * lb_subst) / aij;
-            update_ub(constraints, stay, new_ub_cand, i HUGE_BOUND_IS_NOT_OK);
+            RETURN_IF_INFEASIBLE(update_ub(constraints, stay, new_ub_cand,
+                                           i HUGE_BOUND_IS_NOT_OK));
 
             if (HAS_TAG(constraints->col_tags[stay], C_TAG_FIXED))
             {
-                return;
+                return UNCHANGED;
             }
         }
 
         if (!HAS_TAG(col_tag_subst, C_TAG_UB_INF))
         {
             double new_lb_cand = (rhs - aik * ub_subst) / aij;
-            update_lb(constraints, stay, new_lb_cand, i HUGE_BOUND_IS_NOT_OK);
+            RETURN_IF_INFEASIBLE(update_lb(constraints, stay, new_lb_cand,
+                                           i HUGE_BOUND_IS_NOT_OK));
         }
     }
     else
@@ -217,20 +221,24 @@ static inline void modify_bounds(Constraints *constraints, int i, double aij,
         if (!HAS_TAG(col_tag_subst, C_TAG_LB_INF))
         {
             double new_lb_cand = (rhs - aik * lb_subst) / aij;
-            update_lb(constraints, stay, new_lb_cand, i HUGE_BOUND_IS_NOT_OK);
+            RETURN_IF_INFEASIBLE(update_lb(constraints, stay, new_lb_cand,
+                                           i HUGE_BOUND_IS_NOT_OK));
 
             if (HAS_TAG(constraints->col_tags[stay], C_TAG_FIXED))
             {
-                return;
+                return UNCHANGED;
             }
         }
 
         if (!HAS_TAG(col_tag_subst, C_TAG_UB_INF))
         {
             double new_ub_cand = (rhs - aik * ub_subst) / aij;
-            update_ub(constraints, stay, new_ub_cand, i HUGE_BOUND_IS_NOT_OK);
+            RETURN_IF_INFEASIBLE(update_ub(constraints, stay, new_ub_cand,
+                                           i HUGE_BOUND_IS_NOT_OK));
         }
     }
+
+    return UNCHANGED;
 }
 
 #ifndef TESTING
@@ -701,8 +709,11 @@ static PresolveStatus remove_dton_eq_rows__(Problem *prob, int max_shift_per_row
 
         // transfer bounds to variable that stays and skip the reduction
         // if the variable that stays was fixed because of the bound change
-        modify_bounds(constraints, i, aij, aik, *row.rhs, bounds[k].lb, bounds[k].ub,
-                      j, col_tags[k]);
+        if (modify_bounds(constraints, i, aij, aik, *row.rhs, bounds[k].lb,
+                          bounds[k].ub, j, col_tags[k]) == INFEASIBLE)
+        {
+            return INFEASIBLE;
+        }
 
         if (HAS_TAG(col_tags[j], C_TAG_INACTIVE))
         {
@@ -751,6 +762,7 @@ PresolveStatus remove_dton_eq_rows(Problem *prob, int max_shift_per_row)
     while ((*dton_rows)->len > 0)
     {
         PresolveStatus temp = remove_dton_eq_rows__(prob, max_shift_per_row);
+        RETURN_IF_INFEASIBLE(temp);
 
         if (temp != REDUCED)
         {
@@ -767,6 +779,6 @@ PresolveStatus remove_dton_eq_rows(Problem *prob, int max_shift_per_row)
 
     DEBUG(verify_problem_up_to_date(prob->constraints));
 
-    // always return UNCHANGED because this function can't detect infeas/unbnd.
+    // return UNCHANGED even if the problem was reduced
     return UNCHANGED;
 }
-- 
2.43.0


From 9ae9eac1c4ceb8e59448886f1126cc0bf2070df4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:05 +0000
Subject: [PATCH 03/27] fix: recompute both activity bounds when a coefficient
 change makes both finite

---
 src/core/Activity.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/core/Activity.c b/src/core/Activity.c
index 49c7a8f..0997518 100644
--- a/src/core/Activity.c
+++ b/src/core/Activity.c
@@ -704,18 +704,19 @@ Altered_Activity update_activity_coeff_change(Activity *act, double lb, double u
     }
 #endif
 
-    // recompute from scratch if necessary
+    // recompute from scratch if necessary (both sides may need it)
+    Altered_Activity altered = NO_RECOMPUTE;
     if (act->n_inf_min == 0 && n_inf_min_before == 1)
     {
-        return MIN_ALTERED_RECOMPUTE;
+        altered |= MIN_ALTERED_RECOMPUTE;
     }
 
     if (act->n_inf_max == 0 && n_inf_max_before == 1)
     {
-        return MAX_ALTERED_RECOMPUTE;
+        altered |= MAX_ALTERED_RECOMPUTE;
     }
 
-    return NO_RECOMPUTE;
+    return altered;
 }
 
 void remove_finite_lb_from_activities(const ConstColView *col, Activity *acts,
-- 
2.43.0


From 37c49e6282cb7d68bfa5c9e204da74358c23ed83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:41 +0000
Subject: [PATCH 04/27] fix: check every parallel inequality row against the
 equality row of its bin

---
 src/explorers/Parallel_rows.c | 30 +++++++++++++++++-------------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/src/explorers/Parallel_rows.c b/src/explorers/Parallel_rows.c
index f29c8b9..a1e65e7 100644
--- a/src/explorers/Parallel_rows.c
+++ b/src/explorers/Parallel_rows.c
@@ -389,6 +389,18 @@ static inline PresolveStatus process_single_bin(const Constraints *constraints,
     // ------------------------------------------------------------------------
     bool is_remaining_row_eq, is_rhs_inf_remaining_row, is_lhs_inf_remaining_row;
     int remaining_row_idx = bin[0];
+
+    // if the bin contains an equality row, it is the row that remains and all
+    // other rows are compared with it
+    for (int i = 0; i < bin_size; ++i)
+    {
+        if (HAS_TAG(row_tags[bin[i]], R_TAG_EQ))
+        {
+            remaining_row_idx = bin[i];
+            break;
+        }
+    }
+
     is_remaining_row_eq = HAS_TAG(row_tags[remaining_row_idx], R_TAG_EQ);
     is_rhs_inf_remaining_row = HAS_TAG(row_tags[remaining_row_idx], R_TAG_RHS_INF);
     is_lhs_inf_remaining_row = HAS_TAG(row_tags[remaining_row_idx], R_TAG_LHS_INF);
@@ -396,25 +408,17 @@ static inline PresolveStatus process_single_bin(const Constraints *constraints,
     remaining_row_new_lhs = lhs[remaining_row_idx];
     remaining_row_coeff = A->x[A->p[remaining_row_idx].start];
 
-    for (int i = 1; i < bin_size; ++i)
+    for (int i = 0; i < bin_size; ++i)
     {
         int other_row_idx = bin[i];
-        bool is_other_row_eq = HAS_TAG(row_tags[other_row_idx], R_TAG_EQ);
 
-        if (!is_remaining_row_eq && is_other_row_eq)
+        if (other_row_idx == remaining_row_idx)
         {
-            // swap(remaining_row, other_row)
-            int temp = remaining_row_idx;
-            remaining_row_idx = other_row_idx;
-            other_row_idx = temp;
-
-            is_remaining_row_eq = true;
-            is_other_row_eq = false;
-            remaining_row_new_rhs = rhs[remaining_row_idx];
-            remaining_row_new_lhs = lhs[remaining_row_idx];
-            remaining_row_coeff = A->x[A->p[remaining_row_idx].start];
+            continue;
         }
 
+        bool is_other_row_eq = HAS_TAG(row_tags[other_row_idx], R_TAG_EQ);
+
         assert(!(is_other_row_eq && !is_remaining_row_eq));
 
         other_row_coeff = A->x[A->p[other_row_idx].start];
-- 
2.43.0


From 6f5d10695ecfb0778953c695c524c2809b3c4681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:10 +0000
Subject: [PATCH 05/27] fix: use the feasibility tolerance when comparing an
 inequality with a parallel equality

---
 src/explorers/Parallel_rows.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/explorers/Parallel_rows.c b/src/explorers/Parallel_rows.c
index a1e65e7..7c0ce28 100644
--- a/src/explorers/Parallel_rows.c
+++ b/src/explorers/Parallel_rows.c
@@ -445,12 +445,16 @@ static inline PresolveStatus process_single_bin(const Constraints *constraints,
         {
             bool infeas_rhs =
                 !is_rhs_inf_other_row &&
-                ((ratio > 0 && remaining_row_new_rhs > other_row_rhs_scaled) ||
-                 (ratio < 0 && remaining_row_new_rhs < other_row_rhs_scaled));
+                ((ratio > 0 &&
+                  IS_GT_FEAS_TOL(remaining_row_new_rhs, other_row_rhs_scaled)) ||
+                 (ratio < 0 &&
+                  IS_LT_FEAS_TOL(remaining_row_new_rhs, other_row_rhs_scaled)));
             bool infeas_lhs =
                 !is_lhs_inf_other_row &&
-                ((ratio > 0 && remaining_row_new_rhs < other_row_lhs_scaled) ||
-                 (ratio < 0 && remaining_row_new_rhs > other_row_lhs_scaled));
+                ((ratio > 0 &&
+                  IS_LT_FEAS_TOL(remaining_row_new_rhs, other_row_lhs_scaled)) ||
+                 (ratio < 0 &&
+                  IS_GT_FEAS_TOL(remaining_row_new_rhs, other_row_lhs_scaled)));
 
             if (infeas_rhs || infeas_lhs)
             {
-- 
2.43.0


From ce3263e591d8d6aab20a93fa01a773279e144c76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:45 +0000
Subject: [PATCH 06/27] fix: postsolve a merged parallel column with the bound
 tags it had before the merge

---
 src/explorers/Parallel_cols.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/explorers/Parallel_cols.c b/src/explorers/Parallel_cols.c
index 717b72e..775a350 100644
--- a/src/explorers/Parallel_cols.c
+++ b/src/explorers/Parallel_cols.c
@@ -53,6 +53,7 @@ static inline PresolveStatus process_single_bin(const Problem *prob, const int *
     const int *aj_cols;
     double ratio, cj, ck, ak0, lb_j_old, ub_j_old;
     const double *aj_vals;
+    ColTag col_tag_j_old;
 
     for (ii = 0; ii < bin_size - 1; ++ii)
     {
@@ -97,6 +98,7 @@ static inline PresolveStatus process_single_bin(const Problem *prob, const int *
                 // ---------------------------------------------------------------------
                 lb_j_old = bounds[j].lb;
                 ub_j_old = bounds[j].ub;
+                col_tag_j_old = col_tags[j];
                 if (ratio > 0)
                 {
                     // update lb
@@ -162,7 +164,7 @@ static inline PresolveStatus process_single_bin(const Problem *prob, const int *
                 set_col_to_substituted(k, col_tags + k, sub_cols_to_delete);
                 save_retrieval_parallel_col(postsolve_info, ub_j_old, lb_j_old,
                                             bounds[k].lb, bounds[k].ub, ratio, j, k,
-                                            col_tags[j], col_tags[k]);
+                                            col_tag_j_old, col_tags[k]);
             }
             else
             {
-- 
2.43.0


From be39d99c8058fb9639728ff109a7e764ba83a125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:45 +0000
Subject: [PATCH 07/27] fix: account for fixed variables when postsolving a
 variable fixed to infinity

---
 src/core/Postsolver.c | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/core/Postsolver.c b/src/core/Postsolver.c
index 6e4bc03..6a50c6c 100644
--- a/src/core/Postsolver.c
+++ b/src/core/Postsolver.c
@@ -684,9 +684,11 @@ void save_retrieval_fixed_col_inf(PostsolveInfo *info, int col, int pos_inf,
                                   const Constraints *constraints, double bound)
 {
     assert(pos_inf == 1 || pos_inf == -1);
-    int i, row;
+    int i, j, row;
     const Matrix *AT = constraints->AT;
     const Matrix *A = constraints->A;
+    const ColTag *col_tags = constraints->col_tags;
+    const Bound *bounds = constraints->bounds;
     int *row_sizes = constraints->state->row_sizes;
     double *lhs = constraints->lhs;
     double *rhs = constraints->rhs;
@@ -705,7 +707,20 @@ void save_retrieval_fixed_col_inf(PostsolveInfo *info, int col, int pos_inf,
     for (i = 0; i < n_rows; ++i)
     {
         row = rows[i];
+
+        // columns that already have been fixed are still stored in the row, and
+        // they are retrieved after this column, so the side of the row must
+        // account for them here
         side = (HAS_TAG(row_tags[row], R_TAG_LHS_INF)) ? rhs[row] : lhs[row];
+        for (j = A->p[row].start; j < A->p[row].start + row_sizes[row]; ++j)
+        {
+            if (HAS_TAG(col_tags[A->i[j]], C_TAG_FIXED) &&
+                !IS_ABS_INF(bounds[A->i[j]].lb))
+            {
+                side -= A->x[j] * bounds[A->i[j]].lb;
+            }
+        }
+
         dVec_append(info->vals, side);
         dVec_append_array(info->vals, A->x + A->p[row].start,
                           (size_t) row_sizes[row]);
-- 
2.43.0


From 58f6eb5cb48e2b0f936d70a49dea868391420adc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:08 +0000
Subject: [PATCH 08/27] fix: postsolve a variable fixed to infinity that
 appears in free rows

---
 src/core/Postsolver.c | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/core/Postsolver.c b/src/core/Postsolver.c
index 6a50c6c..ef0c994 100644
--- a/src/core/Postsolver.c
+++ b/src/core/Postsolver.c
@@ -210,7 +210,12 @@ static void retrieve_fix_col_inf(Solution *sol, const int *indices,
         }
     }
 
-    assert(!IS_ABS_INF(extreme_val));
+    // a free column that only appears in free rows can take any value
+    if (IS_ABS_INF(extreme_val))
+    {
+        extreme_val = 0.0;
+    }
+
     sol->x[col] = extreme_val;
     sol->z[col] = 0.0;
 }
@@ -694,6 +699,7 @@ void save_retrieval_fixed_col_inf(PostsolveInfo *info, int col, int pos_inf,
     double *rhs = constraints->rhs;
     RowTag *row_tags = constraints->row_tags;
     double side;
+    size_t n_rows_idx;
 
     int *rows = AT->i + AT->p[col].start;
     int n_rows = AT->p[col].end - constraints->AT->p[col].start;
@@ -701,6 +707,7 @@ void save_retrieval_fixed_col_inf(PostsolveInfo *info, int col, int pos_inf,
     u16Vec_append(info->type, FIXED_COL_INF);
     iVec_append(info->indices, pos_inf);
     iVec_append(info->indices, col);
+    n_rows_idx = info->vals->len;
     dVec_append(info->vals, (double) n_rows);
     dVec_append(info->vals, bound);
 
@@ -708,6 +715,14 @@ void save_retrieval_fixed_col_inf(PostsolveInfo *info, int col, int pos_inf,
     {
         row = rows[i];
 
+        // a free row does not restrict the column
+        if (HAS_TAG(row_tags[row], R_TAG_LHS_INF) &&
+            HAS_TAG(row_tags[row], R_TAG_RHS_INF))
+        {
+            info->vals->data[n_rows_idx] -= 1.0;
+            continue;
+        }
+
         // columns that already have been fixed are still stored in the row, and
         // they are retrieved after this column, so the side of the row must
         // account for them here
-- 
2.43.0


From ac70b5c76aef7be6a510ef901965031a1e737028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:01 +0000
Subject: [PATCH 09/27] fix: move the multiplier of an implied bound to the row
 that became an equality

---
 src/explorers/StonCols.c | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/src/explorers/StonCols.c b/src/explorers/StonCols.c
index 5f07098..3e910f6 100644
--- a/src/explorers/StonCols.c
+++ b/src/explorers/StonCols.c
@@ -373,6 +373,25 @@ static void fix_col_ston(double val, double Aik, RowView *row, ColView *col,
                              &row->i, 1);
 }
 
+/* When an inequality is turned into an equality because the bound of a column
+   singleton is implied by the row, the multiplier of that bound must be moved
+   to the row in the dual postsolve. */
+static inline void save_retrieval_implied_bound(const RowView *row,
+                                                const ColView *col, bool is_lb,
+                                                PostsolveInfo *postsolve_info)
+{
+    if (HAS_TAG(*col->tag, is_lb ? C_TAG_LB_INF : C_TAG_UB_INF))
+    {
+        return;
+    }
+
+    save_retrieval_bound_change_no_row(postsolve_info, col->k,
+                                       is_lb ? *col->lb : *col->ub,
+                                       is_lb ? *col->ub : *col->lb, !is_lb);
+    save_retrieval_bound_change_the_row(postsolve_info, row->i, row->cols, row->vals,
+                                        (size_t) *row->len, 1);
+}
+
 static inline PresolveStatus
 process_colston_ineq(RowView *row, ColView *col, Objective *obj, double Aik,
                      bool impl_free_from_above, bool impl_free_from_below,
@@ -502,6 +521,10 @@ process_colston_ineq(RowView *row, ColView *col, Objective *obj, double Aik,
         *row->lhs = *row->rhs;
         RESET_TAG(*row->tag, R_TAG_EQ);
 
+        // dual postsolve: if xk ends up at a bound that only is implied by
+        // the row, its multiplier belongs to the row
+        save_retrieval_implied_bound(row, col, ck > 0, postsolve_info);
+
         if (*row->len == 2)
         {
             assert(!iVec_contains(dton_rows, row->i));
@@ -528,6 +551,10 @@ process_colston_ineq(RowView *row, ColView *col, Objective *obj, double Aik,
         *row->rhs = *row->lhs;
         RESET_TAG(*row->tag, R_TAG_EQ);
 
+        // dual postsolve: if xk ends up at a bound that only is implied by
+        // the row, its multiplier belongs to the row
+        save_retrieval_implied_bound(row, col, ck > 0, postsolve_info);
+
         if (*row->len == 2)
         {
             assert(!iVec_contains(dton_rows, row->i));
-- 
2.43.0


From a516b8e79f684609f76c74c7760cf65762f6f0a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:25 +0000
Subject: [PATCH 10/27] fix: fix variables with close bounds only if their rows
 do not notice

Bounds derived by propagation carry a margin, so two bounds that describe
the same value can be 1e-6 apart. Fixing the variable to one of them moved
the activity of its rows by up to |a|*1e-6, and with |a| > 1 a feasible
problem was declared infeasible. Use the test that propagation itself uses.
---
 src/explorers/SimpleReductions.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/explorers/SimpleReductions.c b/src/explorers/SimpleReductions.c
index a23c711..283b9b6 100644
--- a/src/explorers/SimpleReductions.c
+++ b/src/explorers/SimpleReductions.c
@@ -29,6 +29,7 @@
 #include "Problem.h"
 #include "RowColViews.h"
 #include "State.h"
+#include "utils.h"
 
 void delete_fixed_cols_from_problem(Problem *prob)
 {
@@ -678,6 +679,7 @@ PresolveStatus remove_variables_with_close_bounds(Problem *prob)
     const ColTag *col_tags = constraints->col_tags;
     size_t n_cols = constraints->n;
     const int *col_sizes = constraints->state->col_sizes;
+    const Matrix *AT = constraints->AT;
 
     for (size_t ii = 0; ii < n_cols; ++ii)
     {
@@ -691,8 +693,13 @@ PresolveStatus remove_variables_with_close_bounds(Problem *prob)
 
         if (IS_EQUAL_FEAS_TOL(bounds[ii].lb, bounds[ii].ub))
         {
-            // an empty column is fixed (once) by remove_empty_cols
-            if (col_sizes[ii] > 0)
+            // an empty column is fixed (once) by remove_empty_cols, and fixing
+            // a column must not move the activity of its rows noticeably
+            if (col_sizes[ii] > 0 &&
+                (bounds[ii].ub - bounds[ii].lb) *
+                        get_max_abs(AT->x + AT->p[ii].start,
+                                    (size_t) col_sizes[ii]) <=
+                    FEAS_TOL)
             {
                 // no need to check return value since bounds are equal
                 fix_col(constraints, (int) ii, bounds[ii].lb, c[ii]);
-- 
2.43.0


From 6e32559429c4eb315c374928b1c676fad12aa231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:17 +0000
Subject: [PATCH 11/27] fix: do not leave rounding residue in the objective
 after a substitution

When the coefficients cancel, the residue (about 1e-16) was taken for a
non-zero cost, and a free column without rows made the presolver declare a
feasible bounded problem unbounded or infeasible.
---
 include/core/Problem.h  | 5 +++++
 src/core/Problem.c      | 9 ++++++++-
 src/explorers/DtonsEq.c | 2 +-
 3 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/include/core/Problem.h b/include/core/Problem.h
index ccc027e..3088bbc 100644
--- a/include/core/Problem.h
+++ b/include/core/Problem.h
@@ -51,6 +51,11 @@ void free_objective(Objective *obj);
 /* Updates the offset when a variable is fixed */
 void fix_var_in_obj(Objective *obj, int col, double value);
 
+/* Returns c - change, or exactly 0 if the two cancel up to rounding. The sign
+   of an objective coefficient decides dual fixing and unboundedness, so a
+   rounding residue must not be mistaken for a coefficient. */
+double sub_from_obj_coeff(double c, double change);
+
 /* Substitutes variable 'k' from the objective using row 'i'
    (assumed to be an equality). Row 'i' is specified by
    (vals, cols, len, rhs) */
diff --git a/src/core/Problem.c b/src/core/Problem.c
index f9e792c..57160d8 100644
--- a/src/core/Problem.c
+++ b/src/core/Problem.c
@@ -20,6 +20,7 @@
 #include "Constraints.h"
 #include "Matrix.h"
 #include "Memory_wrapper.h"
+#include "Numerics.h"
 #include "State.h"
 #include "Workspace.h"
 #include "utils.h"
@@ -92,6 +93,12 @@ void problem_clean(Problem *prob, bool remove_all)
     objective_shrink(prob->obj->c, maps->cols, n_cols_old);
 }
 
+double sub_from_obj_coeff(double c, double change)
+{
+    double new_c = c - change;
+    return (ABS(new_c) <= ZERO_TOL * ABS(change)) ? 0.0 : new_c;
+}
+
 void sub_var_in_obj(Objective *obj, const double *vals, const int *cols, int len,
                     int k, double aik, double rhs)
 {
@@ -103,7 +110,7 @@ void sub_var_in_obj(Objective *obj, const double *vals, const int *cols, int len
     double ratio = obj->c[k] / aik;
     for (int i = 0; i < len; ++i)
     {
-        obj->c[cols[i]] -= ratio * vals[i];
+        obj->c[cols[i]] = sub_from_obj_coeff(obj->c[cols[i]], ratio * vals[i]);
     }
 
     obj->offset += rhs * ratio;
diff --git a/src/explorers/DtonsEq.c b/src/explorers/DtonsEq.c
index 22fe339..dcf347b 100644
--- a/src/explorers/DtonsEq.c
+++ b/src/explorers/DtonsEq.c
@@ -378,7 +378,7 @@ static inline
 static inline void subst_col_in_obj_dton(Objective *obj, int stay, int subst,
                                          double aik, double aij, double rhs)
 {
-    obj->c[stay] -= (aij / aik) * obj->c[subst];
+    obj->c[stay] = sub_from_obj_coeff(obj->c[stay], (aij / aik) * obj->c[subst]);
     obj->offset += (rhs / aik) * obj->c[subst];
 }
 
-- 
2.43.0


From 7bc525f8a8685b6a4193a52505a7a1151407e1ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:13 +0000
Subject: [PATCH 12/27] fix: split the reduced cost of a merged parallel column
 without a bound test

The merged value can violate a bound by a few 1e-6 (bounds derived by
propagation carry a margin). The variable was then not recognised as being at
its bound and the reduced cost of its parallel partner was lost.
---
 src/core/Postsolver.c | 20 ++++----------------
 1 file changed, 4 insertions(+), 16 deletions(-)

diff --git a/src/core/Postsolver.c b/src/core/Postsolver.c
index ef0c994..0092a0b 100644
--- a/src/core/Postsolver.c
+++ b/src/core/Postsolver.c
@@ -274,22 +274,10 @@ static void retrieve_parallel_col(Solution *sol, const int *indices,
     sol->x[j] = xj_val;
     sol->x[k] = xk_val;
 
-    // dual postsolve
-    bool is_xj_at_bound =
-        (!HAS_TAG(cTag_j, C_TAG_LB_INF) && IS_EQUAL_FEAS_TOL(xj_val, lb_j)) ||
-        (!HAS_TAG(cTag_j, C_TAG_UB_INF) && IS_EQUAL_FEAS_TOL(xj_val, ub_j));
-    bool is_xk_at_bound =
-        (!HAS_TAG(cTag_k, C_TAG_LB_INF) && IS_EQUAL_FEAS_TOL(xk_val, lb_k)) ||
-        (!HAS_TAG(cTag_k, C_TAG_UB_INF) && IS_EQUAL_FEAS_TOL(xk_val, ub_k));
-
-    if (is_xj_at_bound && is_xk_at_bound)
-    {
-        sol->z[k] = ratio * sol->z[j];
-    }
-    else
-    {
-        sol->z[k] = 0.0;
-    }
+    // dual postsolve: both the columns and their costs are parallel, so the
+    // reduced costs are parallel too. (If one of the variables is strictly between
+    // its bounds, then so was the merged variable and z[j] is zero.)
+    sol->z[k] = ratio * sol->z[j];
 
 #ifndef NDEBUG
     SET_ZERO_IF_SMALL_DUAL_POSTSOLVE(sol->z[j]);
-- 
2.43.0


From d5635922d6d4c47b44fa5efe03b9c5b88fe4928c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:38 +0000
Subject: [PATCH 13/27] fix: recognise an active implied bound despite small
 primal errors

With a variable 2e-6 away from the bound, the multiplier stayed on the
variable although only a row supports it (the variable may even be free), and
the postsolved dual solution was not dual feasible.
---
 include/core/Numerics.h |  1 +
 src/core/Postsolver.c   | 12 ++++++++++--
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/include/core/Numerics.h b/include/core/Numerics.h
index 215fcce..6787f64 100644
--- a/include/core/Numerics.h
+++ b/include/core/Numerics.h
@@ -25,6 +25,7 @@
 #define BOUND_MARGINAL 0.5 * FEAS_TOL
 #define ZERO_TOL 1e-10
 #define ZERO_TOL_DUAL_POSTSOLVE 1e-6
+#define IMPLIED_BOUND_TOL_DUAL_POSTSOLVE 1e-4
 #define HUGE_VAL_PS 1e7
 
 // used for model clean up according to Gurobi paper
diff --git a/src/core/Postsolver.c b/src/core/Postsolver.c
index 0092a0b..ee8312a 100644
--- a/src/core/Postsolver.c
+++ b/src/core/Postsolver.c
@@ -362,8 +362,16 @@ void retrieve_bound_change(Solution *sol, int i, int j, const int *cols,
         }
     }
 
-    // if the implied bound is not active we do nothing
-    if (!IS_EQUAL_FEAS_TOL(sol->x[j], implied_bound))
+    // if the implied bound is not active we do nothing. Errors of other reductions
+    // may have moved the variable slightly away from the bound; if the sign of its
+    // multiplier says that the bound is active we accept that.
+    bool sign_of_implied_bound =
+        is_original_other_bound_lower_bound ? (sol->z[j] < 0) : (sol->z[j] > 0);
+    double diff = ABS(sol->x[j] - implied_bound);
+
+    if (diff > FEAS_TOL &&
+        !(sign_of_implied_bound &&
+          diff <= IMPLIED_BOUND_TOL_DUAL_POSTSOLVE * MAX(1.0, ABS(implied_bound))))
     {
         // sol->y[i] does not always have to be zero since we possibly got the
         // bound from a doubleton equality row assert(sol->y[i] == 0.0);
-- 
2.43.0


From 38e40d567a0a8b355f185ebb3e60a8d54b89d023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:34 +0000
Subject: [PATCH 14/27] fix: return NULL from new_presolver when any of its
 allocations fails

As documented in PSLP_API.h. Unchecked allocations, blocks owned twice during
the clean-up and members that were never initialised made the constructor
crash, free blocks twice, leak or return a half-built presolver, and a thread
that could not be created was joined.
---
 include/data_structures/Vec_macros.h |  1 +
 src/core/Postsolver.c                |  7 +---
 src/core/Presolver.c                 | 56 +++++++++++++++++++++-------
 src/core/State.c                     |  7 ++--
 src/core/Workspace.c                 | 21 ++++++++---
 5 files changed, 64 insertions(+), 28 deletions(-)

diff --git a/include/data_structures/Vec_macros.h b/include/data_structures/Vec_macros.h
index f71b6ed..e04ae05 100644
--- a/include/data_structures/Vec_macros.h
+++ b/include/data_structures/Vec_macros.h
@@ -62,6 +62,7 @@
                                                                                     \
     static inline void TYPE_NAME##Vec_free(TYPE_NAME##Vec *vec)                     \
     {                                                                               \
+        RETURN_IF_NULL(vec);                                                        \
         PS_FREE(vec->data);                                                         \
         PS_FREE(vec);                                                               \
     }                                                                               \
diff --git a/src/core/Postsolver.c b/src/core/Postsolver.c
index ee8312a..1e9c89a 100644
--- a/src/core/Postsolver.c
+++ b/src/core/Postsolver.c
@@ -38,6 +38,7 @@
 PostsolveInfo *postsolve_info_new(size_t n_rows, size_t n_cols)
 {
     PostsolveInfo *info = (PostsolveInfo *) ps_malloc(1, sizeof(PostsolveInfo));
+    RETURN_PTR_IF_NULL(info, NULL);
 
     size_t init_size;
 
@@ -55,11 +56,7 @@ PostsolveInfo *postsolve_info_new(size_t n_rows, size_t n_cols)
     info->type = u16Vec_new(init_size);
     if (!info->starts || !info->indices || !info->vals || !info->type)
     {
-        PS_FREE(info->starts);
-        PS_FREE(info->indices);
-        PS_FREE(info->vals);
-        PS_FREE(info->type);
-        PS_FREE(info);
+        postsolve_info_free(info);
         return NULL;
     }
 
diff --git a/src/core/Presolver.c b/src/core/Presolver.c
index be391df..99e3b03 100644
--- a/src/core/Presolver.c
+++ b/src/core/Presolver.c
@@ -63,6 +63,7 @@ enum Complexity
 PresolveStats *init_stats(size_t n_rows, size_t n_cols, size_t nnz)
 {
     PresolveStats *stats = (PresolveStats *) ps_calloc(1, sizeof(PresolveStats));
+    RETURN_PTR_IF_NULL(stats, NULL);
     stats->n_rows_original = n_rows;
     stats->n_cols_original = n_cols;
     stats->nnz_original = nnz;
@@ -118,6 +119,7 @@ static void *init_thread_func(void *arg)
     ParallelInitData *data = (ParallelInitData *) arg;
 
     data->row_tags = new_rowtags(data->lhs_copy, data->rhs_copy, data->n_rows);
+    RETURN_PTR_IF_NULL(data->row_tags, NULL);
 
     for (int i = 0; i < data->n_cols; i++)
     {
@@ -274,25 +276,30 @@ Presolver *new_presolver(const double *Ax, const int *Ai, const int *Ap, size_t
                                       ubs,  lhs_copy, rhs_copy, bounds,   col_tags,
                                       NULL, NULL,     NULL,     row_sizes};
 
-    ps_thread_create(&thread_id, NULL, init_thread_func, &parallel_data);
+    bool has_thread =
+        ps_thread_create(&thread_id, NULL, init_thread_func, &parallel_data) == 0;
 
     // Main thread: Transpose A and count rows
     AT = transpose(A, work->iwork_n_cols);
-    if (!AT)
+    if (AT)
     {
-        ps_thread_join(&thread_id, NULL);
-        goto cleanup;
+        count_rows(AT, col_sizes);
     }
-    count_rows(AT, col_sizes);
 
-    // sync threads
-    ps_thread_join(&thread_id, NULL);
+    // sync threads (or do the work of the second thread if there is none)
+    if (has_thread)
+    {
+        ps_thread_join(&thread_id, NULL);
+    }
+    else
+    {
+        init_thread_func(&parallel_data);
+    }
 
     row_tags = parallel_data.row_tags;
-    if (!row_tags) goto cleanup;
     locks = parallel_data.locks;
     activities = parallel_data.activities;
-    if (!locks || !activities) goto cleanup;
+    if (!AT || !row_tags || !locks || !activities) goto cleanup;
 
     // ---------------------------------------------------------------------------
     //  Initialize internal data and constraints
@@ -305,24 +312,45 @@ Presolver *new_presolver(const double *Ax, const int *Ai, const int *Ap, size_t
         constraints_new(A, AT, lhs_copy, rhs_copy, bounds, data, row_tags, col_tags);
     if (!constraints) goto cleanup;
 
+    // the constraints own these now
+    A = AT = NULL;
+    lhs_copy = rhs_copy = NULL;
+    bounds = NULL;
+    row_tags = NULL;
+    col_tags = NULL;
+
     // ---------------------------------------------------------------------------
     //             Allocate the actual presolver
     // ---------------------------------------------------------------------------
-    presolver = (Presolver *) ps_malloc(1, sizeof(Presolver));
+    presolver = (Presolver *) ps_calloc(1, sizeof(Presolver));
+    if (!presolver) goto cleanup;
     obj = objective_new(c_copy);
-    if (!presolver || !obj) goto cleanup;
+    if (!obj) goto cleanup;
+    c_copy = NULL; // owned by obj
     presolver->stgs = stgs;
     presolver->prob = new_problem(constraints, obj);
-    presolver->stats = init_stats(A->m, A->n, nnz);
+    if (!presolver->prob) goto cleanup;
+
+    // the problem owns these now
+    constraints = NULL;
+    obj = NULL;
+    data = NULL;
+    work = NULL;
+    locks = NULL;
+    activities = NULL;
+    row_sizes = col_sizes = NULL;
+
+    presolver->stats = init_stats(n_rows, n_cols, nnz);
     // presolver->stats->nnz_removed_trivial = nnz - A->nnz; due to clean_small_coeff
     presolver->reduced_prob =
         (PresolvedProblem *) ps_calloc(1, sizeof(PresolvedProblem));
-    DEBUG(run_debugger(constraints, false));
+    if (!presolver->stats || !presolver->reduced_prob) goto cleanup;
+    DEBUG(run_debugger(presolver->prob->constraints, false));
 
     // ---------------------------------------------------------------------------
     //           Allocate space for returning the solution
     // ---------------------------------------------------------------------------
-    presolver->sol = (Solution *) ps_malloc(1, sizeof(Solution));
+    presolver->sol = (Solution *) ps_calloc(1, sizeof(Solution));
     if (!presolver->sol) goto cleanup;
     presolver->sol->x = (double *) ps_malloc(n_cols, sizeof(double));
     presolver->sol->y = (double *) ps_malloc(n_rows, sizeof(double));
diff --git a/src/core/State.c b/src/core/State.c
index 408cca5..3ef4339 100644
--- a/src/core/State.c
+++ b/src/core/State.c
@@ -48,7 +48,7 @@ State *new_state(int *row_sizes, int *col_sizes, Lock *col_locks, size_t n_rows,
                  size_t n_cols, Activity *activities, Work *work,
                  const RowTag *row_tags)
 {
-    State *data = (State *) ps_malloc(1, sizeof(State));
+    State *data = (State *) ps_calloc(1, sizeof(State));
     RETURN_PTR_IF_NULL(data, NULL);
     data->col_locks = col_locks;
     data->row_sizes = row_sizes;
@@ -88,8 +88,9 @@ State *new_state(int *row_sizes, int *col_sizes, Lock *col_locks, size_t n_rows,
     data->postsolve_info = postsolve_info_new(n_rows, n_cols);
 
     if (!data->ston_rows || !data->ston_cols || !data->dton_rows ||
-        !data->empty_cols || !data->empty_rows || !data->fixed_cols_to_delete ||
-        !data->sub_cols_to_delete || !data->rows_to_delete || !data->postsolve_info)
+        !data->empty_cols || !data->empty_rows || !data->updated_activities ||
+        !data->fixed_cols_to_delete || !data->sub_cols_to_delete ||
+        !data->rows_to_delete || !data->postsolve_info)
     {
         free_state(data);
         return NULL;
diff --git a/src/core/Workspace.c b/src/core/Workspace.c
index ffd3d46..a420a48 100644
--- a/src/core/Workspace.c
+++ b/src/core/Workspace.c
@@ -25,7 +25,7 @@
 
 Work *new_work(size_t n_rows, size_t n_cols)
 {
-    Work *work = (Work *) ps_malloc(1, sizeof(Work));
+    Work *work = (Work *) ps_calloc(1, sizeof(Work));
     RETURN_PTR_IF_NULL(work, NULL);
 
     work->iwork_n_cols = (int *) ps_calloc(n_cols, sizeof(int));
@@ -35,9 +35,13 @@ Work *new_work(size_t n_rows, size_t n_cols)
     work->iwork2_max_nrows_ncols =
         (int *) ps_calloc(MAX(n_rows, n_cols), sizeof(int));
     work->int_vec = iVec_new(INT_VEC_INITIALIZATION);
-    work->mappings = (Mapping *) ps_malloc(1, sizeof(Mapping));
-    work->mappings->cols = (int *) ps_malloc(n_cols, sizeof(int));
-    work->mappings->rows = (int *) ps_malloc(n_rows, sizeof(int));
+    work->mappings = (Mapping *) ps_calloc(1, sizeof(Mapping));
+
+    if (work->mappings)
+    {
+        work->mappings->cols = (int *) ps_malloc(n_cols, sizeof(int));
+        work->mappings->rows = (int *) ps_malloc(n_rows, sizeof(int));
+    }
 
     if (!work->iwork_n_cols || !work->iwork_n_rows ||
         !work->iwork1_max_nrows_ncols || !work->iwork2_max_nrows_ncols ||
@@ -63,8 +67,13 @@ void free_work(Work *work)
     PS_FREE(work->iwork1_max_nrows_ncols);
     PS_FREE(work->iwork2_max_nrows_ncols);
     iVec_free(work->int_vec);
-    PS_FREE(work->mappings->cols);
-    PS_FREE(work->mappings->rows);
+
+    if (work->mappings)
+    {
+        PS_FREE(work->mappings->cols);
+        PS_FREE(work->mappings->rows);
+    }
+
     PS_FREE(work->mappings);
     PS_FREE(work);
 }
-- 
2.43.0


From 1703e5d5b9f20f242141b1cdc00a7f42e1a41e4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:46 +0000
Subject: [PATCH 15/27] fix: do not grow vectors while building the initial
 state

Growing can fail, and a vector that can not grow terminates the program, while
new_presolver promises to return NULL when an allocation fails.
---
 src/core/State.c | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/src/core/State.c b/src/core/State.c
index 3ef4339..7a8f848 100644
--- a/src/core/State.c
+++ b/src/core/State.c
@@ -73,6 +73,33 @@ State *new_state(int *row_sizes, int *col_sizes, Lock *col_locks, size_t n_rows,
     /* enable conversion compiler warnings */
     PSLP_DIAG_POP();
 
+    // the vectors that are filled below must have space for the initial entries
+    // (a vector that can not grow terminates the program)
+    size_t n_ston_rows = 0, n_dton_rows = 0, n_empty_rows = 0, n_updated_acts = 0;
+    size_t n_ston_cols = 0, n_empty_cols = 0;
+
+    for (size_t i = 0; i < n_rows; ++i)
+    {
+        n_empty_rows += (row_sizes[i] == 0);
+        n_ston_rows += (row_sizes[i] == 1);
+        n_dton_rows += (row_sizes[i] == 2);
+        n_updated_acts +=
+            (activities[i].n_inf_min == 0 || activities[i].n_inf_max == 0);
+    }
+
+    for (size_t i = 0; i < n_cols; ++i)
+    {
+        n_empty_cols += (col_sizes[i] == 0);
+        n_ston_cols += (col_sizes[i] == 1);
+    }
+
+    len_ston_rows = MAX(len_ston_rows, n_ston_rows);
+    len_ston_cols = MAX(len_ston_cols, n_ston_cols);
+    len_dton_rows = MAX(len_dton_rows, n_dton_rows);
+    len_empty_rows = MAX(len_empty_rows, n_empty_rows);
+    len_updated_act = MAX(len_updated_act, n_updated_acts);
+    len_empty_cols = MAX(len_empty_cols, n_empty_cols);
+
     // --------------------------------------------------------------------------
     //                    allocate a bunch of vectors
     // --------------------------------------------------------------------------
-- 
2.43.0


From 81010ce90f4885e708bf561e6fdebe8dd401c1e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:09 +0000
Subject: [PATCH 16/27] fix: do not read past the end of the caller's row
 pointers

The copy of the matrix read Ap[m + 1], one element past the array.
---
 src/core/Matrix.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/core/Matrix.c b/src/core/Matrix.c
index 3736b02..589fd1d 100644
--- a/src/core/Matrix.c
+++ b/src/core/Matrix.c
@@ -107,12 +107,15 @@ Matrix *matrix_new_no_extra_space(const double *Ax, const int *Ai, const int *Ap
     memcpy(A->x, Ax, nnz * sizeof(double));
     memcpy(A->i, Ai, nnz * sizeof(int));
 
-    for (int i = 0; i <= n_rows; ++i)
+    for (size_t i = 0; i < n_rows; ++i)
     {
         A->p[i].start = Ap[i];
         A->p[i].end = Ap[i + 1];
     }
 
+    A->p[n_rows].start = Ap[n_rows];
+    A->p[n_rows].end = Ap[n_rows];
+
     return A;
 }
 
-- 
2.43.0


From 0bc8b1866f2a822953c6e6c387201d54e7abda27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:51 +0000
Subject: [PATCH 17/27] fix: do not read past the end of a row when removing a
 coefficient

---
 src/core/Matrix.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/core/Matrix.c b/src/core/Matrix.c
index 589fd1d..d4fdc3f 100644
--- a/src/core/Matrix.c
+++ b/src/core/Matrix.c
@@ -522,8 +522,13 @@ void remove_coeff(RowView *row, int col)
             shift = 1;
         }
 
-        row->vals[i] = row->vals[i + shift];
-        row->cols[i] = row->cols[i + shift];
+        // there is nothing to shift into the last position (and the entry after
+        // it may lie outside the matrix)
+        if (i + shift < len)
+        {
+            row->vals[i] = row->vals[i + shift];
+            row->cols[i] = row->cols[i + shift];
+        }
     }
 
     assert(shift != 0);
-- 
2.43.0


From 426b8c6aa1105130cbb805d83e97b166f3a806ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:40 +0000
Subject: [PATCH 18/27] fix: compare the costs of parallel columns relative to
 their magnitude

With small coefficients, columns whose costs differ by much more than the
rounding error were merged, which changed the optimal value.
---
 src/explorers/Parallel_cols.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/explorers/Parallel_cols.c b/src/explorers/Parallel_cols.c
index 775a350..8a031a0 100644
--- a/src/explorers/Parallel_cols.c
+++ b/src/explorers/Parallel_cols.c
@@ -32,6 +32,14 @@
 #include "Tags.h"
 #include "Workspace.h"
 
+/* Two parallel columns can be merged if their costs are parallel too. The
+   comparison must be relative: the coefficients and costs can be small. */
+static inline bool has_parallel_cost(double ck, double scaled_cj)
+{
+    double tol = MAX(ZERO_TOL, FEAS_TOL * MAX(ABS(ck), ABS(scaled_cj)));
+    return ABS(ck - scaled_cj) <= tol;
+}
+
 static inline PresolveStatus process_single_bin(const Problem *prob, const int *bin,
                                                 int bin_size)
 {
@@ -87,7 +95,7 @@ static inline PresolveStatus process_single_bin(const Problem *prob, const int *
             // if column j and column k are parallel, remove column k
             // if you run into issues with parallel cols activated, try to
             // change this
-            if (IS_EQUAL_FEAS_TOL(ck * aj_vals[0], cj * ak0))
+            if (has_parallel_cost(ck, ratio * cj))
             {
                 // mark that we must recount n_infs for rows in which column j
                 // appears in
-- 
2.43.0


From 964add3a9f27925661cd32dcae2d690705af3515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:16 +0000
Subject: [PATCH 19/27] fix: keep rows intact when a substitution would insert
 a negligible coefficient

---
 src/core/Matrix.c       |  9 +++------
 src/explorers/DtonsEq.c | 23 +++++++++++++++--------
 2 files changed, 18 insertions(+), 14 deletions(-)

diff --git a/src/core/Matrix.c b/src/core/Matrix.c
index d4fdc3f..0e905fe 100644
--- a/src/core/Matrix.c
+++ b/src/core/Matrix.c
@@ -487,13 +487,10 @@ double insert_or_update_coeff(Matrix *A, int row, int col, double val, int *row_
             *row_size += 1;
         }
     }
-    // if the new value is zero, we just have to shift
-    else
+    // if the new value is zero, we just have to shift (there is nothing to do
+    // if the coefficient does not exist)
+    else if (insertion != end && A->i[insertion] == col)
     {
-        // we only expect that the new value is zero if the coefficient
-        // already exists
-        assert(A->i[insertion] == col);
-
         // we only have to shift values if the zero is not in the end
         if (insertion != end - 1)
         {
diff --git a/src/explorers/DtonsEq.c b/src/explorers/DtonsEq.c
index dcf347b..b0f4690 100644
--- a/src/explorers/DtonsEq.c
+++ b/src/explorers/DtonsEq.c
@@ -291,6 +291,10 @@ static inline
     }
 
     double new_val = old_val - (aij / aik) * A->x[subst_idx];
+    if (ABS(new_val) <= ZERO_TOL)
+    {
+        new_val = 0.0;
+    }
     Old_and_new_coeff old_and_new_coeff;
     old_and_new_coeff.old_coeff_stay = old_val;
     old_and_new_coeff.old_coeff_subst = A->x[subst_idx];
@@ -324,16 +328,19 @@ static inline
     insertion -= (subst_idx < insertion);
 
     // -------------------------------------------------------------------
-    // if we get unexpected cancellation we should remove the coefficient,
-    // otherwise we insert it
+    // if we get unexpected cancellation we should remove the coefficient (if
+    // it exists), otherwise we insert it
     // -------------------------------------------------------------------
-    if (ABS(new_val) <= ZERO_TOL)
+    if (new_val == 0.0)
     {
-        len = (size_t) (end - insertion - 1);
-        memmove(A->x + insertion, A->x + insertion + 1, len * sizeof(double));
-        memmove(A->i + insertion, A->i + insertion + 1, len * sizeof(int));
-        end -= 1;
-        diff_row_size += 1;
+        if (insertion != end && A->i[insertion] == j)
+        {
+            len = (size_t) (end - insertion - 1);
+            memmove(A->x + insertion, A->x + insertion + 1, len * sizeof(double));
+            memmove(A->i + insertion, A->i + insertion + 1, len * sizeof(int));
+            end -= 1;
+            diff_row_size += 1;
+        }
     }
     // -----------------------------------------------------------------
     // Insert the new value. If it exists or should be inserted in
-- 
2.43.0


From bbd1093f7f4a8b044bbd9011c85fa8c66b05a53b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:19 +0000
Subject: [PATCH 20/27] fix: stay well below the feasibility tolerance when
 fixing variables with close bounds

---
 src/explorers/Primal_propagation.c | 4 ++--
 src/explorers/SimpleReductions.c   | 5 +++--
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/explorers/Primal_propagation.c b/src/explorers/Primal_propagation.c
index a77fb97..5f7c0d1 100644
--- a/src/explorers/Primal_propagation.c
+++ b/src/explorers/Primal_propagation.c
@@ -63,7 +63,7 @@ static PresolveStatus update_lb_within_propagation(double new_lb, double *lb,
         }
 
         // check if variable can be fixed
-        if (new_lb >= ub || (ub - new_lb) * get_max_abs(vals, len) <= FEAS_TOL)
+        if (new_lb >= ub || (ub - new_lb) * get_max_abs(vals, len) <= 0.1 * FEAS_TOL)
         {
             save_retrieval_bound_change_no_row(constraints->state->postsolve_info,
                                                col, new_lb, ub, false);
@@ -138,7 +138,7 @@ static PresolveStatus update_ub_within_propagation(double new_ub, double *ub,
         }
 
         // check if variable can be fixed
-        if (new_ub <= lb || (new_ub - lb) * get_max_abs(vals, len) <= FEAS_TOL)
+        if (new_ub <= lb || (new_ub - lb) * get_max_abs(vals, len) <= 0.1 * FEAS_TOL)
         {
             save_retrieval_bound_change_no_row(constraints->state->postsolve_info,
                                                col, new_ub, lb, true);
diff --git a/src/explorers/SimpleReductions.c b/src/explorers/SimpleReductions.c
index 283b9b6..da35b05 100644
--- a/src/explorers/SimpleReductions.c
+++ b/src/explorers/SimpleReductions.c
@@ -694,12 +694,13 @@ PresolveStatus remove_variables_with_close_bounds(Problem *prob)
         if (IS_EQUAL_FEAS_TOL(bounds[ii].lb, bounds[ii].ub))
         {
             // an empty column is fixed (once) by remove_empty_cols, and fixing
-            // a column must not move the activity of its rows noticeably
+            // a column must not move the activity of its rows noticeably (the
+            // factor leaves room below the tolerance for several fixings)
             if (col_sizes[ii] > 0 &&
                 (bounds[ii].ub - bounds[ii].lb) *
                         get_max_abs(AT->x + AT->p[ii].start,
                                     (size_t) col_sizes[ii]) <=
-                    FEAS_TOL)
+                    0.1 * FEAS_TOL)
             {
                 // no need to check return value since bounds are equal
                 fix_col(constraints, (int) ii, bounds[ii].lb, c[ii]);
-- 
2.43.0


From fcbbfa5a8f99421984fa356f0c317acd541909a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:55 +0000
Subject: [PATCH 21/27] fix: substitute a column singleton of a free row with a
 finite value

---
 src/explorers/StonCols.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/explorers/StonCols.c b/src/explorers/StonCols.c
index 3e910f6..c9f942e 100644
--- a/src/explorers/StonCols.c
+++ b/src/explorers/StonCols.c
@@ -486,6 +486,12 @@ process_colston_ineq(RowView *row, ColView *col, Objective *obj, double Aik,
         {
             assert(ck == 0);
             new_side = (is_lhs_inf) ? *row->rhs : *row->lhs;
+
+            // any value of a free row will do
+            if (is_lhs_inf && is_rhs_inf)
+            {
+                new_side = 0.0;
+            }
         }
 
         // substitute variable in objective and mark it as substituted
-- 
2.43.0


From edb4bc2221b6627074a5cfdf2cbbfb9f814ef249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:35 +0000
Subject: [PATCH 22/27] fix: tighten a bound by less than the tolerance if its
 rows have large coefficients

---
 src/core/CoreTransformation.c | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/core/CoreTransformation.c b/src/core/CoreTransformation.c
index 8129a2d..8002889 100644
--- a/src/core/CoreTransformation.c
+++ b/src/core/CoreTransformation.c
@@ -26,6 +26,7 @@
 #include "Problem.h"
 #include "RowColViews.h"
 #include "State.h"
+#include "utils.h"
 
 PresolveStatus fix_col(Constraints *constraints, int col, double val, double ck)
 {
@@ -140,6 +141,14 @@ void fix_col_to_positive_inf(Constraints *constraints, int col)
     constraints->bounds[col].ub = INF;
 }
 
+// a small change of a bound matters if the rows of the column have large coefficients
+static inline bool is_change_noticed(const Matrix *AT, int col, double change)
+{
+    const double *vals = AT->x + AT->p[col].start;
+    size_t len = (size_t) (AT->p[col].end - AT->p[col].start);
+    return change > 0 && change * get_max_abs(vals, len) >= FEAS_TOL;
+}
+
 PresolveStatus update_lb(Constraints *constraints, int col, double new_lb,
                          int row HUGE_BOUND_PARAM)
 {
@@ -157,8 +166,9 @@ PresolveStatus update_lb(Constraints *constraints, int col, double new_lb,
 
     bool is_lb_inf = HAS_TAG(*col_tag, C_TAG_LB_INF);
 
-    // update the lower bound if it is tighter
-    if (is_lb_inf || new_lb >= lb + FEAS_TOL)
+    // update the lower bound if it is (noticeably for its rows) tighter
+    if (is_lb_inf || new_lb >= lb + FEAS_TOL ||
+        is_change_noticed(constraints->AT, col, new_lb - lb))
     {
         const Matrix *AT = constraints->AT;
         const double *vals = AT->x + AT->p[col].start;
@@ -210,8 +220,9 @@ PresolveStatus update_ub(Constraints *constraints, int col, double new_ub,
 
     bool is_ub_inf = HAS_TAG(*col_tag, C_TAG_UB_INF);
 
-    // update the upper bound if it is tighter
-    if (is_ub_inf || new_ub <= ub - FEAS_TOL)
+    // update the upper bound if it is (noticeably for its rows) tighter
+    if (is_ub_inf || new_ub <= ub - FEAS_TOL ||
+        is_change_noticed(constraints->AT, col, ub - new_ub))
     {
         const Matrix *AT = constraints->AT;
         const double *vals = AT->x + AT->p[col].start;
-- 
2.43.0


From 3f0dd5ede40cc55bfeeb3e216a2d68a7a9bf2b23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:25 +0000
Subject: [PATCH 23/27] fix: Parallel rows and primal propagation kept their
 sorting context in static variables shared between threads

---
 include/core/pslp_thread.h         | 7 +++++++
 src/explorers/Parallel_rows.c      | 8 +++++---
 src/explorers/Primal_propagation.c | 6 ++++--
 3 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/include/core/pslp_thread.h b/include/core/pslp_thread.h
index e0ac373..36b9d2e 100644
--- a/include/core/pslp_thread.h
+++ b/include/core/pslp_thread.h
@@ -1,6 +1,13 @@
 #ifndef PSLP_THREAD_H
 #define PSLP_THREAD_H
 
+// storage class of variables that every thread has its own copy of
+#if defined(_MSC_VER)
+#define PS_THREAD_LOCAL __declspec(thread)
+#else
+#define PS_THREAD_LOCAL __thread
+#endif
+
 #if defined(_WIN32) || defined(_WIN64)
 
 #include <stdint.h>
diff --git a/src/explorers/Parallel_rows.c b/src/explorers/Parallel_rows.c
index 7c0ce28..b855fd8 100644
--- a/src/explorers/Parallel_rows.c
+++ b/src/explorers/Parallel_rows.c
@@ -28,14 +28,16 @@
 #include "Workspace.h"
 #include "iVec.h"
 #include "limits.h" // for INT_MAX
+#include "pslp_thread.h"
 #include "utils.h"
 #include <PSLP_warnings.h>
 #include <math.h> // For round()
 #include <stdint.h>
 
-// global variables needed for qsort
-static int *global_sparsity_IDs;
-static int *global_coeff_hashes;
+// global variables needed for qsort (one copy per thread, since different
+// presolvers may run concurrently)
+static PS_THREAD_LOCAL int *global_sparsity_IDs;
+static PS_THREAD_LOCAL int *global_coeff_hashes;
 
 // djb2 hash function
 static inline uint32_t hash_int_array(const int *arr, int size)
diff --git a/src/explorers/Primal_propagation.c b/src/explorers/Primal_propagation.c
index 5f7c0d1..db9bd1b 100644
--- a/src/explorers/Primal_propagation.c
+++ b/src/explorers/Primal_propagation.c
@@ -28,6 +28,7 @@
 #include "SimpleReductions.h"
 #include "State.h"
 #include "Workspace.h"
+#include "pslp_thread.h"
 #include "utils.h"
 
 static PresolveStatus update_lb_within_propagation(double new_lb, double *lb,
@@ -782,8 +783,9 @@ PresolveStatus propagate_primal(Problem *prob, bool finite_bound_tightening)
     return UNCHANGED;
 }
 
-// Static variable to hold col_sizes (for qsort)
-static const int *global_col_sizes;
+// Static variable to hold col_sizes (for qsort; one copy per thread, since
+// different presolvers may run concurrently)
+static PS_THREAD_LOCAL const int *global_col_sizes;
 
 int compare_col_len(const void *a, const void *b)
 {
-- 
2.43.0


From d6f52f8fc588ebb6b6300ce6d6dac5276dc722d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:25 +0000
Subject: [PATCH 24/27] fix: bounds could cross by a rounding error when a
 bound met the opposite one

---
 src/core/CoreTransformation.c | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/core/CoreTransformation.c b/src/core/CoreTransformation.c
index 8002889..a770ffe 100644
--- a/src/core/CoreTransformation.c
+++ b/src/core/CoreTransformation.c
@@ -159,9 +159,15 @@ PresolveStatus update_lb(Constraints *constraints, int col, double new_lb,
     double lb = bounds[col].lb;
     assert(!HAS_TAG(constraints->col_tags[col], C_TAG_INACTIVE));
 
-    if (!HAS_TAG(*col_tag, C_TAG_UB_INF) && new_lb >= ub + FEAS_TOL)
+    if (!HAS_TAG(*col_tag, C_TAG_UB_INF) && new_lb > ub)
     {
-        return INFEASIBLE;
+        if (new_lb >= ub + FEAS_TOL)
+        {
+            return INFEASIBLE;
+        }
+
+        // bounds that cross within the tolerance meet
+        new_lb = ub;
     }
 
     bool is_lb_inf = HAS_TAG(*col_tag, C_TAG_LB_INF);
@@ -213,9 +219,15 @@ PresolveStatus update_ub(Constraints *constraints, int col, double new_ub,
 
     assert(!HAS_TAG(constraints->col_tags[col], C_TAG_INACTIVE));
 
-    if (!HAS_TAG(*col_tag, C_TAG_LB_INF) && new_ub <= lb - FEAS_TOL)
+    if (!HAS_TAG(*col_tag, C_TAG_LB_INF) && new_ub < lb)
     {
-        return INFEASIBLE;
+        if (new_ub <= lb - FEAS_TOL)
+        {
+            return INFEASIBLE;
+        }
+
+        // bounds that cross within the tolerance meet
+        new_ub = lb;
     }
 
     bool is_ub_inf = HAS_TAG(*col_tag, C_TAG_UB_INF);
-- 
2.43.0


From 5f0977540f0cc96e0e1abd5a40e2a8636e6e2bf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:25 +0000
Subject: [PATCH 25/27] fix: messages about infeasibility and the time limit
 were printed with verbose off

---
 src/core/Presolver.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/core/Presolver.c b/src/core/Presolver.c
index 99e3b03..c232e9d 100644
--- a/src/core/Presolver.c
+++ b/src/core/Presolver.c
@@ -388,7 +388,7 @@ cleanup:
 static inline bool update_termination(size_t nnz_after_cycle,
                                       size_t nnz_before_cycle, Complexity complexity,
                                       PresolveStatus status, double max_time,
-                                      Timer outer_timer)
+                                      bool verbose, Timer outer_timer)
 {
     if (HAS_STATUS(status, UNBNDORINFEAS))
     {
@@ -405,7 +405,10 @@ static inline bool update_termination(size_t nnz_after_cycle,
 
     if (GET_ELAPSED_SECONDS(outer_timer) >= max_time)
     {
-        printf("Maximum time limit of %.2f seconds reached.\n", max_time);
+        if (verbose)
+        {
+            printf("Maximum time limit of %.2f seconds reached.\n", max_time);
+        }
         return true;
     }
 
@@ -745,7 +748,7 @@ PresolveStatus run_presolver(Presolver *presolver)
 
         terminate =
             update_termination(nnz_after_cycle, nnz_before_cycle, curr_complexity,
-                               status, stgs->max_time, outer_timer);
+                               status, stgs->max_time, stgs->verbose, outer_timer);
 
         if (curr_complexity == MEDIUM)
         {
@@ -760,7 +763,10 @@ PresolveStatus run_presolver(Presolver *presolver)
     if (status != UNCHANGED)
     {
         // problem detected to be infeasible or unbounded
-        print_infeas_or_unbnd_message(status);
+        if (stgs->verbose)
+        {
+            print_infeas_or_unbnd_message(status);
+        }
         return status;
     }
 
-- 
2.43.0


From 6f0c1b613d595ddc283886b6105ba173d9681bc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:42 +0000
Subject: [PATCH 26/27] fix: hashing of parallel rows converted negative
 doubles to an unsigned integer, which is undefined

---
 src/explorers/Parallel_rows.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/explorers/Parallel_rows.c b/src/explorers/Parallel_rows.c
index b855fd8..4eb2943 100644
--- a/src/explorers/Parallel_rows.c
+++ b/src/explorers/Parallel_rows.c
@@ -77,7 +77,10 @@ static inline uint32_t hash_double_array_with_scale(const double *arr, int size)
     uint32_t hash = 5381;
     for (int i = 0; i < size; i++)
     {
-        uint32_t scaled = (uint32_t) (round((arr[i] * scale) * INV_PRECISION));
+        // via a signed type: converting a negative double to an unsigned integer
+        // is undefined
+        uint32_t scaled =
+            (uint32_t) (int32_t) round((arr[i] * scale) * INV_PRECISION);
         hash = ((hash << 5) + hash) + scaled;
     }
 
-- 
2.43.0


From 0a2ebdf3a73130a73ecd11afd6cd6ab0a09d1fc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:42 +0000
Subject: [PATCH 27/27] fix: do not convert a quotient of coefficients to int
 if it is out of range

---
 include/core/Numerics.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/core/Numerics.h b/include/core/Numerics.h
index 6787f64..7ad0c1f 100644
--- a/include/core/Numerics.h
+++ b/include/core/Numerics.h
@@ -44,7 +44,7 @@
 #define ABS(x) (((x) < 0) ? -(x) : (x))
 #endif
 
-#define IS_INTEGRAL(x) ((x) == (int) (x))
+#define IS_INTEGRAL(x) (ABS(x) <= 2147483647.0 && (x) == (int) (x))
 
 #define IS_EQUAL_FEAS_TOL(x, y) (ABS((x) - (y)) <= FEAS_TOL)
 #define IS_ZERO_FEAS_TOL(x) (ABS(x) <= FEAS_TOL)
-- 
2.43.0

