From 767c91400bf82bde052b9bc2bc64de030a1d368d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:38 +0000
Subject: [PATCH 01/35] fix: count an empty column with coinciding bounds once
 in the objective offset

---
 src/explorers/SimpleReductions.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/explorers/SimpleReductions.c b/src/explorers/SimpleReductions.c
index 22ced65..80fd3bf 100644
--- a/src/explorers/SimpleReductions.c
+++ b/src/explorers/SimpleReductions.c
@@ -691,8 +691,13 @@ PresolveStatus remove_variables_with_close_bounds(Problem *prob)
 
         if (IS_EQUAL_FEAS_TOL(bounds[ii].lb, bounds[ii].ub))
         {
-            // no need to check return value since bounds are equal
-            fix_col(constraints, (int) ii, bounds[ii].lb, c[ii]);
+            // an empty column is fixed by remove_empty_cols (fixing it here as
+            // well would add its contribution to the objective offset twice)
+            if (col_sizes[ii] > 0)
+            {
+                // no need to check return value since bounds are equal
+                fix_col(constraints, (int) ii, bounds[ii].lb, c[ii]);
+            }
         }
         else if (bounds[ii].lb > bounds[ii].ub + FEAS_TOL)
         {
-- 
2.43.0


From 0aca9010099470ba147dc6a927f2aaa95e49df9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:07 +0000
Subject: [PATCH 02/35] fix: report infeasibility found while transferring
 bounds of a doubleton equality

---
 src/core/Presolver.c    |  2 ++
 src/explorers/DtonsEq.c | 42 ++++++++++++++++++++++++++++-------------
 2 files changed, 31 insertions(+), 13 deletions(-)

diff --git a/src/core/Presolver.c b/src/core/Presolver.c
index 5adc344..6e7ee28 100644
--- a/src/core/Presolver.c
+++ b/src/core/Presolver.c
@@ -481,6 +481,8 @@ static inline PresolveStatus run_fast_explorers(Problem *prob, const Settings *s
     if (stgs->dton_eq)
     {
         status |= remove_dton_eq_rows(prob, stgs->max_shift);
+        RETURN_IF_NOT_UNCHANGED(status);
+
         // after removing doubleton equality rows, there can be new empty rows,
         // new singleton rows, and new empty columns
         status |= run_trivial_explorers(prob, stgs);
diff --git a/src/explorers/DtonsEq.c b/src/explorers/DtonsEq.c
index 1f08315..eb36568 100644
--- a/src/explorers/DtonsEq.c
+++ b/src/explorers/DtonsEq.c
@@ -185,10 +185,12 @@ static inline void can_dton_be_eliminated(Matrix *AT, const double *row_vals,
     *subst = row_cols[*subst];
 }
 
-// lb and ub are bounds on variable that gets substituted
-static inline void modify_bounds(Constraints *constraints, int i, double aij,
-                                 double aik, double rhs, double lb_subst,
-                                 double ub_subst, int stay, ColTag col_tag_subst)
+// lb and ub are bounds on variable that gets substituted. Returns INFEASIBLE if
+// the implied bounds contradict the bounds of the variable that stays.
+static inline PresolveStatus modify_bounds(Constraints *constraints, int i,
+                                           double aij, double aik, double rhs,
+                                           double lb_subst, double ub_subst,
+                                           int stay, ColTag col_tag_subst)
 {
     assert(aij != 0 && aik != 0);
     bool same_sign = (aik * aij > 0.0);
@@ -198,18 +200,22 @@ static inline void modify_bounds(Constraints *constraints, int i, double aij,
         if (!HAS_TAG(col_tag_subst, C_TAG_LB_INF))
         {
             double new_ub_cand = (rhs - aik * lb_subst) / aij;
-            update_ub(constraints, stay, new_ub_cand, i HUGE_BOUND_IS_NOT_OK);
+            if (update_ub(constraints, stay, new_ub_cand,
+                          i HUGE_BOUND_IS_NOT_OK) == INFEASIBLE)
+            {
+                return INFEASIBLE;
+            }
 
             if (HAS_TAG(constraints->col_tags[stay], C_TAG_FIXED))
             {
-                return;
+                return UNCHANGED;
             }
         }
 
         if (!HAS_TAG(col_tag_subst, C_TAG_UB_INF))
         {
             double new_lb_cand = (rhs - aik * ub_subst) / aij;
-            update_lb(constraints, stay, new_lb_cand, i HUGE_BOUND_IS_NOT_OK);
+            return update_lb(constraints, stay, new_lb_cand, i HUGE_BOUND_IS_NOT_OK);
         }
     }
     else
@@ -217,20 +223,26 @@ static inline void modify_bounds(Constraints *constraints, int i, double aij,
         if (!HAS_TAG(col_tag_subst, C_TAG_LB_INF))
         {
             double new_lb_cand = (rhs - aik * lb_subst) / aij;
-            update_lb(constraints, stay, new_lb_cand, i HUGE_BOUND_IS_NOT_OK);
+            if (update_lb(constraints, stay, new_lb_cand,
+                          i HUGE_BOUND_IS_NOT_OK) == INFEASIBLE)
+            {
+                return INFEASIBLE;
+            }
 
             if (HAS_TAG(constraints->col_tags[stay], C_TAG_FIXED))
             {
-                return;
+                return UNCHANGED;
             }
         }
 
         if (!HAS_TAG(col_tag_subst, C_TAG_UB_INF))
         {
             double new_ub_cand = (rhs - aik * ub_subst) / aij;
-            update_ub(constraints, stay, new_ub_cand, i HUGE_BOUND_IS_NOT_OK);
+            return update_ub(constraints, stay, new_ub_cand, i HUGE_BOUND_IS_NOT_OK);
         }
     }
+
+    return UNCHANGED;
 }
 
 #ifndef TESTING
@@ -701,8 +713,11 @@ static PresolveStatus remove_dton_eq_rows__(Problem *prob, int max_shift_per_row
 
         // transfer bounds to variable that stays and skip the reduction
         // if the variable that stays was fixed because of the bound change
-        modify_bounds(constraints, i, aij, aik, *row.rhs, bounds[k].lb, bounds[k].ub,
-                      j, col_tags[k]);
+        if (modify_bounds(constraints, i, aij, aik, *row.rhs, bounds[k].lb,
+                          bounds[k].ub, j, col_tags[k]) == INFEASIBLE)
+        {
+            return INFEASIBLE;
+        }
 
         if (HAS_TAG(col_tags[j], C_TAG_INACTIVE))
         {
@@ -751,6 +766,7 @@ PresolveStatus remove_dton_eq_rows(Problem *prob, int max_shift_per_row)
     while ((*dton_rows)->len > 0)
     {
         PresolveStatus temp = remove_dton_eq_rows__(prob, max_shift_per_row);
+        RETURN_IF_INFEASIBLE(temp);
 
         if (temp != REDUCED)
         {
@@ -767,6 +783,6 @@ PresolveStatus remove_dton_eq_rows(Problem *prob, int max_shift_per_row)
 
     DEBUG(verify_problem_up_to_date(prob->constraints));
 
-    // always return UNCHANGED because this function can't detect infeas/unbnd.
+    // return UNCHANGED even if the problem was reduced
     return UNCHANGED;
 }
-- 
2.43.0


From f20dfd876308ae04c6edb65bf72543a8cb5612e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:46 +0000
Subject: [PATCH 03/35] fix: account for pending fixed columns when recovering
 a column fixed to infinity

---
 src/core/Postsolver.c | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/core/Postsolver.c b/src/core/Postsolver.c
index 6e4bc03..02bfde4 100644
--- a/src/core/Postsolver.c
+++ b/src/core/Postsolver.c
@@ -684,13 +684,15 @@ void save_retrieval_fixed_col_inf(PostsolveInfo *info, int col, int pos_inf,
                                   const Constraints *constraints, double bound)
 {
     assert(pos_inf == 1 || pos_inf == -1);
-    int i, row;
+    int i, j, row;
     const Matrix *AT = constraints->AT;
     const Matrix *A = constraints->A;
     int *row_sizes = constraints->state->row_sizes;
     double *lhs = constraints->lhs;
     double *rhs = constraints->rhs;
     RowTag *row_tags = constraints->row_tags;
+    const ColTag *col_tags = constraints->col_tags;
+    const Bound *bounds = constraints->bounds;
     double side;
 
     int *rows = AT->i + AT->p[col].start;
@@ -706,6 +708,19 @@ void save_retrieval_fixed_col_inf(PostsolveInfo *info, int col, int pos_inf,
     {
         row = rows[i];
         side = (HAS_TAG(row_tags[row], R_TAG_LHS_INF)) ? rhs[row] : lhs[row];
+
+        // columns that have been fixed to a finite value but are not yet removed
+        // from the row are recovered after this column, so we must move their
+        // contribution to the side
+        for (j = A->p[row].start; j < A->p[row].end; ++j)
+        {
+            int k = A->i[j];
+            if (HAS_TAG(col_tags[k], C_TAG_FIXED) && !IS_ABS_INF(bounds[k].lb))
+            {
+                side -= A->x[j] * bounds[k].lb;
+            }
+        }
+
         dVec_append(info->vals, side);
         dVec_append_array(info->vals, A->x + A->p[row].start,
                           (size_t) row_sizes[row]);
-- 
2.43.0


From 0246e00dfe46a2112a645056dc4941bebbe8c356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:46 +0000
Subject: [PATCH 04/35] fix: recover a finite value for a column fixed to
 infinity that appears in free rows only

---
 src/core/Postsolver.c | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/core/Postsolver.c b/src/core/Postsolver.c
index 02bfde4..bcab823 100644
--- a/src/core/Postsolver.c
+++ b/src/core/Postsolver.c
@@ -199,6 +199,12 @@ static void retrieve_fix_col_inf(Solution *sol, const int *indices,
             side -= coeffs[j] * sol->x[cols[j]];
         }
 
+        // a row without a finite side does not restrict the column
+        if (IS_ABS_INF(side))
+        {
+            continue;
+        }
+
         val = side / coeff;
         if (fix_to_pos_inf)
         {
@@ -210,7 +216,12 @@ static void retrieve_fix_col_inf(Solution *sol, const int *indices,
         }
     }
 
-    assert(!IS_ABS_INF(extreme_val));
+    // no bound and no row restricts the column
+    if (IS_ABS_INF(extreme_val))
+    {
+        extreme_val = 0.0;
+    }
+
     sol->x[col] = extreme_val;
     sol->z[col] = 0.0;
 }
@@ -728,8 +739,6 @@ void save_retrieval_fixed_col_inf(PostsolveInfo *info, int col, int pos_inf,
         iVec_append_array(info->indices, A->i + A->p[row].start,
                           (size_t) row_sizes[row]);
 
-        assert(!(HAS_TAG(row_tags[row], R_TAG_LHS_INF) &&
-                 HAS_TAG(row_tags[row], R_TAG_RHS_INF)));
         assert(HAS_TAG(row_tags[row], (R_TAG_LHS_INF | R_TAG_RHS_INF)));
     }
 
-- 
2.43.0


From 411f8030fafbef10b4e87ac3b7e3792668456bd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:30 +0000
Subject: [PATCH 05/35] fix: record the bounds of a merged parallel column with
 the tags they had before the merge

---
 src/explorers/Parallel_cols.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/explorers/Parallel_cols.c b/src/explorers/Parallel_cols.c
index 717b72e..a06cb2b 100644
--- a/src/explorers/Parallel_cols.c
+++ b/src/explorers/Parallel_cols.c
@@ -52,6 +52,7 @@ static inline PresolveStatus process_single_bin(const Problem *prob, const int *
     int ii, jj, j, k, len_j;
     const int *aj_cols;
     double ratio, cj, ck, ak0, lb_j_old, ub_j_old;
+    ColTag tag_j_old;
     const double *aj_vals;
 
     for (ii = 0; ii < bin_size - 1; ++ii)
@@ -97,6 +98,7 @@ static inline PresolveStatus process_single_bin(const Problem *prob, const int *
                 // ---------------------------------------------------------------------
                 lb_j_old = bounds[j].lb;
                 ub_j_old = bounds[j].ub;
+                tag_j_old = col_tags[j];
                 if (ratio > 0)
                 {
                     // update lb
@@ -162,7 +164,7 @@ static inline PresolveStatus process_single_bin(const Problem *prob, const int *
                 set_col_to_substituted(k, col_tags + k, sub_cols_to_delete);
                 save_retrieval_parallel_col(postsolve_info, ub_j_old, lb_j_old,
                                             bounds[k].lb, bounds[k].ub, ratio, j, k,
-                                            col_tags[j], col_tags[k]);
+                                            tag_j_old, col_tags[k]);
             }
             else
             {
-- 
2.43.0


From 48fdd1d0bc5c0bebb432680c42aa8f0ead278106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:20 +0000
Subject: [PATCH 06/35] fix: move the multiplier of an active implied bound to
 the row in singleton column reductions

---
 src/explorers/StonCols.c | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/src/explorers/StonCols.c b/src/explorers/StonCols.c
index 5f07098..33ab989 100644
--- a/src/explorers/StonCols.c
+++ b/src/explorers/StonCols.c
@@ -373,6 +373,27 @@ static void fix_col_ston(double val, double Aik, RowView *row, ColView *col,
                              &row->i, 1);
 }
 
+/* Dual postsolve for an inequality that is turned into an equality because its
+   column singleton is implied free from above (or below): the multiplier of the
+   implied bound belongs to the row. */
+static inline void save_retrieval_implied_free_bound(const RowView *row,
+                                                     const ColView *col, bool upper,
+                                                     PostsolveInfo *postsolve_info)
+{
+    double implied = upper ? *col->ub : *col->lb;
+    double other = upper ? *col->lb : *col->ub;
+
+    if (IS_ABS_INF(implied))
+    {
+        return;
+    }
+
+    save_retrieval_bound_change_no_row(postsolve_info, col->k, implied, other,
+                                       upper);
+    save_retrieval_bound_change_the_row(postsolve_info, row->i, row->cols, row->vals,
+                                        (size_t) *row->len, 1);
+}
+
 static inline PresolveStatus
 process_colston_ineq(RowView *row, ColView *col, Objective *obj, double Aik,
                      bool impl_free_from_above, bool impl_free_from_below,
@@ -498,6 +519,10 @@ process_colston_ineq(RowView *row, ColView *col, Objective *obj, double Aik,
         }
 
         assert(!is_rhs_inf);
+        // the bound that makes the column implied free may be active together
+        // with the row, in which case its multiplier must be moved to the row
+        save_retrieval_implied_free_bound(row, col, Aik > 0, postsolve_info);
+
         // update lhs = rhs
         *row->lhs = *row->rhs;
         RESET_TAG(*row->tag, R_TAG_EQ);
@@ -524,6 +549,9 @@ process_colston_ineq(RowView *row, ColView *col, Objective *obj, double Aik,
         }
 
         assert(!is_lhs_inf);
+        // see the comment in the case above
+        save_retrieval_implied_free_bound(row, col, Aik < 0, postsolve_info);
+
         // update rhs = lhs
         *row->rhs = *row->lhs;
         RESET_TAG(*row->tag, R_TAG_EQ);
-- 
2.43.0


From 8507784481ae2358ff891e80e008f53c3614cc1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:20 +0000
Subject: [PATCH 07/35] fix: substitute a free singleton column of a free row
 with a finite value

---
 src/explorers/StonCols.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/explorers/StonCols.c b/src/explorers/StonCols.c
index 33ab989..30b3d3f 100644
--- a/src/explorers/StonCols.c
+++ b/src/explorers/StonCols.c
@@ -488,6 +488,12 @@ process_colston_ineq(RowView *row, ColView *col, Objective *obj, double Aik,
         {
             assert(ck == 0);
             new_side = (is_lhs_inf) ? *row->rhs : *row->lhs;
+
+            // any value of the variable is feasible if the row has no finite side
+            if (is_lhs_inf && is_rhs_inf)
+            {
+                new_side = 0.0;
+            }
         }
 
         // substitute variable in objective and mark it as substituted
-- 
2.43.0


From 1c1aac7069add0ad05ad8cc7d68e021ed11ea933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:00 +0000
Subject: [PATCH 08/35] fix: keep loosened implied bounds well within the
 feasibility tolerance

---
 include/core/Numerics.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/core/Numerics.h b/include/core/Numerics.h
index 215fcce..af30ca8 100644
--- a/include/core/Numerics.h
+++ b/include/core/Numerics.h
@@ -22,7 +22,7 @@
 #include <math.h>
 
 #define FEAS_TOL 1e-6
-#define BOUND_MARGINAL 0.5 * FEAS_TOL
+#define BOUND_MARGINAL (1e-3 * FEAS_TOL)
 #define ZERO_TOL 1e-10
 #define ZERO_TOL_DUAL_POSTSOLVE 1e-6
 #define HUGE_VAL_PS 1e7
-- 
2.43.0


From 85238cf3058d1f926b0a5be56b6e61ac574566a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:15 +0000
Subject: [PATCH 09/35] fix: compare every parallel inequality with the
 equality that remains

---
 src/explorers/Parallel_rows.c | 29 ++++++++++++++++-------------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/src/explorers/Parallel_rows.c b/src/explorers/Parallel_rows.c
index f29c8b9..1dca479 100644
--- a/src/explorers/Parallel_rows.c
+++ b/src/explorers/Parallel_rows.c
@@ -386,9 +386,21 @@ static inline PresolveStatus process_single_bin(const Constraints *constraints,
     // ------------------------------------------------------------------------
     //  Initialize quantities for the remaining row. These quantities will be
     //  updated as we process the bin.
+    //  If the bin contains an equality it must be the remaining row already when
+    //  the first row is processed (otherwise the sides of inequalities that have
+    //  been merged before the equality is seen would be forgotten).
     // ------------------------------------------------------------------------
     bool is_remaining_row_eq, is_rhs_inf_remaining_row, is_lhs_inf_remaining_row;
     int remaining_row_idx = bin[0];
+    for (int i = 0; i < bin_size; ++i)
+    {
+        if (HAS_TAG(row_tags[bin[i]], R_TAG_EQ))
+        {
+            remaining_row_idx = bin[i];
+            break;
+        }
+    }
+
     is_remaining_row_eq = HAS_TAG(row_tags[remaining_row_idx], R_TAG_EQ);
     is_rhs_inf_remaining_row = HAS_TAG(row_tags[remaining_row_idx], R_TAG_RHS_INF);
     is_lhs_inf_remaining_row = HAS_TAG(row_tags[remaining_row_idx], R_TAG_LHS_INF);
@@ -396,25 +408,16 @@ static inline PresolveStatus process_single_bin(const Constraints *constraints,
     remaining_row_new_lhs = lhs[remaining_row_idx];
     remaining_row_coeff = A->x[A->p[remaining_row_idx].start];
 
-    for (int i = 1; i < bin_size; ++i)
+    for (int i = 0; i < bin_size; ++i)
     {
         int other_row_idx = bin[i];
-        bool is_other_row_eq = HAS_TAG(row_tags[other_row_idx], R_TAG_EQ);
 
-        if (!is_remaining_row_eq && is_other_row_eq)
+        if (other_row_idx == remaining_row_idx)
         {
-            // swap(remaining_row, other_row)
-            int temp = remaining_row_idx;
-            remaining_row_idx = other_row_idx;
-            other_row_idx = temp;
-
-            is_remaining_row_eq = true;
-            is_other_row_eq = false;
-            remaining_row_new_rhs = rhs[remaining_row_idx];
-            remaining_row_new_lhs = lhs[remaining_row_idx];
-            remaining_row_coeff = A->x[A->p[remaining_row_idx].start];
+            continue;
         }
 
+        bool is_other_row_eq = HAS_TAG(row_tags[other_row_idx], R_TAG_EQ);
         assert(!(is_other_row_eq && !is_remaining_row_eq));
 
         other_row_coeff = A->x[A->p[other_row_idx].start];
-- 
2.43.0


From 71bd4431d23bd8726442e1029be840d42c12ab56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:58 +0000
Subject: [PATCH 10/35] fix: recompute both activities when a coefficient
 change makes both of them finite

---
 src/core/Activity.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/core/Activity.c b/src/core/Activity.c
index 49c7a8f..5d8d9b4 100644
--- a/src/core/Activity.c
+++ b/src/core/Activity.c
@@ -704,18 +704,20 @@ Altered_Activity update_activity_coeff_change(Activity *act, double lb, double u
     }
 #endif
 
-    // recompute from scratch if necessary
+    // recompute from scratch if necessary (it might be necessary for both)
+    Altered_Activity altered = NO_RECOMPUTE;
+
     if (act->n_inf_min == 0 && n_inf_min_before == 1)
     {
-        return MIN_ALTERED_RECOMPUTE;
+        altered |= MIN_ALTERED_RECOMPUTE;
     }
 
     if (act->n_inf_max == 0 && n_inf_max_before == 1)
     {
-        return MAX_ALTERED_RECOMPUTE;
+        altered |= MAX_ALTERED_RECOMPUTE;
     }
 
-    return NO_RECOMPUTE;
+    return altered;
 }
 
 void remove_finite_lb_from_activities(const ConstColView *col, Activity *acts,
-- 
2.43.0


From 116ef2035e6623c25e89151c19b2bbed3a07daf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:34 +0000
Subject: [PATCH 11/35] fix: tolerate rounding when a parallel inequality is
 compared with an equality

---
 src/explorers/Parallel_rows.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/explorers/Parallel_rows.c b/src/explorers/Parallel_rows.c
index 1dca479..a239310 100644
--- a/src/explorers/Parallel_rows.c
+++ b/src/explorers/Parallel_rows.c
@@ -442,14 +442,19 @@ static inline PresolveStatus process_single_bin(const Constraints *constraints,
         // -----------------------------------------------------------------------
         else if (is_remaining_row_eq)
         {
+            // (the scaled sides carry rounding errors)
             bool infeas_rhs =
                 !is_rhs_inf_other_row &&
-                ((ratio > 0 && remaining_row_new_rhs > other_row_rhs_scaled) ||
-                 (ratio < 0 && remaining_row_new_rhs < other_row_rhs_scaled));
+                ((ratio > 0 &&
+                  IS_GT_FEAS_TOL(remaining_row_new_rhs, other_row_rhs_scaled)) ||
+                 (ratio < 0 &&
+                  IS_LT_FEAS_TOL(remaining_row_new_rhs, other_row_rhs_scaled)));
             bool infeas_lhs =
                 !is_lhs_inf_other_row &&
-                ((ratio > 0 && remaining_row_new_rhs < other_row_lhs_scaled) ||
-                 (ratio < 0 && remaining_row_new_rhs > other_row_lhs_scaled));
+                ((ratio > 0 &&
+                  IS_LT_FEAS_TOL(remaining_row_new_rhs, other_row_lhs_scaled)) ||
+                 (ratio < 0 &&
+                  IS_GT_FEAS_TOL(remaining_row_new_rhs, other_row_lhs_scaled)));
 
             if (infeas_rhs || infeas_lhs)
             {
-- 
2.43.0


From b988f3e645f7f4d533a403296fde29c15817b55a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:20 +0000
Subject: [PATCH 12/35] fix: check the multiplier of a deleted parallel row
 only if the changed side is active

---
 src/core/Postsolver.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/core/Postsolver.c b/src/core/Postsolver.c
index bcab823..06e971d 100644
--- a/src/core/Postsolver.c
+++ b/src/core/Postsolver.c
@@ -428,7 +428,6 @@ void retrieve_lhs_change(Solution *sol, int i, const double *vals, const int *co
                          int len, double new_side, int j, double ratio)
 {
     assert(sol->y[i] != ROW_NOT_RETRIEVED);
-    assert(sol->y[j] == ROW_NOT_RETRIEVED || sol->y[j] == 0.0);
 
     // compute the residual of constraint i
     double residual = -new_side;
@@ -443,6 +442,9 @@ void retrieve_lhs_change(Solution *sol, int i, const double *vals, const int *co
         return;
     }
 
+    // (row j may have changed the other side of row i as well, but then that
+    //  side is not active)
+    assert(sol->y[j] == ROW_NOT_RETRIEVED || sol->y[j] == 0.0);
     double cand_val = ratio * sol->y[i];
     if (ratio * cand_val < 0)
     {
@@ -458,7 +460,6 @@ void retrieve_rhs_change(Solution *sol, int i, const double *vals, const int *co
                          int len, double new_side, int j, double ratio)
 {
     assert(sol->y[i] != ROW_NOT_RETRIEVED);
-    assert(sol->y[j] == ROW_NOT_RETRIEVED || sol->y[j] == 0.0);
 
     // compute the residual of constraint i
     double residual = -new_side;
@@ -473,6 +474,9 @@ void retrieve_rhs_change(Solution *sol, int i, const double *vals, const int *co
         return;
     }
 
+    // (row j may have changed the other side of row i as well, but then that
+    //  side is not active)
+    assert(sol->y[j] == ROW_NOT_RETRIEVED || sol->y[j] == 0.0);
     double cand_val = ratio * sol->y[i];
     if (ratio * cand_val > 0)
     {
-- 
2.43.0


From f1b4a617a295646c38bea87190902b28612e7169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:20 +0000
Subject: [PATCH 13/35] fix: relax redundant bounds in production builds as
 well

---
 src/explorers/Primal_propagation.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/explorers/Primal_propagation.c b/src/explorers/Primal_propagation.c
index a77fb97..0958936 100644
--- a/src/explorers/Primal_propagation.c
+++ b/src/explorers/Primal_propagation.c
@@ -863,7 +863,7 @@ void remove_redundant_bounds(Constraints *constraints)
                                    bounds))
             {
                 remove_finite_lb_from_activities(&col, acts, bounds[ii].lb);
-                DEBUG(bounds[ii].lb = -INF);
+                bounds[ii].lb = -INF;
                 UPDATE_TAG(col_tags[ii], C_TAG_LB_INF);
             }
         }
@@ -875,7 +875,7 @@ void remove_redundant_bounds(Constraints *constraints)
                                    bounds))
             {
                 remove_finite_ub_from_activities(&col, acts, bounds[ii].ub);
-                DEBUG(bounds[ii].ub = INF);
+                bounds[ii].ub = INF;
                 UPDATE_TAG(col_tags[ii], C_TAG_UB_INF);
             }
         }
-- 
2.43.0


From f901194f6b18101a631cb3acd02e5ac90c66d74a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:20 +0000
Subject: [PATCH 14/35] fix: stop presolving as soon as a reduction proves
 infeasibility or unboundedness

---
 src/core/Presolver.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/core/Presolver.c b/src/core/Presolver.c
index 6e7ee28..0827f0e 100644
--- a/src/core/Presolver.c
+++ b/src/core/Presolver.c
@@ -435,6 +435,7 @@ static inline PresolveStatus run_trivial_explorers(Problem *prob,
         //   and empty columns (if rows are marked as inactive due to a variable
         //   being set to inf)
         status |= remove_empty_cols(prob);
+        RETURN_IF_UNBNDORINFEAS(status);
         status |= simple_dual_fix(prob);
         RETURN_IF_UNBNDORINFEAS(status);
     }
@@ -471,11 +472,13 @@ static inline PresolveStatus run_fast_explorers(Problem *prob, const Settings *s
     if (stgs->ston_cols)
     {
         status |= remove_ston_cols(prob);
+        RETURN_IF_NOT_UNCHANGED(status);
 
         // after removing singleton columns, there can be new empty columns
         // and singleton rows, but no empty rows
         assert(prob->constraints->state->empty_rows->len == 0);
         status |= run_trivial_explorers(prob, stgs);
+        RETURN_IF_NOT_UNCHANGED(status);
     }
 
     if (stgs->dton_eq)
@@ -513,7 +516,9 @@ run_medium_explorers(Problem *prob, const Settings *stgs, PresolveStats *stats)
 
         // the actual reduction
         status |= check_activities(prob);
+        RETURN_IF_NOT_UNCHANGED(status);
         status |= propagate_primal(prob, stgs->finite_bound_tightening);
+        RETURN_IF_NOT_UNCHANGED(status);
 
         // after dom prop propagation there can be new empty and ston rows
         status |= run_trivial_explorers(prob, stgs);
@@ -558,10 +563,12 @@ run_medium_explorers(Problem *prob, const Settings *stgs, PresolveStats *stats)
         status |= remove_parallel_cols(prob);
         assert(prob->constraints->state->empty_rows->len == 0);
         assert(prob->constraints->state->empty_cols->len == 0);
+        assert(!(status & REDUCED));
+        RETURN_IF_NOT_UNCHANGED(status);
         status |= run_trivial_explorers(prob, stgs);
-        assert(prob->constraints->state->ston_rows->len == 0);
         assert(!(status & REDUCED));
         RETURN_IF_NOT_UNCHANGED(status);
+        assert(prob->constraints->state->ston_rows->len == 0);
 
         // stats
         stats->nnz_removed_parallel_cols += nnz_before - *nnz;
-- 
2.43.0


From 205d2fa3b0637460ed9a9aea58cb391a6c913375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:08 +0000
Subject: [PATCH 15/35] fix: drop vanishing coefficients of a doubleton
 substitution without disturbing their neighbours

---
 src/core/Matrix.c       |  9 +++------
 src/explorers/DtonsEq.c | 24 ++++++++++++++++--------
 2 files changed, 19 insertions(+), 14 deletions(-)

diff --git a/src/core/Matrix.c b/src/core/Matrix.c
index 3736b02..6b2cac7 100644
--- a/src/core/Matrix.c
+++ b/src/core/Matrix.c
@@ -484,13 +484,10 @@ double insert_or_update_coeff(Matrix *A, int row, int col, double val, int *row_
             *row_size += 1;
         }
     }
-    // if the new value is zero, we just have to shift
-    else
+    // if the new value is zero, we just have to shift (vanishing fill-in is
+    // not inserted)
+    else if (insertion != end && A->i[insertion] == col)
     {
-        // we only expect that the new value is zero if the coefficient
-        // already exists
-        assert(A->i[insertion] == col);
-
         // we only have to shift values if the zero is not in the end
         if (insertion != end - 1)
         {
diff --git a/src/explorers/DtonsEq.c b/src/explorers/DtonsEq.c
index eb36568..feeb224 100644
--- a/src/explorers/DtonsEq.c
+++ b/src/explorers/DtonsEq.c
@@ -295,6 +295,11 @@ static inline
     }
 
     double new_val = old_val - (aij / aik) * A->x[subst_idx];
+    if (ABS(new_val) <= ZERO_TOL)
+    {
+        new_val = 0.0;
+    }
+
     Old_and_new_coeff old_and_new_coeff;
     old_and_new_coeff.old_coeff_stay = old_val;
     old_and_new_coeff.old_coeff_subst = A->x[subst_idx];
@@ -328,16 +333,19 @@ static inline
     insertion -= (subst_idx < insertion);
 
     // -------------------------------------------------------------------
-    // if we get unexpected cancellation we should remove the coefficient,
-    // otherwise we insert it
+    // if we get unexpected cancellation we should remove the coefficient
+    // (if it exists, vanishing fill-in is dropped), otherwise we insert it
     // -------------------------------------------------------------------
-    if (ABS(new_val) <= ZERO_TOL)
+    if (new_val == 0.0)
     {
-        len = (size_t) (end - insertion - 1);
-        memmove(A->x + insertion, A->x + insertion + 1, len * sizeof(double));
-        memmove(A->i + insertion, A->i + insertion + 1, len * sizeof(int));
-        end -= 1;
-        diff_row_size += 1;
+        if (old_val != 0.0)
+        {
+            len = (size_t) (end - insertion - 1);
+            memmove(A->x + insertion, A->x + insertion + 1, len * sizeof(double));
+            memmove(A->i + insertion, A->i + insertion + 1, len * sizeof(int));
+            end -= 1;
+            diff_row_size += 1;
+        }
     }
     // -----------------------------------------------------------------
     // Insert the new value. If it exists or should be inserted in
-- 
2.43.0


From d5cbac725ad4d4e15d55cee8cea880252f86e519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:33 +0000
Subject: [PATCH 16/35] fix: detect contradicting sides of parallel
 inequalities before an equality is formed

---
 src/explorers/Parallel_rows.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/explorers/Parallel_rows.c b/src/explorers/Parallel_rows.c
index a239310..93f6936 100644
--- a/src/explorers/Parallel_rows.c
+++ b/src/explorers/Parallel_rows.c
@@ -534,6 +534,12 @@ static inline PresolveStatus process_single_bin(const Constraints *constraints,
                                             constraints->rhs + remaining_row_idx,
                                             row_tag, remaining_row_idx);
 
+        if (!is_lhs_inf_remaining_row && !is_rhs_inf_remaining_row &&
+            remaining_row_new_lhs >= remaining_row_new_rhs + FEAS_TOL)
+        {
+            return INFEASIBLE;
+        }
+
         if (!is_rhs_inf_remaining_row &&
             remaining_row_new_rhs != rhs[remaining_row_idx])
         {
@@ -550,7 +556,8 @@ static inline PresolveStatus process_single_bin(const Constraints *constraints,
             }
         }
 
-        if (!is_lhs_inf_remaining_row &&
+        // (the new rhs may have turned the row into an equality)
+        if (!is_lhs_inf_remaining_row && !HAS_TAG(*row_tag, R_TAG_EQ) &&
             remaining_row_new_lhs != lhs[remaining_row_idx])
         {
             assert(!IS_ABS_INF(remaining_row_new_lhs));
-- 
2.43.0


From c06f905becbf84ef81dfb4c322436316b463df53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:11 +0000
Subject: [PATCH 17/35] fix: survive refused allocations of the workspace, the
 state and the postsolve stack

---
 include/data_structures/Vec_macros.h |  1 +
 src/core/Postsolver.c                |  7 ++-----
 src/core/State.c                     |  5 +++--
 src/core/Workspace.c                 | 16 +++++++++++-----
 4 files changed, 17 insertions(+), 12 deletions(-)

diff --git a/include/data_structures/Vec_macros.h b/include/data_structures/Vec_macros.h
index f71b6ed..e04ae05 100644
--- a/include/data_structures/Vec_macros.h
+++ b/include/data_structures/Vec_macros.h
@@ -62,6 +62,7 @@
                                                                                     \
     static inline void TYPE_NAME##Vec_free(TYPE_NAME##Vec *vec)                     \
     {                                                                               \
+        RETURN_IF_NULL(vec);                                                        \
         PS_FREE(vec->data);                                                         \
         PS_FREE(vec);                                                               \
     }                                                                               \
diff --git a/src/core/Postsolver.c b/src/core/Postsolver.c
index 06e971d..82e85bc 100644
--- a/src/core/Postsolver.c
+++ b/src/core/Postsolver.c
@@ -38,6 +38,7 @@
 PostsolveInfo *postsolve_info_new(size_t n_rows, size_t n_cols)
 {
     PostsolveInfo *info = (PostsolveInfo *) ps_malloc(1, sizeof(PostsolveInfo));
+    RETURN_PTR_IF_NULL(info, NULL);
 
     size_t init_size;
 
@@ -55,11 +56,7 @@ PostsolveInfo *postsolve_info_new(size_t n_rows, size_t n_cols)
     info->type = u16Vec_new(init_size);
     if (!info->starts || !info->indices || !info->vals || !info->type)
     {
-        PS_FREE(info->starts);
-        PS_FREE(info->indices);
-        PS_FREE(info->vals);
-        PS_FREE(info->type);
-        PS_FREE(info);
+        postsolve_info_free(info);
         return NULL;
     }
 
diff --git a/src/core/State.c b/src/core/State.c
index 408cca5..06c6fd3 100644
--- a/src/core/State.c
+++ b/src/core/State.c
@@ -88,8 +88,9 @@ State *new_state(int *row_sizes, int *col_sizes, Lock *col_locks, size_t n_rows,
     data->postsolve_info = postsolve_info_new(n_rows, n_cols);
 
     if (!data->ston_rows || !data->ston_cols || !data->dton_rows ||
-        !data->empty_cols || !data->empty_rows || !data->fixed_cols_to_delete ||
-        !data->sub_cols_to_delete || !data->rows_to_delete || !data->postsolve_info)
+        !data->empty_cols || !data->empty_rows || !data->updated_activities ||
+        !data->fixed_cols_to_delete || !data->sub_cols_to_delete ||
+        !data->rows_to_delete || !data->postsolve_info)
     {
         free_state(data);
         return NULL;
diff --git a/src/core/Workspace.c b/src/core/Workspace.c
index ffd3d46..258ba50 100644
--- a/src/core/Workspace.c
+++ b/src/core/Workspace.c
@@ -36,8 +36,11 @@ Work *new_work(size_t n_rows, size_t n_cols)
         (int *) ps_calloc(MAX(n_rows, n_cols), sizeof(int));
     work->int_vec = iVec_new(INT_VEC_INITIALIZATION);
     work->mappings = (Mapping *) ps_malloc(1, sizeof(Mapping));
-    work->mappings->cols = (int *) ps_malloc(n_cols, sizeof(int));
-    work->mappings->rows = (int *) ps_malloc(n_rows, sizeof(int));
+    if (work->mappings)
+    {
+        work->mappings->cols = (int *) ps_malloc(n_cols, sizeof(int));
+        work->mappings->rows = (int *) ps_malloc(n_rows, sizeof(int));
+    }
 
     if (!work->iwork_n_cols || !work->iwork_n_rows ||
         !work->iwork1_max_nrows_ncols || !work->iwork2_max_nrows_ncols ||
@@ -63,8 +66,11 @@ void free_work(Work *work)
     PS_FREE(work->iwork1_max_nrows_ncols);
     PS_FREE(work->iwork2_max_nrows_ncols);
     iVec_free(work->int_vec);
-    PS_FREE(work->mappings->cols);
-    PS_FREE(work->mappings->rows);
-    PS_FREE(work->mappings);
+    if (work->mappings)
+    {
+        PS_FREE(work->mappings->cols);
+        PS_FREE(work->mappings->rows);
+        PS_FREE(work->mappings);
+    }
     PS_FREE(work);
 }
-- 
2.43.0


From 33279d4b4bc6f3dadb318c1b30ff7fde0d589c22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:11 +0000
Subject: [PATCH 18/35] fix: release each part of a partially constructed
 presolver exactly once

---
 src/core/Presolver.c | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/src/core/Presolver.c b/src/core/Presolver.c
index 0827f0e..ad75ac5 100644
--- a/src/core/Presolver.c
+++ b/src/core/Presolver.c
@@ -63,6 +63,7 @@ enum Complexity
 PresolveStats *init_stats(size_t n_rows, size_t n_cols, size_t nnz)
 {
     PresolveStats *stats = (PresolveStats *) ps_calloc(1, sizeof(PresolveStats));
+    RETURN_PTR_IF_NULL(stats, NULL);
     stats->n_rows_original = n_rows;
     stats->n_cols_original = n_cols;
     stats->nnz_original = nnz;
@@ -204,9 +205,17 @@ void presolver_clean_up(clean_up_scope scope)
     free_locks(scope.locks);
     free_work(scope.work);
     free_state(scope.data);
-    free_constraints(scope.constraints);
-    free_objective(scope.obj);
-    free_presolver(scope.presolver);
+
+    // (everything the constraints, the objective and the problem point to has
+    // been freed above)
+    PS_FREE(scope.constraints);
+    PS_FREE(scope.obj);
+
+    if (scope.presolver)
+    {
+        PS_FREE(scope.presolver->prob);
+        free_presolver(scope.presolver);
+    }
 }
 
 Presolver *new_presolver(const double *Ax, const int *Ai, const int *Ap, size_t m,
@@ -308,7 +317,7 @@ Presolver *new_presolver(const double *Ax, const int *Ai, const int *Ap, size_t
     // ---------------------------------------------------------------------------
     //             Allocate the actual presolver
     // ---------------------------------------------------------------------------
-    presolver = (Presolver *) ps_malloc(1, sizeof(Presolver));
+    presolver = (Presolver *) ps_calloc(1, sizeof(Presolver));
     obj = objective_new(c_copy);
     if (!presolver || !obj) goto cleanup;
     presolver->stgs = stgs;
@@ -317,12 +326,17 @@ Presolver *new_presolver(const double *Ax, const int *Ai, const int *Ap, size_t
     // presolver->stats->nnz_removed_trivial = nnz - A->nnz; due to clean_small_coeff
     presolver->reduced_prob =
         (PresolvedProblem *) ps_calloc(1, sizeof(PresolvedProblem));
+    if (!presolver->prob || !presolver->stats || !presolver->reduced_prob)
+    {
+        goto cleanup;
+    }
+
     DEBUG(run_debugger(constraints, false));
 
     // ---------------------------------------------------------------------------
     //           Allocate space for returning the solution
     // ---------------------------------------------------------------------------
-    presolver->sol = (Solution *) ps_malloc(1, sizeof(Solution));
+    presolver->sol = (Solution *) ps_calloc(1, sizeof(Solution));
     if (!presolver->sol) goto cleanup;
     presolver->sol->x = (double *) ps_malloc(n_cols, sizeof(double));
     presolver->sol->y = (double *) ps_malloc(n_rows, sizeof(double));
-- 
2.43.0


From 4d4f20d81403039d0300cddd4ce185a30060ac21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:11 +0000
Subject: [PATCH 19/35] fix: handle a refused helper thread and failures while
 it runs

---
 src/core/Presolver.c | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/core/Presolver.c b/src/core/Presolver.c
index ad75ac5..97a938d 100644
--- a/src/core/Presolver.c
+++ b/src/core/Presolver.c
@@ -119,6 +119,7 @@ static void *init_thread_func(void *arg)
     ParallelInitData *data = (ParallelInitData *) arg;
 
     data->row_tags = new_rowtags(data->lhs_copy, data->rhs_copy, data->n_rows);
+    RETURN_PTR_IF_NULL(data->row_tags, NULL);
 
     for (int i = 0; i < data->n_cols; i++)
     {
@@ -283,25 +284,32 @@ Presolver *new_presolver(const double *Ax, const int *Ai, const int *Ap, size_t
                                       ubs,  lhs_copy, rhs_copy, bounds,   col_tags,
                                       NULL, NULL,     NULL,     row_sizes};
 
-    ps_thread_create(&thread_id, NULL, init_thread_func, &parallel_data);
+    bool has_thread = (ps_thread_create(&thread_id, NULL, init_thread_func,
+                                        &parallel_data) == 0);
+
+    // do everything in this thread if there is no second one
+    if (!has_thread)
+    {
+        init_thread_func(&parallel_data);
+    }
 
     // Main thread: Transpose A and count rows
     AT = transpose(A, work->iwork_n_cols);
-    if (!AT)
+    if (AT)
     {
-        ps_thread_join(&thread_id, NULL);
-        goto cleanup;
+        count_rows(AT, col_sizes);
     }
-    count_rows(AT, col_sizes);
 
     // sync threads
-    ps_thread_join(&thread_id, NULL);
+    if (has_thread)
+    {
+        ps_thread_join(&thread_id, NULL);
+    }
 
     row_tags = parallel_data.row_tags;
-    if (!row_tags) goto cleanup;
     locks = parallel_data.locks;
     activities = parallel_data.activities;
-    if (!locks || !activities) goto cleanup;
+    if (!AT || !row_tags || !locks || !activities) goto cleanup;
 
     // ---------------------------------------------------------------------------
     //  Initialize internal data and constraints
-- 
2.43.0


From ecadf9c32d47c4ca73266ef9bdaf00ab1b002839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:07 +0000
Subject: [PATCH 20/35] fix: size the work lists so that construction never
 ends the process when memory is exhausted

---
 src/core/State.c | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/src/core/State.c b/src/core/State.c
index 06c6fd3..92740de 100644
--- a/src/core/State.c
+++ b/src/core/State.c
@@ -73,6 +73,34 @@ State *new_state(int *row_sizes, int *col_sizes, Lock *col_locks, size_t n_rows,
     /* enable conversion compiler warnings */
     PSLP_DIAG_POP();
 
+    // --------------------------------------------------------------------------
+    // make sure that the vectors need not grow below, since an append can't
+    // report that memory is exhausted
+    // --------------------------------------------------------------------------
+    size_t n_empty_rows = 0, n_ston_rows = 0, n_dton_rows = 0;
+    size_t n_empty_cols = 0, n_ston_cols = 0, n_updated_act = 0;
+    for (size_t i = 0; i < n_rows; ++i)
+    {
+        n_empty_rows += (row_sizes[i] == 0);
+        n_ston_rows += (row_sizes[i] == 1);
+        n_dton_rows += (row_sizes[i] == 2 && HAS_TAG(row_tags[i], R_TAG_EQ));
+        n_updated_act +=
+            (activities[i].n_inf_min == 0 || activities[i].n_inf_max == 0);
+    }
+
+    for (size_t i = 0; i < n_cols; ++i)
+    {
+        n_empty_cols += (col_sizes[i] == 0);
+        n_ston_cols += (col_sizes[i] == 1);
+    }
+
+    len_ston_rows = MAX(len_ston_rows, n_ston_rows);
+    len_ston_cols = MAX(len_ston_cols, n_ston_cols);
+    len_dton_rows = MAX(len_dton_rows, n_dton_rows);
+    len_empty_rows = MAX(len_empty_rows, n_empty_rows);
+    len_empty_cols = MAX(len_empty_cols, n_empty_cols);
+    len_updated_act = MAX(len_updated_act, n_updated_act);
+
     // --------------------------------------------------------------------------
     //                    allocate a bunch of vectors
     // --------------------------------------------------------------------------
-- 
2.43.0


From 7853bd837f3753b07b1e362e9f69ecdcf1230db6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:03 +0000
Subject: [PATCH 21/35] fix: do not read past the row pointers of the caller

---
 src/core/Matrix.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/core/Matrix.c b/src/core/Matrix.c
index 6b2cac7..5d83afc 100644
--- a/src/core/Matrix.c
+++ b/src/core/Matrix.c
@@ -107,12 +107,15 @@ Matrix *matrix_new_no_extra_space(const double *Ax, const int *Ai, const int *Ap
     memcpy(A->x, Ax, nnz * sizeof(double));
     memcpy(A->i, Ai, nnz * sizeof(int));
 
-    for (int i = 0; i <= n_rows; ++i)
+    for (int i = 0; i < n_rows; ++i)
     {
         A->p[i].start = Ap[i];
         A->p[i].end = Ap[i + 1];
     }
 
+    A->p[n_rows].start = Ap[n_rows];
+    A->p[n_rows].end = Ap[n_rows];
+
     return A;
 }
 
-- 
2.43.0


From eca3b781ac17b877c47f3ccaf6644a108a388c2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:20 +0000
Subject: [PATCH 22/35] fix: convert scaled negative coefficients to the row
 hash through a signed integer

---
 src/explorers/Parallel_rows.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/explorers/Parallel_rows.c b/src/explorers/Parallel_rows.c
index 93f6936..0100b3c 100644
--- a/src/explorers/Parallel_rows.c
+++ b/src/explorers/Parallel_rows.c
@@ -75,8 +75,9 @@ static inline uint32_t hash_double_array_with_scale(const double *arr, int size)
     uint32_t hash = 5381;
     for (int i = 0; i < size; i++)
     {
-        uint32_t scaled = (uint32_t) (round((arr[i] * scale) * INV_PRECISION));
-        hash = ((hash << 5) + hash) + scaled;
+        // converting a negative double to an unsigned type is undefined
+        int32_t scaled = (int32_t) (round((arr[i] * scale) * INV_PRECISION));
+        hash = ((hash << 5) + hash) + (uint32_t) scaled;
     }
 
     return hash;
-- 
2.43.0


From 443e93f0e73e8ecd88cfe82cff46a03e7e2cfed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:48 +0000
Subject: [PATCH 23/35] fix: do not read behind a row when a coefficient is
 removed from its end

---
 src/core/Matrix.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/core/Matrix.c b/src/core/Matrix.c
index 5d83afc..a6730d8 100644
--- a/src/core/Matrix.c
+++ b/src/core/Matrix.c
@@ -517,10 +517,11 @@ void remove_coeff(RowView *row, int col)
         if (row->cols[i] == col)
         {
             shift = 1;
+            continue;
         }
 
-        row->vals[i] = row->vals[i + shift];
-        row->cols[i] = row->cols[i + shift];
+        row->vals[i - shift] = row->vals[i];
+        row->cols[i - shift] = row->cols[i];
     }
 
     assert(shift != 0);
-- 
2.43.0


From 6b4e9d2a9249eb824041b2405f68e2efa27cfc09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:36 +0000
Subject: [PATCH 24/35] fix: do not let the bounds of a column cross when a
 singleton row tightens them within the tolerance

---
 src/core/CoreTransformation.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/core/CoreTransformation.c b/src/core/CoreTransformation.c
index 8129a2d..abea6a3 100644
--- a/src/core/CoreTransformation.c
+++ b/src/core/CoreTransformation.c
@@ -155,6 +155,12 @@ PresolveStatus update_lb(Constraints *constraints, int col, double new_lb,
         return INFEASIBLE;
     }
 
+    // within the tolerance the bounds must not cross
+    if (!HAS_TAG(*col_tag, C_TAG_UB_INF) && new_lb > ub)
+    {
+        new_lb = ub;
+    }
+
     bool is_lb_inf = HAS_TAG(*col_tag, C_TAG_LB_INF);
 
     // update the lower bound if it is tighter
@@ -208,6 +214,12 @@ PresolveStatus update_ub(Constraints *constraints, int col, double new_ub,
         return INFEASIBLE;
     }
 
+    // within the tolerance the bounds must not cross
+    if (!HAS_TAG(*col_tag, C_TAG_LB_INF) && new_ub < lb)
+    {
+        new_ub = lb;
+    }
+
     bool is_ub_inf = HAS_TAG(*col_tag, C_TAG_UB_INF);
 
     // update the upper bound if it is tighter
-- 
2.43.0


From f701a8a7ee53200a3160605fcafd8835e73c8dc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:15 +0000
Subject: [PATCH 25/35] fix: clean rounding noise in the reduced cost of a
 merged parallel column in production builds as well

---
 src/core/Postsolver.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/Postsolver.c b/src/core/Postsolver.c
index 82e85bc..edaa18d 100644
--- a/src/core/Postsolver.c
+++ b/src/core/Postsolver.c
@@ -294,9 +294,9 @@ static void retrieve_parallel_col(Solution *sol, const int *indices,
         sol->z[k] = 0.0;
     }
 
-#ifndef NDEBUG
     SET_ZERO_IF_SMALL_DUAL_POSTSOLVE(sol->z[j]);
 
+#ifndef NDEBUG
     // if the multiplier is positive the variable should be at its lower bound
     if (sol->z[j] > 0)
     {
-- 
2.43.0


From ff3ffe9840254ac007205078b6e41a7fbd3734c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:11 +0000
Subject: [PATCH 26/35] fix: remove rounding noise of a merged parallel column
 before it is passed on

---
 src/core/Postsolver.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/core/Postsolver.c b/src/core/Postsolver.c
index edaa18d..c7d88a6 100644
--- a/src/core/Postsolver.c
+++ b/src/core/Postsolver.c
@@ -285,6 +285,9 @@ static void retrieve_parallel_col(Solution *sol, const int *indices,
         (!HAS_TAG(cTag_k, C_TAG_LB_INF) && IS_EQUAL_FEAS_TOL(xk_val, lb_k)) ||
         (!HAS_TAG(cTag_k, C_TAG_UB_INF) && IS_EQUAL_FEAS_TOL(xk_val, ub_k));
 
+    // rounding noise must be removed before it is passed on to variable k
+    SET_ZERO_IF_SMALL_DUAL_POSTSOLVE(sol->z[j]);
+
     if (is_xj_at_bound && is_xk_at_bound)
     {
         sol->z[k] = ratio * sol->z[j];
@@ -294,8 +297,6 @@ static void retrieve_parallel_col(Solution *sol, const int *indices,
         sol->z[k] = 0.0;
     }
 
-    SET_ZERO_IF_SMALL_DUAL_POSTSOLVE(sol->z[j]);
-
 #ifndef NDEBUG
     // if the multiplier is positive the variable should be at its lower bound
     if (sol->z[j] > 0)
-- 
2.43.0


From 7866e1ca5a7bcbec7cd99ce78f6a3e83c1b0bb42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:30 +0000
Subject: [PATCH 27/35] fix: do not mistake rounding noise in an updated
 objective coefficient for an improving direction

---
 include/core/Numerics.h | 7 +++++++
 src/core/Problem.c      | 3 ++-
 src/explorers/DtonsEq.c | 2 +-
 3 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/core/Numerics.h b/include/core/Numerics.h
index af30ca8..fb3bcc3 100644
--- a/include/core/Numerics.h
+++ b/include/core/Numerics.h
@@ -57,4 +57,11 @@
         if (fabs(x) < ZERO_TOL_DUAL_POSTSOLVE) x = 0.0;                             \
     } while (0)
 
+// computes x - y and returns zero if only rounding noise remains of x
+static inline double subtract_clean(double x, double y)
+{
+    double diff = x - y;
+    return (fabs(diff) <= ZERO_TOL * fabs(x)) ? 0.0 : diff;
+}
+
 #endif // CORE_NUMERICS_H
diff --git a/src/core/Problem.c b/src/core/Problem.c
index f9e792c..a103422 100644
--- a/src/core/Problem.c
+++ b/src/core/Problem.c
@@ -20,6 +20,7 @@
 #include "Constraints.h"
 #include "Matrix.h"
 #include "Memory_wrapper.h"
+#include "Numerics.h"
 #include "State.h"
 #include "Workspace.h"
 #include "utils.h"
@@ -103,7 +104,7 @@ void sub_var_in_obj(Objective *obj, const double *vals, const int *cols, int len
     double ratio = obj->c[k] / aik;
     for (int i = 0; i < len; ++i)
     {
-        obj->c[cols[i]] -= ratio * vals[i];
+        obj->c[cols[i]] = subtract_clean(obj->c[cols[i]], ratio * vals[i]);
     }
 
     obj->offset += rhs * ratio;
diff --git a/src/explorers/DtonsEq.c b/src/explorers/DtonsEq.c
index feeb224..bd9eda0 100644
--- a/src/explorers/DtonsEq.c
+++ b/src/explorers/DtonsEq.c
@@ -390,7 +390,7 @@ static inline
 static inline void subst_col_in_obj_dton(Objective *obj, int stay, int subst,
                                          double aik, double aij, double rhs)
 {
-    obj->c[stay] -= (aij / aik) * obj->c[subst];
+    obj->c[stay] = subtract_clean(obj->c[stay], (aij / aik) * obj->c[subst]);
     obj->offset += (rhs / aik) * obj->c[subst];
 }
 
-- 
2.43.0


From c52681b35682e42d56ea1735c785983109f2dbdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:41 +0000
Subject: [PATCH 28/35] fix: keep the arrays that the sorting comparators look
 at separate for every thread

---
 include/core/pslp_thread.h         | 7 +++++++
 src/explorers/Parallel_rows.c      | 5 +++--
 src/explorers/Primal_propagation.c | 3 ++-
 3 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/include/core/pslp_thread.h b/include/core/pslp_thread.h
index e0ac373..8e2e46e 100644
--- a/include/core/pslp_thread.h
+++ b/include/core/pslp_thread.h
@@ -57,4 +57,11 @@ static inline int ps_thread_join(ps_thread_t *thread, void **retval)
 
 #endif /* Windows / POSIX */
 
+// storage that every thread has its own copy of
+#if defined(_MSC_VER)
+#define PS_THREAD_LOCAL __declspec(thread)
+#else
+#define PS_THREAD_LOCAL __thread
+#endif
+
 #endif /* PSLP_THREAD_H */
diff --git a/src/explorers/Parallel_rows.c b/src/explorers/Parallel_rows.c
index 0100b3c..0791aa0 100644
--- a/src/explorers/Parallel_rows.c
+++ b/src/explorers/Parallel_rows.c
@@ -28,14 +28,15 @@
 #include "Workspace.h"
 #include "iVec.h"
 #include "limits.h" // for INT_MAX
+#include "pslp_thread.h"
 #include "utils.h"
 #include <PSLP_warnings.h>
 #include <math.h> // For round()
 #include <stdint.h>
 
 // global variables needed for qsort
-static int *global_sparsity_IDs;
-static int *global_coeff_hashes;
+static PS_THREAD_LOCAL int *global_sparsity_IDs;
+static PS_THREAD_LOCAL int *global_coeff_hashes;
 
 // djb2 hash function
 static inline uint32_t hash_int_array(const int *arr, int size)
diff --git a/src/explorers/Primal_propagation.c b/src/explorers/Primal_propagation.c
index 0958936..23c5cc7 100644
--- a/src/explorers/Primal_propagation.c
+++ b/src/explorers/Primal_propagation.c
@@ -28,6 +28,7 @@
 #include "SimpleReductions.h"
 #include "State.h"
 #include "Workspace.h"
+#include "pslp_thread.h"
 #include "utils.h"
 
 static PresolveStatus update_lb_within_propagation(double new_lb, double *lb,
@@ -783,7 +784,7 @@ PresolveStatus propagate_primal(Problem *prob, bool finite_bound_tightening)
 }
 
 // Static variable to hold col_sizes (for qsort)
-static const int *global_col_sizes;
+static PS_THREAD_LOCAL const int *global_col_sizes;
 
 int compare_col_len(const void *a, const void *b)
 {
-- 
2.43.0


From 06644a5679c70cd1281e7947232826c4921cf598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:34 +0000
Subject: [PATCH 29/35] fix: a doubleton equation may pass on a huge bound of
 the user without failing an internal check

---
 src/explorers/DtonsEq.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/explorers/DtonsEq.c b/src/explorers/DtonsEq.c
index bd9eda0..c7c12e9 100644
--- a/src/explorers/DtonsEq.c
+++ b/src/explorers/DtonsEq.c
@@ -201,7 +201,7 @@ static inline PresolveStatus modify_bounds(Constraints *constraints, int i,
         {
             double new_ub_cand = (rhs - aik * lb_subst) / aij;
             if (update_ub(constraints, stay, new_ub_cand,
-                          i HUGE_BOUND_IS_NOT_OK) == INFEASIBLE)
+                          i HUGE_BOUND_IS_OK) == INFEASIBLE)
             {
                 return INFEASIBLE;
             }
@@ -215,7 +215,7 @@ static inline PresolveStatus modify_bounds(Constraints *constraints, int i,
         if (!HAS_TAG(col_tag_subst, C_TAG_UB_INF))
         {
             double new_lb_cand = (rhs - aik * ub_subst) / aij;
-            return update_lb(constraints, stay, new_lb_cand, i HUGE_BOUND_IS_NOT_OK);
+            return update_lb(constraints, stay, new_lb_cand, i HUGE_BOUND_IS_OK);
         }
     }
     else
@@ -224,7 +224,7 @@ static inline PresolveStatus modify_bounds(Constraints *constraints, int i,
         {
             double new_lb_cand = (rhs - aik * lb_subst) / aij;
             if (update_lb(constraints, stay, new_lb_cand,
-                          i HUGE_BOUND_IS_NOT_OK) == INFEASIBLE)
+                          i HUGE_BOUND_IS_OK) == INFEASIBLE)
             {
                 return INFEASIBLE;
             }
@@ -238,7 +238,7 @@ static inline PresolveStatus modify_bounds(Constraints *constraints, int i,
         if (!HAS_TAG(col_tag_subst, C_TAG_UB_INF))
         {
             double new_ub_cand = (rhs - aik * ub_subst) / aij;
-            return update_ub(constraints, stay, new_ub_cand, i HUGE_BOUND_IS_NOT_OK);
+            return update_ub(constraints, stay, new_ub_cand, i HUGE_BOUND_IS_OK);
         }
     }
 
-- 
2.43.0


From 84d9d97e05736a0e78b8ca596576c514f55add76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:04 +0000
Subject: [PATCH 30/35] fix: the margin of an implied bound may carry it over
 the limit of huge bounds

---
 src/explorers/Primal_propagation.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/explorers/Primal_propagation.c b/src/explorers/Primal_propagation.c
index 23c5cc7..d3e2d60 100644
--- a/src/explorers/Primal_propagation.c
+++ b/src/explorers/Primal_propagation.c
@@ -82,7 +82,8 @@ static PresolveStatus update_lb_within_propagation(double new_lb, double *lb,
     if (is_lb_inf || (*finite_bound_tightening && (new_lb - *lb > FEAS_TOL * 1e4) &&
                       (new_lb - *lb > 1e-2 * ABS(*lb))))
     {
-        // very important to scale bound marginal with ABS
+        // very important to scale bound marginal with ABS (it may carry a bound
+        // that is just not huge, see the assert above, over the limit)
         if (!IS_INTEGRAL(new_lb))
         {
             new_lb -= BOUND_MARGINAL * ABS(new_lb);
@@ -96,7 +97,7 @@ static PresolveStatus update_lb_within_propagation(double new_lb, double *lb,
         update_activities_bound_change(
             constraints->state->activities, constraints->A, constraints->bounds,
             vals, rows, (int) len, old_bound, new_lb, !is_lb_inf, true,
-            constraints->state->updated_activities HUGE_BOUND_IS_NOT_OK);
+            constraints->state->updated_activities HUGE_BOUND_IS_OK);
 
         save_retrieval_bound_change_no_row(constraints->state->postsolve_info, col,
                                            new_lb, ub, false);
@@ -157,7 +158,8 @@ static PresolveStatus update_ub_within_propagation(double new_ub, double *ub,
     if (is_ub_inf || (*finite_bound_tightening && (*ub - new_ub > FEAS_TOL * 1e4) &&
                       (*ub - new_ub > 1e-2 * ABS(*ub))))
     {
-        // very important to scale bound marginal with ABS
+        // very important to scale bound marginal with ABS (it may carry a bound
+        // that is just not huge, see the assert above, over the limit)
         if (!IS_INTEGRAL(new_ub))
         {
             new_ub += BOUND_MARGINAL * ABS(new_ub);
@@ -171,7 +173,7 @@ static PresolveStatus update_ub_within_propagation(double new_ub, double *ub,
         update_activities_bound_change(
             constraints->state->activities, constraints->A, constraints->bounds,
             vals, rows, (int) len, old_bound, new_ub, !is_ub_inf, false,
-            constraints->state->updated_activities HUGE_BOUND_IS_NOT_OK);
+            constraints->state->updated_activities HUGE_BOUND_IS_OK);
 
         save_retrieval_bound_change_no_row(constraints->state->postsolve_info, col,
                                            new_ub, lb, true);
-- 
2.43.0


From d1dccf51fcca52d3d9d6721ecffab313e34f0b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:37 +0000
Subject: [PATCH 31/35] fix: pass the multiplier of a merged column on even if
 the solution is off its bound by a small error

---
 src/core/Postsolver.c | 24 ++++++------------------
 1 file changed, 6 insertions(+), 18 deletions(-)

diff --git a/src/core/Postsolver.c b/src/core/Postsolver.c
index c7d88a6..7cbe30f 100644
--- a/src/core/Postsolver.c
+++ b/src/core/Postsolver.c
@@ -277,25 +277,13 @@ static void retrieve_parallel_col(Solution *sol, const int *indices,
     sol->x[j] = xj_val;
     sol->x[k] = xk_val;
 
-    // dual postsolve
-    bool is_xj_at_bound =
-        (!HAS_TAG(cTag_j, C_TAG_LB_INF) && IS_EQUAL_FEAS_TOL(xj_val, lb_j)) ||
-        (!HAS_TAG(cTag_j, C_TAG_UB_INF) && IS_EQUAL_FEAS_TOL(xj_val, ub_j));
-    bool is_xk_at_bound =
-        (!HAS_TAG(cTag_k, C_TAG_LB_INF) && IS_EQUAL_FEAS_TOL(xk_val, lb_k)) ||
-        (!HAS_TAG(cTag_k, C_TAG_UB_INF) && IS_EQUAL_FEAS_TOL(xk_val, ub_k));
-
-    // rounding noise must be removed before it is passed on to variable k
+    // ----------------------------------------------------------------
+    // dual postsolve. A multiplier is non-zero only if the merged variable
+    // is at a bound, and then both xj and xk are at theirs.
+    // (rounding noise must be removed before it is passed on to variable k)
+    // ----------------------------------------------------------------
     SET_ZERO_IF_SMALL_DUAL_POSTSOLVE(sol->z[j]);
-
-    if (is_xj_at_bound && is_xk_at_bound)
-    {
-        sol->z[k] = ratio * sol->z[j];
-    }
-    else
-    {
-        sol->z[k] = 0.0;
-    }
+    sol->z[k] = ratio * sol->z[j];
 
 #ifndef NDEBUG
     // if the multiplier is positive the variable should be at its lower bound
-- 
2.43.0


From d28fa684c4259ebfa97f237220bc85c4bd1c5493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:56 +0000
Subject: [PATCH 32/35] fix: contradicting sides of a row with several entries
 were not reported as infeasible

---
 src/core/Presolver.c | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/core/Presolver.c b/src/core/Presolver.c
index 97a938d..4bd89d8 100644
--- a/src/core/Presolver.c
+++ b/src/core/Presolver.c
@@ -681,6 +681,21 @@ static inline PresolveStatus final_status(PresolveStats *stats)
     }
 }
 
+/* Returns INFEASIBLE if the two sides of some row contradict each other (bounds
+   that do so are found by the trivial presolvers) and UNCHANGED otherwise */
+static PresolveStatus compare_row_sides(const Constraints *constraints)
+{
+    for (size_t i = 0; i < constraints->m; ++i)
+    {
+        if (constraints->lhs[i] > constraints->rhs[i] + FEAS_TOL)
+        {
+            return INFEASIBLE;
+        }
+    }
+
+    return UNCHANGED;
+}
+
 PresolveStatus run_presolver(Presolver *presolver)
 {
     Timer inner_timer, outer_timer;
@@ -710,6 +725,8 @@ PresolveStatus run_presolver(Presolver *presolver)
     // ------------------------------------------------------------------------
     nnz_before_cycle = A->nnz;
     nnz_after_cycle = A->nnz; /* to avoid unitialized variable warning */
+    status = compare_row_sides(prob->constraints);
+    terminate = (status != UNCHANGED);
     while (!terminate)
     {
         // before each phase we run the trivial presolvers
-- 
2.43.0


From b224c04021db545b7752a984f9eaeaee07d30c88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:24 +0000
Subject: [PATCH 33/35] fix: rows with coefficients that differ by less than
 the feasibility tolerance were merged as parallel

---
 src/explorers/Parallel_rows.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/explorers/Parallel_rows.c b/src/explorers/Parallel_rows.c
index 0791aa0..9f2ff73 100644
--- a/src/explorers/Parallel_rows.c
+++ b/src/explorers/Parallel_rows.c
@@ -283,6 +283,13 @@ static inline int find_parallel_rows_in_bin(const Matrix *A, const int *bin,
             {
                 break;
             }
+
+            // the difference must also be small compared to the coefficient itself,
+            // since the variable may take large values
+            if (ABS(diff) > ZERO_TOL * ABS(vals1[j]))
+            {
+                break;
+            }
         }
 
         // if j == len2, we have found a parallel row
-- 
2.43.0


From 65ab57df9694e86cf994678b711f468d1f2291b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:24 +0000
Subject: [PATCH 34/35] fix: columns with different costs below the feasibility
 tolerance were merged as parallel

---
 src/explorers/Parallel_cols.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/explorers/Parallel_cols.c b/src/explorers/Parallel_cols.c
index a06cb2b..4aaa268 100644
--- a/src/explorers/Parallel_cols.c
+++ b/src/explorers/Parallel_cols.c
@@ -87,7 +87,10 @@ static inline PresolveStatus process_single_bin(const Problem *prob, const int *
             // if column j and column k are parallel, remove column k
             // if you run into issues with parallel cols activated, try to
             // change this
-            if (IS_EQUAL_FEAS_TOL(ck * aj_vals[0], cj * ak0))
+            // (the difference of the costs must be as small as rounding errors,
+            // since the variables may take large values)
+            if (IS_EQUAL_FEAS_TOL(ck * aj_vals[0], cj * ak0) &&
+                ABS(ck * aj_vals[0] - cj * ak0) <= ZERO_TOL * MAX(1.0, ABS(cj * ak0)))
             {
                 // mark that we must recount n_infs for rows in which column j
                 // appears in
-- 
2.43.0


From 0337b4f5f7d366ed2f233317c61efc3419f6649b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:24 +0000
Subject: [PATCH 35/35] fix: an internal check failed when coefficients almost
 cancel in a substitution

---
 src/explorers/DtonsEq.c | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/explorers/DtonsEq.c b/src/explorers/DtonsEq.c
index c7c12e9..de14b87 100644
--- a/src/explorers/DtonsEq.c
+++ b/src/explorers/DtonsEq.c
@@ -308,16 +308,12 @@ static inline
     save_retrieval_added_row(postsolve_info, i, q, -A->x[subst_idx] / aik);
 
 #ifndef NDEBUG
-    if (ABS(A->x[subst_idx]) > 1e-6)
-    {
-        assert(ABS(new_val) > 1e-6 || new_val == 0.0);
-    }
-
     if (ABS(new_val) < 1e-6 && new_val != 0.0)
     {
         // when we eliminate row 32833 on momentum and substitute col x20
         // into row 30698 this is triggered, because x20 has a very small
-        // coefficient in row 30698 BEFORE the substitution
+        // coefficient in row 30698 BEFORE the substitution (coefficients that
+        // almost cancel trigger this as well)
         printf("warning debug: small coefficient dtonrow \n");
     }
 #endif
-- 
2.43.0

