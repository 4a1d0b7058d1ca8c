From 9759510389e19394faa33480b405e85b87468ca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:09:01 +0000
Subject: [PATCH 01/17] fix: set all constraint values to NaN in the shift
 transformation

transform_vars_shift_evaluate_constraint() filled number_of_objectives instead of
number_of_constraints outputs when the point contains NaN, leaving the rest undefined.
---
 src/transform_vars_shift.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/transform_vars_shift.c b/src/transform_vars_shift.c
index b095ea1..6978e3b 100644
--- a/src/transform_vars_shift.c
+++ b/src/transform_vars_shift.c
@@ -60,7 +60,7 @@ static void transform_vars_shift_evaluate_constraint(coco_problem_t *problem, co
   coco_problem_t *inner_problem;
 
   if (coco_vector_contains_nan(x, coco_problem_get_dimension(problem))) {
-    coco_vector_set_to_nan(y, coco_problem_get_number_of_objectives(problem));
+    coco_vector_set_to_nan(y, coco_problem_get_number_of_constraints(problem));
     return;
   }
 
-- 
2.43.0


From 9dc06b69e61452fa204977c121cfebcad69ef108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:36:58 +0000
Subject: [PATCH 02/17] fix: release the suite when coco_suite() rejects its
 options

---
 src/coco_suite.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/coco_suite.c b/src/coco_suite.c
index 8511109..5155368 100644
--- a/src/coco_suite.c
+++ b/src/coco_suite.c
@@ -806,6 +806,8 @@ coco_suite_t *coco_suite(const char *suite_name, const char *suite_instance,
       while (*ptr != '\0') {
         if ((*ptr != ',') && !isdigit((unsigned char)*ptr)) {
           coco_warning("coco_suite(): 'dimensions' suite option ignored because of disallowed characters");
+          coco_free_memory(option_string);
+          coco_suite_free(suite);
           return NULL;
         } else
           ptr++;
@@ -854,6 +856,7 @@ coco_suite_t *coco_suite(const char *suite_name, const char *suite_instance,
   if ((number_of_active_dimensions < 1) || (suite->number_of_dimensions < 1) || (suite->number_of_functions < 1) ||
       (suite->number_of_instances < 1)) {
     coco_warning("coco_suite(): the suite does not contain at least one dimension, function and instance");
+    coco_suite_free(suite);
     return NULL;
   }
 
-- 
2.43.0


From f9148d703635f2acffcb933c981027043c358c0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:37:08 +0000
Subject: [PATCH 03/17] fix: honour the precedence of conflicting suite options
 also at the start of the option string

---
 src/coco_suite.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/coco_suite.c b/src/coco_suite.c
index 5155368..e1376e5 100644
--- a/src/coco_suite.c
+++ b/src/coco_suite.c
@@ -510,7 +510,7 @@ static size_t *coco_suite_get_instance_indices(const coco_suite_t *suite,
   if ((year_found < 0) && (instances_found < 0))
     return NULL;
 
-  if ((year_found > 0) && (instances_found > 0)) {
+  if ((year_found >= 0) && (instances_found >= 0)) {
     if (year_found < instances_found) {
       parse_instances = 0;
       coco_warning("coco_suite_get_instance_indices(): 'instances' suite option ignored because it follows 'year'");
@@ -773,7 +773,7 @@ coco_suite_t *coco_suite(const char *suite_name, const char *suite_instance,
     dim_found = coco_strfind(suite_options, "dimensions");
     dim_idx_found = coco_strfind(suite_options, "dimension_indices");
 
-    if ((dim_found > 0) && (dim_idx_found > 0)) {
+    if ((dim_found >= 0) && (dim_idx_found >= 0)) {
       if (dim_found < dim_idx_found) {
         parce_dim_idx = 0;
         coco_warning("coco_suite(): 'dimension_indices' suite option ignored because it follows 'dimensions'");
-- 
2.43.0


From 67769f295bbd34d2a4cf205e07e7e0fee5c7adc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:37:21 +0000
Subject: [PATCH 04/17] fix: look up instance indices in the list of instances

---
 src/coco_suite.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/coco_suite.c b/src/coco_suite.c
index e1376e5..e526362 100644
--- a/src/coco_suite.c
+++ b/src/coco_suite.c
@@ -401,7 +401,7 @@ size_t coco_suite_get_instance_from_instance_index(const coco_suite_t *suite,
     return 0; /* Never reached*/
   }
 
-  return suite->functions[instance_idx];
+  return suite->instances[instance_idx];
 }
 
 void coco_suite_free(coco_suite_t *suite) {
-- 
2.43.0


From 68c31e809158f4fd14ec73527a7b272c6a03a068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:37:21 +0000
Subject: [PATCH 05/17] fix: set the decoded indices when the problem index is
 too large

---
 src/coco_suite.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/coco_suite.c b/src/coco_suite.c
index e526362..0cd0c5c 100644
--- a/src/coco_suite.c
+++ b/src/coco_suite.c
@@ -985,9 +985,9 @@ void coco_suite_decode_problem_index(const coco_suite_t *suite, const size_t pro
                        suite->number_of_dimensions) -
                           1) {
     coco_warning("coco_suite_decode_problem_index(): problem_index too large");
-    function_idx = 0;
-    instance_idx = 0;
-    dimension_idx = 0;
+    *function_idx = 0;
+    *instance_idx = 0;
+    *dimension_idx = 0;
     return;
   }
 
-- 
2.43.0


From 16d77fc4db2af70e694f97c6b7c3b7489c9446fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:37:30 +0000
Subject: [PATCH 06/17] fix: release infeasible solutions in the bi-objective
 logger

---
 src/logger_biobj.c | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/logger_biobj.c b/src/logger_biobj.c
index 1e40963..e1ada8c 100644
--- a/src/logger_biobj.c
+++ b/src/logger_biobj.c
@@ -658,7 +658,7 @@ static void logger_biobj_indicator_free(void *stuff) {
  *
  * The relative_target_value is a target for indicator difference, not the actual indicator value!
  */
-static void logger_biobj_output(logger_biobj_data_t *logger, const int update_performed,
+static void logger_biobj_output(logger_biobj_data_t *logger, const int update_performed, const int is_feasible,
                                 const logger_biobj_avl_item_t *node_item) {
 
   size_t i, j;
@@ -694,7 +694,7 @@ static void logger_biobj_output(logger_biobj_data_t *logger, const int update_pe
 
         /* Check whether a target was hit */
         indicator->target_hit = coco_observer_targets_trigger(indicator->targets, indicator->overall_value);
-      } else if ((logger->num_func_evaluations == 1) && (node_item->is_feasible == 0)) {
+      } else if ((logger->num_func_evaluations == 1) && (is_feasible == 0)) {
         /* Special case if the solution is infeasible and this is the first evaluation */
         indicator->overall_value = INFINITY_FOR_LOGGING;
         indicator->target_hit = coco_observer_targets_trigger(indicator->targets, indicator->overall_value);
@@ -749,7 +749,7 @@ static void logger_biobj_evaluate(coco_problem_t *problem, const double *x, doub
 
   logger_biobj_data_t *logger;
   logger_biobj_avl_item_t *node_item;
-  int update_performed;
+  int update_performed, is_feasible;
   coco_problem_t *inner_problem;
   double *constraints = NULL;
 
@@ -773,6 +773,7 @@ static void logger_biobj_evaluate(coco_problem_t *problem, const double *x, doub
 
   /* Update the archive with the new solution, if it is not dominated by or equal to existing solutions in
    * the archive */
+  is_feasible = node_item->is_feasible;
   update_performed = logger_biobj_tree_update(logger, node_item);
 
   /* If the archive was updated and you need to log all nondominated solutions, output the new solution to
@@ -788,7 +789,9 @@ static void logger_biobj_evaluate(coco_problem_t *problem, const double *x, doub
   }
 
   /* Output according to observer options */
-  logger_biobj_output(logger, update_performed, node_item);
+  logger_biobj_output(logger, update_performed, is_feasible, node_item);
+  if (!is_feasible) /* not taken over by the archive */
+    logger_biobj_node_free(node_item, NULL);
 
   /* Free allocated memory */
   if (problem->number_of_constraints > 0)
@@ -870,7 +873,7 @@ int coco_logger_biobj_feed_solution(coco_problem_t *problem, const size_t evalua
 
   logger_biobj_data_t *logger;
   logger_biobj_avl_item_t *node_item;
-  int update_performed;
+  int update_performed, is_feasible;
   coco_problem_t *inner_problem;
   double *x;
   size_t i;
@@ -897,10 +900,13 @@ int coco_logger_biobj_feed_solution(coco_problem_t *problem, const size_t evalua
   coco_free_memory(x);
 
   /* Update the archive */
+  is_feasible = node_item->is_feasible;
   update_performed = logger_biobj_tree_update(logger, node_item);
 
   /* Output according to observer options */
-  logger_biobj_output(logger, update_performed, node_item);
+  logger_biobj_output(logger, update_performed, is_feasible, node_item);
+  if (!is_feasible) /* not taken over by the archive */
+    logger_biobj_node_free(node_item, NULL);
 
   return update_performed;
 }
-- 
2.43.0


From 703c5a2de4844b01c58a3f57c68bd539ab284227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:47:01 +0000
Subject: [PATCH 07/17] fix: do not allocate the nadir point twice when
 duplicating a problem

---
 src/coco_problem.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/coco_problem.c b/src/coco_problem.c
index 751095e..f70ce4b 100644
--- a/src/coco_problem.c
+++ b/src/coco_problem.c
@@ -247,12 +247,11 @@ static coco_problem_t *coco_problem_duplicate(const coco_problem_t *other) {
       problem->best_value[i] = other->best_value[i];
     }
 
-  if (other->nadir_value) {
-    problem->nadir_value = coco_allocate_vector(problem->number_of_objectives);
+  /* coco_problem_allocate allocates ->nadir_value for more than one objective */
+  if (other->nadir_value)
     for (i = 0; i < problem->number_of_objectives; ++i) {
       problem->nadir_value[i] = other->nadir_value[i];
     }
-  }
 
   problem->problem_name = coco_strdup(other->problem_name);
   problem->problem_id = coco_strdup(other->problem_id);
-- 
2.43.0


From 19d51ca4aec0037b4fb4bc4ca4f2ea1613d4767c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:35:13 +0000
Subject: [PATCH 08/17] fix: initialise the last logged evaluations of the bbob
 logger

---
 src/logger_bbob.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/logger_bbob.c b/src/logger_bbob.c
index b6eb134..16e9a80 100644
--- a/src/logger_bbob.c
+++ b/src/logger_bbob.c
@@ -699,6 +699,8 @@ static coco_problem_t *logger_bbob(coco_observer_t *observer, coco_problem_t *in
 
   logger_data->num_func_evaluations = 0;
   logger_data->num_cons_evaluations = 0;
+  logger_data->last_logged_eval_dat = 0;
+  logger_data->last_logged_eval_tdat = 0;
   logger_data->last_logged_eval_mdat = 0;
   /* logger_data->last_logged_evaluation = 0; */
 
-- 
2.43.0


From d90179aae15fb871be8e496838412288d5262887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:30:33 +0000
Subject: [PATCH 09/17] fix: do not interpret option strings and problem ids as
 formats

---
 src/c_linear.c              | 2 +-
 src/coco_problem.c          | 2 +-
 src/coco_utilities.c        | 2 +-
 src/suite_biobj_mixint.c    | 2 +-
 src/suite_biobj_utilities.c | 2 +-
 5 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/c_linear.c b/src/c_linear.c
index 42a86e6..42e110e 100644
--- a/src/c_linear.c
+++ b/src/c_linear.c
@@ -411,7 +411,7 @@ c_linear_cons_bbob_problem_allocate(const size_t function, const size_t dimensio
     /* Use the standard stacked problem_id as problem_name and
      * construct a new suite-specific problem_id
      */
-    coco_problem_set_name(problem_c, problem_c->problem_id);
+    coco_problem_set_name(problem_c, "%s", problem_c->problem_id);
     coco_problem_set_id(problem_c, "bbob-constrained_f%02lu_i%02lu_d%02lu", (unsigned long)function,
                         (unsigned long)instance, (unsigned long)dimension);
 
diff --git a/src/coco_problem.c b/src/coco_problem.c
index f70ce4b..fcad2c5 100644
--- a/src/coco_problem.c
+++ b/src/coco_problem.c
@@ -387,7 +387,7 @@ static void coco_problem_set_id(coco_problem_t *problem, const char *id, ...) {
     coco_free_memory(problem->problem_id);
   problem->problem_id = coco_vstrdupf(id, args);
   va_end(args);
-  if (!coco_problem_id_is_fine(problem->problem_id)) {
+  if (!coco_problem_id_is_fine("%s", problem->problem_id)) {
     coco_error("Problem id should only contain standard chars, not like '%s'", problem->problem_id);
   }
 }
diff --git a/src/coco_utilities.c b/src/coco_utilities.c
index 4f31ef4..944b7d9 100644
--- a/src/coco_utilities.c
+++ b/src/coco_utilities.c
@@ -655,7 +655,7 @@ static coco_option_keys_t *coco_option_keys(const char *option_string) {
   if (keys) {
     for (i = 0; *(keys + i); i++) {
       if (i == 0)
-        cleaned_option_string = coco_strdupf(*(keys + i));
+        cleaned_option_string = coco_strdup(*(keys + i));
       else {
         string_pointer = cleaned_option_string;
         if (i % 2 == 0) {
diff --git a/src/suite_biobj_mixint.c b/src/suite_biobj_mixint.c
index a315e9d..7c6931a 100644
--- a/src/suite_biobj_mixint.c
+++ b/src/suite_biobj_mixint.c
@@ -146,7 +146,7 @@ static coco_problem_t *coco_get_biobj_mixint_problem(const size_t function, cons
                                           largest_values_of_interest);
 
   /* Use the standard stacked problem_id as problem_name and construct a new problem_id */
-  coco_problem_set_name(problem, problem->problem_id);
+  coco_problem_set_name(problem, "%s", problem->problem_id);
   coco_problem_set_id(problem, "bbob-biobj-mixint_f%03lu_i%02lu_d%03lu", (unsigned long)function,
                       (unsigned long)instance, (unsigned long)dimension);
 
diff --git a/src/suite_biobj_utilities.c b/src/suite_biobj_utilities.c
index 6a899a2..c347b3a 100644
--- a/src/suite_biobj_utilities.c
+++ b/src/suite_biobj_utilities.c
@@ -463,7 +463,7 @@ static coco_problem_t *coco_get_biobj_problem(const size_t function, const size_
   problem = coco_problem_stacked_allocate(problem1, problem2, smallest_values_of_interest, largest_values_of_interest);
 
   /* Use the standard stacked problem_id as problem_name and construct a new problem_id */
-  coco_problem_set_name(problem, problem->problem_id);
+  coco_problem_set_name(problem, "%s", problem->problem_id);
   /* Attention! Any change to the problem id affects also archive processing! */
   coco_problem_set_id(problem, "bbob-biobj_f%02lu_i%02lu_d%02lu", (unsigned long)function, (unsigned long)instance,
                       (unsigned long)dimension);
-- 
2.43.0


From 8d00ce63ed508468e8a5efd14b83b1a393395eaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:32:05 +0000
Subject: [PATCH 10/17] fix: match the conversions of messages with their
 arguments

---
 src/c_linear.c                     | 5 +++--
 src/logger_bbob.c                  | 4 ++--
 src/logger_bbob_old.c              | 7 ++++---
 src/logger_biobj.c                 | 4 ++--
 src/logger_toy.c                   | 4 ++--
 src/suite_biobj_utilities.c        | 3 ++-
 src/transform_vars_blockrotation.c | 4 ++--
 7 files changed, 17 insertions(+), 14 deletions(-)

diff --git a/src/c_linear.c b/src/c_linear.c
index 42e110e..f8be306 100644
--- a/src/c_linear.c
+++ b/src/c_linear.c
@@ -385,8 +385,9 @@ c_linear_cons_bbob_problem_allocate(const size_t function, const size_t dimensio
       shift_factor = 0.0;
     } else { /* create an inactive (shifted) constraint */
       if (inactive_constraints_left-- <= 0)
-        coco_error("c_linear_cons_bbob_problem_allocate(): no inactive left i=%d j=%d nb_act=%ul nb_con=%ul", i, j,
-                   number_of_active_constraints, number_of_linear_constraints);
+        coco_error("c_linear_cons_bbob_problem_allocate(): no inactive left i=%lu j=%lu nb_act=%lu nb_con=%lu",
+                   (unsigned long)i, (unsigned long)j, (unsigned long)number_of_active_constraints,
+                   (unsigned long)number_of_linear_constraints);
       gradient = NULL;
       shift_factor = 0.01 + 2.0 * coco_random_uniform(random_generator);
     }
diff --git a/src/logger_bbob.c b/src/logger_bbob.c
index 16e9a80..c9a26d5 100644
--- a/src/logger_bbob.c
+++ b/src/logger_bbob.c
@@ -674,8 +674,8 @@ static coco_problem_t *logger_bbob(coco_observer_t *observer, coco_problem_t *in
   assert(inner_problem->suite);
   suite = (coco_suite_t *)inner_problem->suite;
   if (inner_problem->number_of_objectives != 1) {
-    coco_warning("logger_bbob(): The bbob logger shouldn't be used to log a problem with %d objectives",
-                 inner_problem->number_of_objectives);
+    coco_warning("logger_bbob(): The bbob logger shouldn't be used to log a problem with %lu objectives",
+                 (unsigned long)inner_problem->number_of_objectives);
   }
 
   assert(observer != NULL);
diff --git a/src/logger_bbob_old.c b/src/logger_bbob_old.c
index 491edd3..a3430cc 100644
--- a/src/logger_bbob_old.c
+++ b/src/logger_bbob_old.c
@@ -187,7 +187,8 @@ static void logger_bbob_old_write_data(FILE *target_file, size_t number_of_f_eva
  */
 static void logger_bbob_old_error_io(FILE *path, int errnum) {
   const char *error_format = "Error opening file: %s\n ";
-  coco_error(error_format, strerror(errnum), path);
+  (void)path; /* To silence the compiler */
+  coco_error(error_format, strerror(errnum));
 }
 
 /**
@@ -572,8 +573,8 @@ static coco_problem_t *logger_bbob_old(coco_observer_t *observer, coco_problem_t
   logger_data->observer = observer;
 
   if (inner_problem->number_of_objectives != 1) {
-    coco_warning("logger_bbob_old(): The bbob_old logger shouldn't be used to log a problem with %d objectives",
-                 inner_problem->number_of_objectives);
+    coco_warning("logger_bbob_old(): The bbob_old logger shouldn't be used to log a problem with %lu objectives",
+                 (unsigned long)inner_problem->number_of_objectives);
   }
 
   if (bbob_old_logger_is_open)
diff --git a/src/logger_biobj.c b/src/logger_biobj.c
index e1ada8c..9f2e911 100644
--- a/src/logger_biobj.c
+++ b/src/logger_biobj.c
@@ -1034,8 +1034,8 @@ static coco_problem_t *logger_biobj(coco_observer_t *observer, coco_problem_t *i
   coco_debug("Started logger_biobj()");
 
   if (inner_problem->number_of_objectives != 2) {
-    coco_error("logger_biobj(): The bi-objective logger cannot log a problem with %d objective(s)",
-               inner_problem->number_of_objectives);
+    coco_error("logger_biobj(): The bi-objective logger cannot log a problem with %lu objective(s)",
+               (unsigned long)inner_problem->number_of_objectives);
     return NULL; /* Never reached. */
   }
 
diff --git a/src/logger_toy.c b/src/logger_toy.c
index 7b5c479..12d6947 100644
--- a/src/logger_toy.c
+++ b/src/logger_toy.c
@@ -78,8 +78,8 @@ static coco_problem_t *logger_toy(coco_observer_t *observer, coco_problem_t *inn
   coco_problem_t *problem;
 
   if (inner_problem->number_of_objectives != 1) {
-    coco_warning("logger_toy(): The toy logger shouldn't be used to log a problem with %d objectives",
-                 inner_problem->number_of_objectives);
+    coco_warning("logger_toy(): The toy logger shouldn't be used to log a problem with %lu objectives",
+                 (unsigned long)inner_problem->number_of_objectives);
   }
 
   /* Initialize the logger_toy_data_t object instance */
diff --git a/src/suite_biobj_utilities.c b/src/suite_biobj_utilities.c
index c347b3a..2842d50 100644
--- a/src/suite_biobj_utilities.c
+++ b/src/suite_biobj_utilities.c
@@ -380,7 +380,8 @@ static coco_problem_t *coco_get_biobj_problem(const size_t function, const size_
     function1_idx = 22;
     function2_idx = 23;
   } else {
-    coco_error("coco_get_biobj_problem(): Invalid function index %i.", function_idx);
+    coco_error("coco_get_biobj_problem(): Invalid function index %lu.",
+               (unsigned long)function_idx);
   }
 
   /* Determine the instances */
diff --git a/src/transform_vars_blockrotation.c b/src/transform_vars_blockrotation.c
index a80132a..e199992 100644
--- a/src/transform_vars_blockrotation.c
+++ b/src/transform_vars_blockrotation.c
@@ -108,8 +108,8 @@ static void transform_vars_blockrotation_test(coco_problem_t *problem, double pr
     for (j = 0; j < number_of_variables; ++j) { /* check result */
       if (!coco_double_almost_equal(y[j], (i == j) ? 1.0 : 0.0, precision)) {
         coco_error("transform_vars_blockrotation_test() with precision %e "
-                   "failed on row %i",
-                   precision, i);
+                   "failed on row %lu",
+                   precision, (unsigned long)i);
       }
       /* printf("%f ", y[j]); */
     }
-- 
2.43.0


From 542c9527a047d366b759e9d60cc11f6cdd057e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:13 +0000
Subject: [PATCH 11/17] fix: release the table of new bi-objective instances

---
 src/suite_biobj_utilities.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/suite_biobj_utilities.c b/src/suite_biobj_utilities.c
index 2842d50..4e084a4 100644
--- a/src/suite_biobj_utilities.c
+++ b/src/suite_biobj_utilities.c
@@ -442,7 +442,9 @@ static coco_problem_t *coco_get_biobj_problem(const size_t function, const size_
         suite_biobj_get_new_instance((*new_inst_data), instance, instance1, all_bbob_functions, num_all_bbob_functions,
                                      sel_bbob_functions, num_sel_bbob_functions, dimensions, num_dimensions);
     if (must_free) {
+      suite_biobj_new_inst_free(*new_inst_data);
       coco_free_memory(*new_inst_data);
+      *new_inst_data = NULL;
     }
   }
 
-- 
2.43.0


From a0aef7eed79a7e42633c68b90403097c1fe53d7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:44:03 +0000
Subject: [PATCH 12/17] fix: check the allocation of new bi-objective instances

---
 src/suite_biobj_utilities.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/suite_biobj_utilities.c b/src/suite_biobj_utilities.c
index 4e084a4..ba0b941 100644
--- a/src/suite_biobj_utilities.c
+++ b/src/suite_biobj_utilities.c
@@ -429,7 +429,7 @@ static coco_problem_t *coco_get_biobj_problem(const size_t function, const size_
       (*new_inst_data)->new_instances =
           (size_t **)coco_allocate_memory((*new_inst_data)->max_new_instances * sizeof(size_t *));
       for (i = 0; i < (*new_inst_data)->max_new_instances; i++) {
-        (*new_inst_data)->new_instances[i] = (size_t *)malloc(3 * sizeof(size_t));
+        (*new_inst_data)->new_instances[i] = (size_t *)coco_allocate_memory(3 * sizeof(size_t));
         for (j = 0; j < 3; j++) {
           (*new_inst_data)->new_instances[i][j] = 0;
         }
-- 
2.43.0


From 48981d80b39959eafd3e63af5b95e5e7918fb1b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:44:03 +0000
Subject: [PATCH 13/17] fix: report invalid base evaluation triggers instead of
 crashing

---
 src/coco_observer.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/coco_observer.c b/src/coco_observer.c
index 727e134..a3b9c17 100644
--- a/src/coco_observer.c
+++ b/src/coco_observer.c
@@ -328,6 +328,8 @@ static coco_observer_evaluations_t *coco_observer_evaluations(const char *base_e
   /* Second trigger */
   evaluations->base_evaluations =
       coco_string_parse_ranges(base_evaluations, 1, 0, "base_evaluations", COCO_MAX_EVALS_TO_LOG);
+  if (evaluations->base_evaluations == NULL)
+    coco_error("coco_observer_evaluations(): invalid base evaluation triggers '%s'", base_evaluations);
   evaluations->dimension = dimension;
   evaluations->base_count =
       coco_count_numbers(evaluations->base_evaluations, COCO_MAX_EVALS_TO_LOG, "base_evaluations");
-- 
2.43.0


From e623903a0a84eba0f482e8fa0d757c9e4b2e5dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:44:24 +0000
Subject: [PATCH 14/17] fix: report a failed allocation of an AVL tree

---
 src/mo_avl_tree.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/mo_avl_tree.c b/src/mo_avl_tree.c
index a2188ba..8844b89 100644
--- a/src/mo_avl_tree.c
+++ b/src/mo_avl_tree.c
@@ -34,6 +34,7 @@
 #include <stdio.h>
 #include <stdlib.h>
 #include <errno.h>
+#include "coco.h"
 
 /* In order to easily (un)comment unused functions */
 #define AVL_TREE_COMMENT_UNUSED 1
@@ -431,10 +432,10 @@ static avl_tree_t *avl_tree_init(avl_tree_t *avltree, avl_compare_t cmp, avl_fre
 
 /* Allocates and initializes a new tree for elements that will be
  * ordered using the supplied strcmp()-like function.
- * Returns NULL if memory could not be allocated.
+ * It is a fatal error if memory cannot be allocated.
  * O(1) */
 static avl_tree_t *avl_tree_construct(avl_compare_t cmp, avl_free_t free_item) {
-  return avl_tree_init((avl_tree_t *)malloc(sizeof(avl_tree_t)), cmp, free_item);
+  return avl_tree_init((avl_tree_t *)coco_allocate_memory(sizeof(avl_tree_t)), cmp, free_item);
 }
 
 /* Reinitializes the tree structure for reuse. Nothing is free()d.
-- 
2.43.0


From 8c89819b303d4fc9c7208ff609771aa1569bb582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:44:24 +0000
Subject: [PATCH 15/17] fix: check the insertion into the archive of the
 bi-objective logger

---
 src/logger_biobj.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/logger_biobj.c b/src/logger_biobj.c
index 9f2e911..ccb68d9 100644
--- a/src/logger_biobj.c
+++ b/src/logger_biobj.c
@@ -371,7 +371,8 @@ static int logger_biobj_tree_update(logger_biobj_data_t *logger, logger_biobj_av
     }
 
     new_node = avl_item_insert(logger->archive_tree, node_item);
-    assert(new_node != NULL);
+    if (new_node == NULL)
+      coco_error("logger_biobj_tree_update(): could not insert a solution into the archive");
     avl_item_insert(logger->buffer_tree, node_item);
 
     if (logger->compute_indicators) {
-- 
2.43.0


From ad2f2fa23f331fae221bc3dc0db946c8e92e3b94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:18:54 +0000
Subject: [PATCH 16/17] fix: do not free the random data of a permutation twice
 when the swap range is 0

coco_compute_random_permutation() allocates and releases perm_random_data
itself; the caller's own vector was lost and the stale pointer freed again.
---
 src/transform_vars_permutation_helpers.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/transform_vars_permutation_helpers.c b/src/transform_vars_permutation_helpers.c
index 0e86cd7..561007b 100644
--- a/src/transform_vars_permutation_helpers.c
+++ b/src/transform_vars_permutation_helpers.c
@@ -96,9 +96,6 @@ static void coco_compute_truncated_uniform_swap_permutation(size_t *P, long seed
     return;
   }
 
-  perm_random_data = coco_allocate_vector(n);
-  bbob2009_unif(perm_random_data, n, seed);
-
   idx_order = coco_allocate_vector_size_t(n);
   for (i = 0; i < n; i++) {
     P[i] = i;
@@ -106,9 +103,12 @@ static void coco_compute_truncated_uniform_swap_permutation(size_t *P, long seed
   }
 
   if (swap_range > 0) {
+    perm_random_data = coco_allocate_vector(n);
+    bbob2009_unif(perm_random_data, n, seed);
     /*sort the random data in perm_random_data and arrange idx_order accordingly*/
     /*did not use coco_compute_random_permutation to only use the seed once*/
     qsort(idx_order, n, sizeof(size_t), f_compare_doubles_for_random_permutation);
+    coco_free_memory(perm_random_data);
     for (idx_swap = 0; idx_swap < nb_swaps; idx_swap++) {
       first_swap_var = idx_order[idx_swap];
       if (first_swap_var < swap_range) {
@@ -137,7 +137,6 @@ static void coco_compute_truncated_uniform_swap_permutation(size_t *P, long seed
     coco_compute_random_permutation(P, seed, n);
   }
   coco_free_memory(idx_order);
-  coco_free_memory(perm_random_data);
 }
 
 /**
-- 
2.43.0


From 4a0547aa4160b8f06296c3eb916c047a07dd309b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:17 +0000
Subject: [PATCH 17/17] fix: an option without a value leaves its setting at
 the default

coco_options_read() and coco_options_read_string() returned what sscanf()
returned, so EOF (-1) for an option without a value, e.g. "result_folder:".
The callers test the result for 0 only and went on with an uninitialised
value instead of the default.
---
 src/coco_utilities.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/coco_utilities.c b/src/coco_utilities.c
index 944b7d9..89cf25f 100644
--- a/src/coco_utilities.c
+++ b/src/coco_utilities.c
@@ -757,6 +757,7 @@ static char *coco_option_keys_get_output_string(const coco_option_keys_t *option
 static int coco_options_read(const char *options, const char *name, const char *format, void *pointer) {
 
   long i1, i2;
+  int count;
 
   if ((!options) || (strlen(options) == 0))
     return 0;
@@ -774,7 +775,9 @@ static int coco_options_read(const char *options, const char *name, const char *
     return 0;
   }
 
-  return sscanf(&options[i2], format, pointer);
+  /* sscanf returns EOF if there is no value */
+  count = sscanf(&options[i2], format, pointer);
+  return (count > 0) ? count : 0;
 }
 
 /**
@@ -829,6 +832,7 @@ static int coco_options_read_double(const char *options, const char *name, doubl
 static int coco_options_read_string(const char *options, const char *name, char *pointer) {
 
   long i1, i2;
+  int count;
 
   if ((!options) || (strlen(options) == 0))
     return 0;
@@ -848,9 +852,12 @@ static int coco_options_read_string(const char *options, const char *name, char
 
   if (options[i2] == '\"') {
     /* The value starts with a quote: read everything between two quotes into a string */
-    return sscanf(&options[i2], "\"%[^\"]\"", pointer);
+    count = sscanf(&options[i2], "\"%[^\"]\"", pointer);
   } else
-    return sscanf(&options[i2], "%s", pointer);
+    count = sscanf(&options[i2], "%s", pointer);
+
+  /* sscanf returns EOF if there is no value */
+  return (count > 0) ? count : 0;
 }
 
 /**
-- 
2.43.0

