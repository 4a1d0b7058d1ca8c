P = "src/coco_problem.c"; S = "src/coco_suite.c"; A = "src/coco_archive.c"; L = "src/logger_bbob.c"; RW = "src/logger_rw.c"; BI = "src/logger_biobj.c"; TOY = "src/logger_toy.c"
OLD = "src/logger_bbob_old.c"
SH = "src/transform_vars_shift.c"; OS = "src/transform_obj_oscillate.c"; DI = "src/transform_vars_discretize.c"; PE = "src/transform_obj_penalize.c"
def b(p, n, *e):
    return (p, n, list(e), None, None, 1)
M = [
 # C01
 b("C01", "count_nan", (P, '''    coco_vector_set_to_nan(y, coco_problem_get_number_of_objectives(problem));
    return;
  }

  problem->evaluate_function(problem, x, y);''', '''    coco_vector_set_to_nan(y, coco_problem_get_number_of_objectives(problem));
    problem->evaluations++;
    return;
  }

  problem->evaluate_function(problem, x, y);''')),
 b("C01", "dup_evals", (P, "  problem->evaluations = other->evaluations;\n", "  problem->evaluations = 0;\n")),
 b("C01", "getter_cons", (P, '''  return problem->evaluations_constraints;
}''', '''  return problem->evaluations_constraints < problem->evaluations ? problem->evaluations_constraints : problem->evaluations;
}''')),
 b("C01", "rw_skip", (RW, '''  coco_evaluate_function(inner_problem, x, y);
  logger->num_func_evaluations++;
''', '''  coco_evaluate_function(inner_problem, x, y);
  if (!coco_is_inf(y[0]))
    logger->num_func_evaluations++;
''')),
 b("C01", "restart_reset", ("src/logger_bbob.c", "  logger->algorithm_restarted = 1;", "  logger->algorithm_restarted = 1;\n  logger->num_func_evaluations = 0;")),
 b("C01", "rec_counts", (L, "  coco_evaluate_function(inner_problem, x, y);\n  logger->num_func_evaluations++;", "  coco_evaluate_function(inner_problem, x, y);\n  logger->num_func_evaluations++;\n  if (logger->num_func_evaluations == 1) inner_problem->evaluations = 0;")),
 b("C01", "upd_ge", (P, '''  if (update_counter)
    problem->evaluations_constraints++;''', '''  if (update_counter && y[0] <= DBL_MAX)
    problem->evaluations_constraints++;''')),
 b("C01", "skip_hit", (P, "  problem->evaluations++; /* each", "  if (!coco_problem_final_target_hit(problem))\n    problem->evaluations++; /* each")),
 # C02
 b("C02", "twice", (OS, '''  for (i = 0; i < problem->number_of_objectives; i++) {
    if (y[i] != 0) {''', '''  if (y[0] < 0)
    coco_evaluate_function(coco_problem_transformed_get_inner_problem(problem), x, y);
  for (i = 0; i < problem->number_of_objectives; i++) {
    if (y[i] != 0) {''')),
 b("C02", "skip_penalized", (PE, '''  coco_evaluate_function(coco_problem_transformed_get_inner_problem(problem), x, y);

  for (i = 0; i < problem->number_of_objectives; ++i) {''', '''  if (penalty < 1e100)
    coco_evaluate_function(coco_problem_transformed_get_inner_problem(problem), x, y);

  for (i = 0; i < problem->number_of_objectives; ++i) {''')),
 b("C02", "stack_offset", (P, "coco_evaluate_function(data->problem2, x, &y[number_of_objectives_problem1]);", "coco_evaluate_function(data->problem2, x, &y[number_of_objectives_problem2 - 1]);")),
 b("C02", "stack_cons_else", (P, '''  if (number_of_constraints_problem2 > 0)
    coco_evaluate_constraint_optional_update(data->problem2''', '''  else if (number_of_constraints_problem2 > 0)
    coco_evaluate_constraint_optional_update(data->problem2''')),
 b("C02", "nan_partial", (OS, "    coco_vector_set_to_nan(y, coco_problem_get_number_of_objectives(problem));\n", "    y[0] = NAN;\n")),
 b("C02", "shift_wrongcount", (SH, '''    coco_vector_set_to_nan(y, coco_problem_get_number_of_constraints(problem));''', '''    coco_vector_set_to_nan(y, coco_problem_get_number_of_objectives(problem));''')),
 b("C02", "box", ("src/transform_vars_enforce_box.c", "", "")),
 # C03
 b("C03", "disc_alias", (DI, "  discretized_x = coco_duplicate_vector(x, problem->number_of_variables);", "  discretized_x = problem->number_of_variables > 1 ? coco_duplicate_vector(x, problem->number_of_variables) : (double *)x;")),
 b("C03", "keep_x", (TOY, "  logger->number_of_evaluations++;", "  logger->number_of_evaluations++;\n  if (logger->number_of_evaluations > 1000000) problem->initial_solution = (double *)x;")),
 # C04
 b("C04", "static_cache", ("src/f_katsuura.c", "  double result, tmp, tmp2;", "  static double last;\n  double result, tmp, tmp2;\n  last += x[0];\n  if (last > 1e300) return last;")),
 b("C04", "penalty_acc", (PE, "    y[i] += data->factor * penalty;", "    y[i] += data->factor * penalty;\n    if (penalty > 1e6) data->factor *= 2;")),
 b("C04", "shift_skip", (SH, '''    data->shifted_x[i] = x[i] - data->offset[i];
  }

  coco_evaluate_function''', '''    if (data->offset[i] != 0 || x[i] != 0)
      data->shifted_x[i] = x[i] - data->offset[i];
  }

  coco_evaluate_function''')),
 b("C04", "firsteval", ("src/f_sphere.c", "  y[0] = f_sphere_raw(x, problem->number_of_variables);", "  y[0] = f_sphere_raw(x, problem->number_of_variables);\n  if (problem->evaluations == 0) y[0] += 0;")),
 # C05
 b("C05", "inf_sign", (P, '''      for (j = 0; j < coco_problem_get_number_of_constraints(problem); j++) {
        y[j] = fabs(x[i]);''', '''      for (j = 0; j < coco_problem_get_number_of_constraints(problem); j++) {
        y[j] = x[i];''')),
 b("C05", "loop_from1", (P, '''  for (i = 0; i < coco_problem_get_dimension(problem); i++) {
    if (coco_is_inf(x[i])) {
      for (j = 0; j < coco_problem_get_number_of_objectives(problem); j++) {''', '''  for (i = 0; i + 1 < coco_problem_get_dimension(problem); i++) {
    if (coco_is_inf(x[i])) {
      for (j = 0; j < coco_problem_get_number_of_objectives(problem); j++) {''')),
 b("C05", "nan_first", ("src/coco_utilities.c", "", "")),
 b("C05", "isinf", ("src/coco_utilities.c", "", "")),
 # C06
 b("C06", "le", (P, "  if (y[0] < problem->best_observed_fvalue[0]) {", "  if (y[0] <= problem->best_observed_fvalue[0]) {")),
 b("C06", "eval_before", (P, '''  problem->evaluate_function(problem, x, y);
  problem->evaluations++; /* each derived class has its own counter, only the most outer will be visible */
''', '''  problem->evaluate_function(problem, x, y);
'''), (P, '''      problem->best_observed_evaluation[0] = problem->evaluations;
    }
  }
}''', '''      problem->best_observed_evaluation[0] = problem->evaluations;
    }
  }
  problem->evaluations++;
}''')),
 b("C06", "hit_strict", (P, "  return problem->best_observed_fvalue[0] <= problem->best_value[0] + problem->final_target_delta[0] ? 1 : 0;", "  return problem->best_observed_fvalue[0] < problem->best_value[0] + problem->final_target_delta[0] ? 1 : 0;")),
 b("C06", "dup_best", (P, "  problem->best_observed_fvalue[0] = other->best_observed_fvalue[0];\n", "  problem->best_observed_fvalue[0] = DBL_MAX;\n")),
 b("C06", "hit_noisy", (P, "coco_problem_get_evaluations(problem) < 1)\n    return 0;", "coco_problem_get_evaluations(problem) < 2)\n    return 0;")),
 b("C06", "infeasible_first", (P, "    if (is_feasible) {\n      problem->best", "    if (is_feasible || problem->best_observed_evaluation[0] == 0) {\n      problem->best")),
]
M = [m for m in M if m[2][0][1]]
