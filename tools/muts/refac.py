P = "src/coco_problem.c"; S = "src/coco_suite.c"; A = "src/coco_archive.c"; L = "src/logger_bbob.c"
SH = "src/transform_vars_shift.c"; OS = "src/transform_obj_oscillate.c"
EV = "void coco_evaluate_function(coco_problem_t *problem, const double *x, double *y) {"
INFB = '''  for (i = 0; i < coco_problem_get_dimension(problem); i++) {
    if (coco_is_inf(x[i])) {
      for (j = 0; j < coco_problem_get_number_of_objectives(problem); j++) {
        y[j] = fabs(x[i]);
      }
      return;
    }
  }
'''
NANB = '''  if (coco_vector_contains_nan(x, coco_problem_get_dimension(problem))) {
    coco_vector_set_to_nan(y, coco_problem_get_number_of_objectives(problem));
    return;
  }

  problem->evaluate_function(problem, x, y);
'''
BOOK = '''  if (y[0] < problem->best_observed_fvalue[0]) {
    is_feasible = 1;
    if (coco_problem_get_number_of_constraints(problem) > 0) {
      z = coco_allocate_vector(coco_problem_get_number_of_constraints(problem));
      is_feasible = coco_is_feasible(problem, x, z);
      coco_free_memory(z);
    }
    if (is_feasible) {
      problem->best_observed_fvalue[0] = y[0];
      problem->best_observed_evaluation[0] = problem->evaluations;
    }
  }
'''
def r(n, *e):
    return ("C01", n, list(e), None, None, 0)
M = [
 r("inf_helper", (P, INFB, '''  if (coco_fill_if_infinite(x, coco_problem_get_dimension(problem), y, coco_problem_get_number_of_objectives(problem)))
    return;
  (void)i; (void)j;
'''), (P, EV, '''static int coco_fill_if_infinite(const double *x, const size_t n, double *y, const size_t m) {
  size_t i, j;
  for (i = 0; i < n; i++) {
    if (coco_is_inf(x[i])) {
      for (j = 0; j < m; j++)
        y[j] = fabs(x[i]);
      return 1;
    }
  }
  return 0;
}

''' + EV)),
 r("book_helper", (P, BOOK, '''  coco_problem_record_best(problem, x, y[0]);
  (void)is_feasible; (void)z;
'''), (P, EV, '''static void coco_problem_record_best(coco_problem_t *problem, const double *x, const double value) {
  if (!(value < problem->best_observed_fvalue[0]))
    return;
  if (coco_problem_get_number_of_constraints(problem) > 0) {
    double *z = coco_allocate_vector(coco_problem_get_number_of_constraints(problem));
    const int feasible = coco_is_feasible(problem, x, z);
    coco_free_memory(z);
    if (!feasible)
      return;
  }
  problem->best_observed_evaluation[0] = problem->evaluations;
  problem->best_observed_fvalue[0] = value;
}

''' + EV)),
 r("nan_flip", (P, NANB, '''  if (!coco_vector_contains_nan(x, coco_problem_get_dimension(problem))) {
    problem->evaluate_function(problem, x, y);
  } else {
    coco_vector_set_to_nan(y, coco_problem_get_number_of_objectives(problem));
    return;
  }
''')),
 r("while_loop", (P, INFB, '''  const size_t dimension = problem->number_of_variables;
  i = 0;
  while (i < dimension) {
    const double xi = x[i++];
    if (!coco_is_inf(xi))
      continue;
    for (j = 0; j < problem->number_of_objectives; ++j)
      y[j] = fabs(xi);
    return;
  }
''')),
 r("count_plus", (P, "  problem->evaluations++; /*", "  problem->evaluations = problem->evaluations + 1; /*")),
 r("count_helper", (P, "  problem->evaluations++; /* each derived class has its own counter, only the most outer will be visible */\n", "  coco_problem_count(&problem->evaluations);\n"),
   (P, EV, "static void coco_problem_count(size_t *counter) {\n  *counter += 1;\n}\n\n" + EV)),
 r("dup_memcpy", (P, '''  for (i = 0; i < problem->number_of_variables; ++i) {
    problem->smallest_values_of_interest[i] = other->smallest_values_of_interest[i];
    problem->largest_values_of_interest[i] = other->largest_values_of_interest[i];
    if (other->best_parameter)
      problem->best_parameter[i] = other->best_parameter[i];
  }
''', '''  memcpy(problem->smallest_values_of_interest, other->smallest_values_of_interest, problem->number_of_variables * sizeof(double));
  memcpy(problem->largest_values_of_interest, other->largest_values_of_interest, problem->number_of_variables * sizeof(double));
  if (other->best_parameter)
    memcpy(problem->best_parameter, other->best_parameter, problem->number_of_variables * sizeof(double));
  (void)i;
''')),
 r("dup_helper", (P, '''  if (other->best_value)
    for (i = 0; i < problem->number_of_objectives; ++i) {
      problem->best_value[i] = other->best_value[i];
    }

  /* coco_problem_allocate allocates ->nadir_value for more than one objective */
  if (other->nadir_value)
    for (i = 0; i < problem->number_of_objectives; ++i) {
      problem->nadir_value[i] = other->nadir_value[i];
    }
''', '''  copy_if_present(problem->best_value, other->best_value, problem->number_of_objectives);
  copy_if_present(problem->nadir_value, other->nadir_value, problem->number_of_objectives);
'''), (P, '''/**
 * @brief Creates a duplicate of the 'other' problem''', '''static void copy_if_present(double *to, const double *from, const size_t n) {
  size_t i;
  if (from == NULL)
    return;
  for (i = 0; i < n; ++i)
    to[i] = from[i];
}

/**
 * @brief Creates a duplicate of the 'other' problem''')),
 r("alloc_init_helper", (P, '''  problem->evaluations = 0;
  problem->evaluations_constraints = 0;
  problem->final_target_delta[0] = 1e-8; /* in case to be modified by the benchmark */
  problem->best_observed_fvalue[0] = DBL_MAX;
  problem->best_observed_evaluation[0] = 0;
  problem->suite = NULL;''', '''  problem_init_bookkeeping(problem);
  problem->suite = NULL;'''), (P, '''/**
 * @brief Allocates a new coco_problem_t for the given number of variables, number of objectives and
''', '''static void problem_init_bookkeeping(coco_problem_t *problem) {
  problem->evaluations = 0;
  problem->evaluations_constraints = 0;
  problem->final_target_delta[0] = 1e-8;
  problem->best_observed_fvalue[0] = DBL_MAX;
  problem->best_observed_evaluation[0] = 0;
}

/**
 * @brief Allocates a new coco_problem_t for the given number of variables, number of objectives and
''')),
 r("shift_helper", (SH, '''  for (i = 0; i < problem->number_of_variables; ++i) {
    data->shifted_x[i] = x[i] - data->offset[i];
  }

  coco_evaluate_function(inner_problem, data->shifted_x, y);
''', '''  coco_evaluate_function(inner_problem, shift_into(data, x, problem->number_of_variables), y);
  (void)i;
'''), (SH, '''/**
 * @brief Evaluates the transformed objective function.
 */
''', '''static const double *shift_into(transform_vars_shift_data_t *data, const double *x, const size_t n) {
  size_t i;
  for (i = 0; i < n; ++i)
    data->shifted_x[i] = x[i] - data->offset[i];
  return data->shifted_x;
}

''')),
 r("shift_down", (SH, '''  for (i = 0; i < problem->number_of_variables; ++i) {
    data->shifted_x[i] = x[i] - data->offset[i];
  }

  coco_evaluate_function(inner_problem''', '''  for (i = problem->number_of_variables; i-- > 0;) {
    data->shifted_x[i] = x[i] - data->offset[i];
  }

  coco_evaluate_function(inner_problem''')),
 r("shift_ptr", (SH, '''  for (i = 0; i < problem->number_of_variables; ++i) {
    data->shifted_x[i] = x[i] - data->offset[i];
  }

  coco_evaluate_function(inner_problem''', '''  double *z = data->shifted_x;
  const double *offset = data->offset;
  for (i = 0; i < coco_problem_get_dimension(problem); i++)
    z[i] = x[i] - offset[i];

  coco_evaluate_function(inner_problem''')),
 r("osc_helper", (OS, '''      double log_y;
      log_y = log(fabs(y[i])) / factor;
      if (y[i] > 0) {
        y[i] = pow(exp(log_y + 0.49 * (sin(log_y) + sin(0.79 * log_y))), factor);
      } else {
        y[i] = -pow(exp(log_y + 0.49 * (sin(0.55 * log_y) + sin(0.31 * log_y))), factor);
      }
''', '''      y[i] = oscillated(y[i], factor);
'''), (OS, '''/**
 * @brief Evaluates the transformation.
 */
''', '''static double oscillated(const double value, const double factor) {
  const double log_y = log(fabs(value)) / factor;
  if (value > 0)
    return pow(exp(log_y + 0.49 * (sin(log_y) + sin(0.79 * log_y))), factor);
  return -pow(exp(log_y + 0.49 * (sin(0.55 * log_y) + sin(0.31 * log_y))), factor);
}

''')),
 r("suite_filter_helper", (S, '''    option_string = coco_allocate_string(COCO_PATH_MAX + 1);
    if (coco_options_read_values(suite_options, "function_indices", option_string) > 0) {
      indices = coco_string_parse_ranges(option_string, 1, suite->number_of_functions, "function_indices",
                                         COCO_MAX_INSTANCES);
      if (indices != NULL) {
        coco_suite_filter_indices(suite->functions, suite->number_of_functions,
                                  indices, "function_indices");
        coco_free_memory(indices);
      }
    }
    coco_free_memory(option_string);

    option_string = coco_allocate_string(COCO_PATH_MAX + 1);
    if (coco_options_read_values(suite_options, "instance_indices", option_string) > 0) {
      indices = coco_string_parse_ranges(option_string, 1, suite->number_of_instances, "instance_indices",
                                         COCO_MAX_INSTANCES);
      if (indices != NULL) {
        coco_suite_filter_indices(suite->instances, suite->number_of_instances,
                                  indices, "instance_indices");
        coco_free_memory(indices);
      }
    }
    coco_free_memory(option_string);
''', '''    coco_suite_apply_filter(suite_options, "function_indices", suite->functions, suite->number_of_functions);
    coco_suite_apply_filter(suite_options, "instance_indices", suite->instances, suite->number_of_instances);
'''), (S, '''coco_suite_t *coco_suite(const char *suite_name, const char *suite_instance,
                         const char *suite_options) {
''', '''static void coco_suite_apply_filter(const char *suite_options, const char *key, size_t *items, const size_t number) {
  char *text = coco_allocate_string(COCO_PATH_MAX + 1);
  if (coco_options_read_values(suite_options, key, text) > 0) {
    size_t *indices = coco_string_parse_ranges(text, 1, number, key, COCO_MAX_INSTANCES);
    if (indices != NULL) {
      coco_suite_filter_indices(items, number, indices, key);
      coco_free_memory(indices);
    }
  }
  coco_free_memory(text);
}

coco_suite_t *coco_suite(const char *suite_name, const char *suite_instance,
                         const char *suite_options) {
''')),
 r("suite_active_helper", (S, '''  int number_of_active_dimensions = 0;
  for (size_t i = 0; i < suite->number_of_dimensions; ++i) {
    number_of_active_dimensions += suite->dimensions[i] != 0;
  }
  if ((number_of_active_dimensions < 1) ||''', '''  if (!coco_suite_has_dimension(suite) ||'''), (S, '''coco_suite_t *coco_suite(const char *suite_name, const char *suite_instance,
                         const char *suite_options) {
''', '''static int coco_suite_has_dimension(const coco_suite_t *suite) {
  size_t i;
  for (i = 0; i < suite->number_of_dimensions; ++i)
    if (suite->dimensions[i] != 0)
      return 1;
  return 0;
}

coco_suite_t *coco_suite(const char *suite_name, const char *suite_instance,
                         const char *suite_options) {
''')),
 r("next_nested", (S, '''  if (!coco_suite_is_next_instance_found(suite) && !coco_suite_is_next_function_found(suite) &&
      !coco_suite_is_next_dimension_found(suite)) {
    coco_info_partial("done\\n");
    return NULL;
  }

  if (suite->current_problem) {
    coco_problem_free(suite->current_problem);
  }
''', '''  int found = coco_suite_is_next_instance_found(suite);
  if (!found)
    found = coco_suite_is_next_function_found(suite);
  if (!found)
    found = coco_suite_is_next_dimension_found(suite);
  if (!found) {
    coco_info_partial("done\\n");
    return NULL;
  }

  if (suite->current_problem != NULL) {
    coco_problem_free(suite->current_problem);
    suite->current_problem = NULL;
  }
''')),
 r("next_progress_helper", (S, '''    /* One dot for each instance */
    coco_info_partial(".");
''', '''    coco_suite_progress_dot();
'''), (S, '''/**
 * Iterates through the suite first by instances''', '''static void coco_suite_progress_dot(void) {
  coco_info_partial(".");
}

/**
 * Iterates through the suite first by instances''')),
 r("archive_remove_helper", (A, '''      if (dominance == 1) {
        next_node = node->next;
        /* The new point dominates the next point, remove the next point */
        assert((node != archive->extreme1) && (node != archive->extreme2));
        avl_node_delete(archive->tree, node);
      } else {
        break;
      }
''', '''      if (dominance != 1)
        break;
      next_node = node->next;
      archive_drop(archive, node);
'''), (A, '''int coco_archive_add_solution(coco_archive_t *archive, const double y1''', '''static void archive_drop(coco_archive_t *archive, avl_node_t *node) {
  assert((node != archive->extreme1) && (node != archive->extreme2));
  avl_node_delete(archive->tree, node);
}

int coco_archive_add_solution(coco_archive_t *archive, const double y1''')),
 r("archive_early", (A, '''  if (!update) {
    coco_archive_node_item_free(insert_item, NULL);
  } else {
    /* Perform tree update */
    while''', '''  if (!update) {
    coco_archive_node_item_free(insert_item, NULL);
    return 0;
  }
  {
    /* Perform tree update */
    while''')),
 r("archive_extreme_helper", (A, '''  text = coco_strdupf("0\\t%.*e\\t%.*e\\n", output_precision, archive->nadir[0], output_precision, archive->ideal[1]);
  update = coco_archive_add_solution(archive, archive->nadir[0], archive->ideal[1], text);
  coco_free_memory(text);
  assert(update == 1);

  text = coco_strdupf("0\\t%.*e\\t%.*e\\n", output_precision, archive->ideal[0], output_precision, archive->nadir[1]);
  update = coco_archive_add_solution(archive, archive->ideal[0], archive->nadir[1], text);
  coco_free_memory(text);
  assert(update == 1);
''', '''  update = archive_add_extreme(archive, output_precision, archive->nadir[0], archive->ideal[1]);
  assert(update == 1);
  update = archive_add_extreme(archive, output_precision, archive->ideal[0], archive->nadir[1]);
  assert(update == 1);
  (void)text;
'''), (A, '''/**
 * The archive always contains the two extreme solutions
 */
''', '''static int archive_add_extreme(coco_archive_t *archive, const int digits, const double y1, const double y2) {
  char *text = coco_strdupf("0\\t%.*e\\t%.*e\\n", digits, y1, digits, y2);
  const int update = coco_archive_add_solution(archive, y1, y2, text);
  coco_free_memory(text);
  return update;
}

''')),
 r("bbob_cons_helper", (L, '''  /* Evaluate the constraints */
  if (problem->number_of_constraints > 0) {
    constraints = coco_allocate_vector(problem->number_of_constraints);
    inner_problem->evaluate_constraint(inner_problem, x, constraints, 0);
  }
  logger->num_cons_evaluations = problem->evaluations_constraints;

  /* Compute the sum of positive constraint values */
  sum_constraints = 0;
  for (i = 0; i < problem->number_of_constraints; ++i) {
    if (constraints[i] > 0)
      sum_constraints += constraints[i];
  }
''', '''  /* Evaluate the constraints */
  constraints = logger_bbob_constraints(inner_problem, x, problem->number_of_constraints);
  logger->num_cons_evaluations = problem->evaluations_constraints;

  /* Compute the sum of positive constraint values */
  sum_constraints = 0;
  for (i = 0; i < problem->number_of_constraints; ++i)
    sum_constraints += constraints[i] > 0 ? constraints[i] : 0;
'''), (L, '''static void logger_bbob_evaluate(coco_problem_t *problem, const double *x, double *y) {
''', '''static double *logger_bbob_constraints(coco_problem_t *inner_problem, const double *x, const size_t number) {
  double *constraints;
  if (number == 0)
    return NULL;
  constraints = coco_allocate_vector(number);
  inner_problem->evaluate_constraint(inner_problem, x, constraints, 0);
  return constraints;
}

static void logger_bbob_evaluate(coco_problem_t *problem, const double *x, double *y) {
''')),
 r("bbob_finite_helper", (L, '''  if (coco_is_nan(y_logged))
    y_logged = NAN_FOR_LOGGING;
  else if (coco_is_inf(y_logged))
    y_logged = INFINITY_FOR_LOGGING;

  /* Do sanity''', '''  y_logged = logger_bbob_finite(y_logged);

  /* Do sanity'''), (L, '''static void logger_bbob_evaluate(coco_problem_t *problem, const double *x, double *y) {
''', '''static double logger_bbob_finite(const double value) {
  return coco_is_nan(value) ? NAN_FOR_LOGGING : coco_is_inf(value) ? INFINITY_FOR_LOGGING : value;
}

static void logger_bbob_evaluate(coco_problem_t *problem, const double *x, double *y) {
''')),
 r("bbob_open_ret", (L, '''    *file = fopen(file_path, "a");
    if (*file == NULL) {
      coco_error("logger_bbob_open_file(): Error opening file: %s\\nError: %d", file_path, errno);
    }
''', '''    FILE *opened = fopen(file_path, "a");
    if (!opened)
      coco_error("logger_bbob_open_file(): Error opening file: %s\\nError: %d", file_path, errno);
    *file = opened;
''')),
]
