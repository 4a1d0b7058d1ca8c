P="src/coco_problem.c"
M=[
("C23","dup_evals",[(P,"  problem->evaluations = other->evaluations;","  problem->evaluations = 0;")],None,None,1),
("C23","dup_best",[(P,"  problem->best_observed_fvalue[0] = other->best_observed_fvalue[0];\n","")],None,None,1),
("C23","nadir1",[(P,"""  if (other->nadir_value)
    for (i = 0; i < problem->number_of_objectives; ++i) {""","""  if (other->nadir_value)
    for (i = 1; i < problem->number_of_objectives; ++i) {""")],None,None,1),
("C23","optbound",[(P,"    problem->largest_values_of_interest[i] = other->largest_values_of_interest[i];","    if (i < 40)\n      problem->largest_values_of_interest[i] = other->largest_values_of_interest[i];")],None,None,1),
("C23","crossed",[(P,"  problem->suite_dep_instance = other->suite_dep_instance;","  problem->suite_dep_instance = other->suite_dep_function;")],None,None,1),
("C23","shortinit",[(P,"problem->initial_solution = coco_duplicate_vector(other->initial_solution, other->number_of_variables);","problem->initial_solution = coco_duplicate_vector(other->initial_solution, other->number_of_objectives);")],None,None,1),
("C23","initonlycons",[(P,"  if (other->initial_solution)\n    problem->initial_solution = coco_dup","  if (other->initial_solution && other->number_of_constraints > 0)\n    problem->initial_solution = coco_dup")],None,None,1),
("C23","ints_if",[(P,"  problem->number_of_integer_variables = other->number_of_integer_variables;","  if (other->number_of_integer_variables < other->number_of_variables)\n    problem->number_of_integer_variables = other->number_of_integer_variables;")],None,None,1),
("C23","logger_taints",[("src/logger_toy.c","  problem->evaluate_function = ","  problem->number_of_constraints = 0;\n  problem->evaluate_function = ")],None,None,1),
("C23","wrap_id",[(P,"  inner_copy->data = problem;","  inner_copy->data = problem;\n  inner_copy->suite_dep_index = 0;")],None,None,1),
("C23","ev_writes",[(P,"  problem->evaluate_function(problem, x, y);\n","  problem->evaluate_function(problem, x, y);\n  if (problem->best_value && problem->number_of_objectives == 1 && y[0] < problem->best_value[0])\n    problem->best_value[0] = y[0];\n")],None,None,1),
("C23","get_writes",[(P,"size_t coco_problem_get_number_of_integer_variables(const coco_problem_t *problem) {","size_t coco_problem_get_number_of_integer_variables(const coco_problem_t *problem) {\n  if (problem->number_of_constraints > 0) ((coco_problem_t *) problem)->is_opt_known = 0;")],None,None,1),
("C23","ok_helper",[(P,"static coco_problem_t *coco_problem_duplicate(","""static void vcopy(double *d, const double *s, size_t n) {
  size_t k;
  if (s == NULL) return;
  for (k = 0; k < n; ++k) d[k] = s[k];
}
static coco_problem_t *coco_problem_duplicate("""),(P,"""  if (other->nadir_value)
    for (i = 0; i < problem->number_of_objectives; ++i) {
      problem->nadir_value[i] = other->nadir_value[i];
    }
""","  vcopy(problem->nadir_value, other->nadir_value, other->number_of_objectives);\n")],None,None,0),
("C23","ok_memcpy",[(P,"""  if (other->best_value)
    for (i = 0; i < problem->number_of_objectives; ++i) {
      problem->best_value[i] = other->best_value[i];
    }
""","  if (other->best_value)\n    memcpy(problem->best_value, other->best_value, other->number_of_objectives * sizeof(double));\n")],None,None,0),
("C23","ok_scalars",[(P,"""  problem->suite = other->suite;
  problem->suite_dep_index = other->suite_dep_index;
  problem->suite_dep_function = other->suite_dep_function;
  problem->suite_dep_instance = other->suite_dep_instance;
""","  copy_ids(problem, other);\n"),(P,"static coco_problem_t *coco_problem_duplicate(","""static void copy_ids(coco_problem_t *to, const coco_problem_t *from) {
  to->suite_dep_instance = from->suite_dep_instance;
  to->suite_dep_function = from->suite_dep_function;
  to->suite_dep_index = from->suite_dep_index;
  to->suite = from->suite;
}
static coco_problem_t *coco_problem_duplicate(""")],None,None,0),
("C23","ok_split",[(P,"""    if (other->best_parameter)
      problem->best_parameter[i] = other->best_parameter[i];
  }""","""  }
  if (other->best_parameter != NULL) {
    i = other->number_of_variables;
    while (i-- > 0)
      problem->best_parameter[i] = other->best_parameter[i];
  }""")],None,None,0),
("C23","ok_tern",[(P,"""  if (other->initial_solution)
    problem->initial_solution = coco_duplicate_vector(other->initial_solution, other->number_of_variables);""","""  problem->initial_solution = other->initial_solution == NULL ? NULL : coco_duplicate_vector(other->initial_solution, problem->number_of_variables);""")],None,None,0),
("C23","ok_early",[(P,"""  if (other->nadir_value)
    for (i = 0;""","""  i = 0;
  if (NULL != other->nadir_value)
    for (;""")],None,None,0),
("C23","tern_bad",[(P,"""  if (other->initial_solution)
    problem->initial_solution = coco_duplicate_vector(other->initial_solution, other->number_of_variables);""","""  problem->initial_solution = other->initial_solution == NULL || other->number_of_constraints == 0 ? NULL : coco_duplicate_vector(other->initial_solution, problem->number_of_variables);""")],None,None,1),
]
