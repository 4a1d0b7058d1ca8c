P="src/coco_problem.c"
L="src/logger_bbob.c"
M=[("C24",n,e,None,None,x) for n,e,x in [
("gone",[(P,"  problem->is_tainted = 1;\n","")],1),
("late",[(P,"  // No more benchmarking on this problem!\n  problem->is_tainted = 1;\n",""),(P,"    best_parameter[i] = problem->best_parameter[i];\n  }\n\n  return 1;","    best_parameter[i] = problem->best_parameter[i];\n    if (best_parameter[i] == 0) return 1;\n  }\n  problem->is_tainted = 1;\n  return 1;")],1),
("only_evald",[(P,"  problem->is_tainted = 1;\n","  if (problem->evaluations == 0)\n    problem->is_tainted = 1;\n")],1),
("cleared",[(P,"  problem->is_tainted = other->is_tainted;","  problem->is_tainted = 0;")],1),
("recommend_clears",[(L,"  if (!logger->is_initialized) {\n    logger_bbob_initialize(logger, problem->is_opt_known);\n  }\n\n  /* Fulfill contract of a COCO evaluate function, but","  problem->is_tainted = 0;\n  if (!logger->is_initialized) {\n    logger_bbob_initialize(logger, problem->is_opt_known);\n  }\n\n  /* Fulfill contract of a COCO evaluate function, but")],1),
("and",[(L,"problem->is_tainted || inner_problem->is_tainted","problem->is_tainted && inner_problem->is_tainted")],1),
("inner",[(L,"problem->is_tainted || inner_problem->is_tainted","problem->is_tainted")],1),
("first_only",[(L,"if (problem->is_tainted || inner_problem->is_tainted) {","if (!logger->is_initialized && (problem->is_tainted || inner_problem->is_tainted)) {")],1),
("warn",[(L,"    coco_error(\"Though shalt","    coco_warning(\"Though shalt")],1),
("ok_late",[(P,"  // No more benchmarking on this problem!\n  problem->is_tainted = 1;\n",""),(P,"    best_parameter[i] = problem->best_parameter[i];\n  }\n\n  return 1;","    best_parameter[i] = problem->best_parameter[i];\n  }\n  problem->is_tainted = 1;\n  return 1;")],0),
("ok_split",[(L,"if (problem->is_tainted || inner_problem->is_tainted) {","if (problem->is_tainted)\n    coco_error(\"cheat\");\n  if (inner_problem->is_tainted != 0) {")],0),
("ok_or",[(L,"if (problem->is_tainted || inner_problem->is_tainted) {","if ((problem->is_tainted | inner_problem->is_tainted) != 0) {")],0),
("ok_helper",[(L,"/**\n * @brief Evaluates the function, increases","static int cheats(const coco_problem_t *outer, const coco_problem_t *inner) {\n  return coco_problem_is_tainted(outer) || coco_problem_is_tainted(inner);\n}\n/**\n * @brief Evaluates the function, increases"),(L,"if (problem->is_tainted || inner_problem->is_tainted) {","if (cheats(problem, inner_problem)) {")],0),
("ok_memcpy",[(P,"""  for (i = 0; i < problem->number_of_variables; ++i) {
    best_parameter[i] = problem->best_parameter[i];
  }

  return 1;""","  i = problem->number_of_variables;\n  memcpy(best_parameter, problem->best_parameter, i * sizeof(double));\n  return 1;")],0),
("memcpy_gone",[(P,"  problem->is_tainted = 1;\n",""),(P,"""  for (i = 0; i < problem->number_of_variables; ++i) {
    best_parameter[i] = problem->best_parameter[i];
  }

  return 1;""","  i = problem->number_of_variables;\n  memcpy(best_parameter, problem->best_parameter, i * sizeof(double));\n  return 1;")],1),
]]
