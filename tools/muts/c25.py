B="src/logger_bbob.c"
O="src/logger_bbob_old.c"
R="src/logger_rw.c"
M=[("C25",n,e,None,None,x) for n,e,x in [
("mark_outside",[(B,"""      logger->last_logged_eval_dat = logger->num_func_evaluations;
    }
  }
""","""    }
    logger->last_logged_eval_dat = logger->num_func_evaluations;
  }
""")],1),
("nomark_tdat",[(B,"    logger->last_logged_eval_tdat = logger->num_func_evaluations;\n","")],1),
("wrongmark",[(B,"    logger->last_logged_eval_tdat = logger->num_func_evaluations;\n","    logger->last_logged_eval_dat = logger->num_func_evaluations;\n")],1),
("marktotal",[(B,"    logger->last_logged_eval_tdat = logger->num_func_evaluations;\n","    logger->last_logged_eval_tdat = logger->num_func_evaluations + logger->num_cons_evaluations;\n")],1),
("final_gt",[(B,"    if (logger->num_func_evaluations != logger->last_logged_eval_tdat)","    if (logger->num_func_evaluations > logger->last_logged_eval_tdat + 1)")],1),
("final_gone",[(B,"""    if (logger->num_func_evaluations != logger->last_logged_eval_dat)
      logger_bbob_output(logger->dat_file""","""    if (logger->num_func_evaluations != logger->last_logged_eval_tdat)
      logger_bbob_output(logger->dat_file""")],1),
("short_circuit",[(B,"""  if (coco_observer_evaluations_trigger(logger->evaluations,
                                        logger->num_func_evaluations + logger->num_cons_evaluations)) {""","""  if (logger->last_logged_eval_dat != logger->num_func_evaluations && coco_observer_evaluations_trigger(logger->evaluations,
                                        logger->num_func_evaluations + logger->num_cons_evaluations)) {""")],1),
("skip_nan",[(B,"      logger_bbob_output(logger->dat_file, logger, x, y_logged, logger->best_found_value, constraints);\n","      if (is_feasible)\n        logger_bbob_output(logger->dat_file, logger, x, y_logged, logger->best_found_value, constraints);\n")],1),
("first_feas",[(B,"    if (logger->num_func_evaluations == 1 ||\n        coco_obs","    if ((logger->num_func_evaluations == 1 && is_feasible) ||\n        coco_obs")],1),
("best_le",[(B,"(max_value + sum_constraints < logger->best_found_value)","(max_value < logger->best_found_value)")],1),
("best_feas",[(B,"    logger->best_found_value = max_value + sum_constraints;\n    for","    if (is_feasible || logger->num_func_evaluations == 1)\n      logger->best_found_value = max_value + sum_constraints;\n    for")],1),
("sol_partial",[(B,"    for (i = 0; i < problem->number_of_variables; i++)\n      logger->best_found_solution[i]","    for (i = problem->number_of_integer_variables; i < problem->number_of_variables; i++)\n      logger->best_found_solution[i]")],1),
("sol_trigger",[(B,"    for (i = 0; i < problem->number_of_variables; i++)\n      logger->best_found_solution[i] = x[i]; /* May well be infeasible */\n",""),(B,"      logger->last_logged_eval_dat = logger->num_func_evaluations;\n","      logger->last_logged_eval_dat = logger->num_func_evaluations;\n      for (i = 0; i < problem->number_of_variables; i++)\n        logger->best_found_solution[i] = x[i];\n")],1),
("old_flag",[(O,"  logger->written_last_eval = 0;","  if (logger->number_of_evaluations == 1)\n    logger->written_last_eval = 0;")],1),
("old_first",[(O,"  if (logger->number_of_evaluations == 1 || (max_fvalue + sum_cons < logger->best_fvalue)) {","  if (logger->number_of_evaluations == 1 || (max_fvalue + sum_cons <= logger->best_fvalue)) {")],1),
("old_final",[(O,"    if (!logger->written_last_eval) {","    if (!logger->written_last_eval && logger->number_of_evaluations > 1) {")],1),
("rw_first",[(R,"  if ((logger->num_func_evaluations == 1) || log_this_time) {","  if (log_this_time) {")],1),
("rw_best",[(R,"    logger->best_value = logger->current_value;","    logger->best_value = y[problem->number_of_objectives - 1];")],1),
("mdat",[(B,"    if (coco_observer_targets_trigger(logger->mdat_targets, logger->best_recommended_value - logger->optimal_value)) {","    if (coco_observer_targets_trigger(logger->mdat_targets, logger->best_recommended_value - logger->optimal_value) && is_feasible) {")],1),
("ok_helper",[(B,"/**\n * @brief Evaluates the function, increases","""static void log_dat(logger_bbob_data_t *logger, const double *x, double y_logged, const double *constraints) {
  logger_bbob_output(logger->dat_file, logger, x, y_logged, logger->best_found_value, constraints);
  logger->last_logged_eval_dat = logger->num_func_evaluations;
}
/**
 * @brief Evaluates the function, increases"""),(B,"      logger_bbob_output(logger->dat_file, logger, x, y_logged, logger->best_found_value, constraints);\n      logger->last_logged_eval_dat = logger->num_func_evaluations;\n","      log_dat(logger, x, y_logged, constraints);\n")],0),
("ok_order",[(B,"    logger_bbob_output(logger->tdat_file, logger, x, y_logged, logger->best_found_value, constraints);\n    logger->last_logged_eval_tdat = logger->num_func_evaluations;\n","    logger->last_logged_eval_tdat = logger->num_func_evaluations;\n    logger_bbob_output(logger->tdat_file, logger, x, y_logged, logger->best_found_value, constraints);\n")],0),
("ok_temp",[(B,"""  if (coco_observer_evaluations_trigger(logger->evaluations,
                                        logger->num_func_evaluations + logger->num_cons_evaluations)) {""","""  const int fired = coco_observer_evaluations_trigger(logger->evaluations,
                                        logger->num_func_evaluations + logger->num_cons_evaluations);
  if (fired != 0) {""")],0),
("ok_tempvalue",[(B,"  if (logger->num_func_evaluations == 1 || (max_value + sum_constraints < logger->best_found_value)) {\n    logger->best_found_value = max_value + sum_constraints;","  const double total = max_value + sum_constraints;\n  if (logger->num_func_evaluations == 1 || logger->best_found_value > total) {\n    logger->best_found_value = total;")],0),
("ok_copy",[(B,"    for (i = 0; i < problem->number_of_variables; i++)\n      logger->best_found_solution[i] = x[i]; /* May well be infeasible */\n","    memcpy(logger->best_found_solution, x, problem->number_of_variables * sizeof(double));\n")],0),
("ok_copyhelper",[(B,"/**\n * @brief Evaluates the function, increases","""static void keep_solution(double *to, const double *from, size_t n) {
  size_t k;
  for (k = 0; k < n; ++k)
    to[k] = from[k];
}
/**
 * @brief Evaluates the function, increases"""),(B,"    for (i = 0; i < problem->number_of_variables; i++)\n      logger->best_found_solution[i] = x[i]; /* May well be infeasible */\n","    keep_solution(logger->best_found_solution, x, problem->number_of_variables);\n")],0),
("ok_final",[(B,"    if (logger->num_func_evaluations != logger->last_logged_eval_tdat)","    if (!(logger->last_logged_eval_tdat == logger->num_func_evaluations))")],0),
("ok_finalhelper",[(B,"/**\n * @brief Takes care of some final","""static void finish(FILE **file, logger_bbob_data_t *logger, size_t last) {
  if (*file == NULL)
    return;
  if (logger->num_func_evaluations != last)
    logger_bbob_output(*file, logger, logger->best_found_solution, logger->best_found_value, logger->best_found_value, NULL);
  fclose(*file);
  *file = NULL;
}
/**
 * @brief Takes care of some final"""),(B,"""  if (logger->dat_file != NULL) {
    if (logger->num_func_evaluations != logger->last_logged_eval_dat)
      logger_bbob_output(logger->dat_file, logger, logger->best_found_solution, logger->best_found_value, 
                         logger->best_found_value, NULL);
    fclose(logger->dat_file);
    logger->dat_file = NULL;
  }
""","  finish(&logger->dat_file, logger, logger->last_logged_eval_dat);\n")],0),
("ok_rw",[(R,"""  if ((problem->number_of_objectives == 1) && (logger->current_value < logger->best_value))
    logger->best_value = logger->current_value;
  else if (problem->number_of_objectives == 1)
    log_this_time = !logger->log_only_better;
""","""  if (problem->number_of_objectives == 1) {
    if (logger->current_value < logger->best_value)
      logger->best_value = logger->current_value;
    else
      log_this_time = !logger->log_only_better;
  }
""")],0),
("ok_inc",[(O,"  logger->number_of_evaluations++; /*","  logger->number_of_evaluations += 1; /*")],0),
("ok_nested",[(B,"  if (logger->num_func_evaluations == 1 || (max_value + sum_constraints < logger->best_found_value)) {","  const int is_first = logger->num_func_evaluations == 1;\n  if (is_first || (max_value + sum_constraints < logger->best_found_value)) {"),(B,"    if (logger->num_func_evaluations == 1 ||\n        coco_obs","    if (is_first ||\n        coco_obs")],0),
]]
OB="src/coco_observer.c"; TY="src/logger_toy.c"; BI="src/logger_biobj.c"
M+=[("C25",n,e,None,None,x) for n,e,x in [
("short_targets",[(OB,"""  int log_trigger = coco_observer_log_targets_trigger(targets->log_targets, given_value);
  int lin_trigger = coco_observer_lin_targets_trigger(targets->lin_targets, given_value);
  return log_trigger || lin_trigger;""","""  return coco_observer_log_targets_trigger(targets->log_targets, given_value) ||
         coco_observer_lin_targets_trigger(targets->lin_targets, given_value);""")],1),
("short_evals",[(OB,"""  int second = coco_observer_evaluations_trigger_second(evaluations, evaluation_number);
""","""  int second = first ? 0 : coco_observer_evaluations_trigger_second(evaluations, evaluation_number);
""")],1),
("and_targets",[(OB,"  return log_trigger || lin_trigger;","  return targets->use_log_targets ? log_trigger && lin_trigger : lin_trigger;")],1),
("xor_evals",[(OB,"  return (first + second > 0) ? 1 : 0;","  return (first != second) ? 1 : 0;")],1),
("leaf_fire",[(OB,"""    evaluations->value1 =
        coco_double_to_size_t(floor(pow(10, (double)evaluations->exponent1 / (double)evaluations->number_of_triggers)));
    return 1;""","""    if (evaluation_number == evaluations->value1) {
      evaluations->value1 =
          coco_double_to_size_t(floor(pow(10, (double)evaluations->exponent1 / (double)evaluations->number_of_triggers)));
      return 1;
    }""")],1),
("toy_drop",[(TY,"  if (coco_observer_log_targets_trigger(logger->targets, y[0])) {","  if (coco_observer_log_targets_trigger(logger->targets, y[0]) && logger->number_of_evaluations > 1) {")],1),
("bi_drop",[(BI,"      if (indicator->target_hit) {","      if (indicator->target_hit && update_performed) {")],1),
("bi_tdrop",[(BI,"      if (indicator->evaluation_logged) {\n        fprintf","      if (indicator->evaluation_logged && logger->log_nondom_mode != LOG_NONDOM_ALL) {\n        fprintf")],1),
("bi_fin",[(BI,"  if (!indicator->target_hit) {","  if (!indicator->target_hit && indicator->overall_value > 0) {")],1),
("bi_stale",[(BI,"      indicator->target_hit = 0;\n      indicator->previous_value","      indicator->previous_value")],1),
("ok_adv",[(OB,"/**\n * @brief Computes and returns whether the given evaluation number triggers the\n * second","""static void adv2(coco_observer_evaluations_t *evaluations) {
    if (evaluations->base_index < evaluations->base_count - 1) {
      evaluations->base_index++;
    } else {
      evaluations->base_index = 0;
      evaluations->exponent2++;
    }
    evaluations->value2 =
        coco_double_to_size_t(pow(10, (double)evaluations->exponent2) * (double)(long)evaluations->dimension *
                              (double)(long)evaluations->base_evaluations[evaluations->base_index]);
}
/**
 * @brief Computes and returns whether the given evaluation number triggers the
 * second"""),(OB,"""    if (evaluations->base_index < evaluations->base_count - 1) {
      evaluations->base_index++;
    } else {
      evaluations->base_index = 0;
      evaluations->exponent2++;
    }
    evaluations->value2 =
        coco_double_to_size_t(pow(10, (double)evaluations->exponent2) * (double)(long)evaluations->dimension *
                              (double)(long)evaluations->base_evaluations[evaluations->base_index]);
    return 1;""","    adv2(evaluations);\n    return 1;")],0),
("ok_reach",[(OB,"/**\n * @brief Checks whether the given value should trigger logging with logarithmic","""static int reach(coco_observer_log_targets_t *t, const int e, const double v) {
  if (e < t->exponent) {
    t->exponent = e;
    t->value = v;
    return 1;
  }
  return 0;
}
/**
 * @brief Checks whether the given value should trigger logging with logarithmic"""),(OB,"""    if (current_exponent < log_targets->exponent) {
      /* Update the target information */
      log_targets->exponent = current_exponent;
      if (given_value == 0)
        log_targets->value = 0;
      else
        log_targets->value = pow(10, (double)current_exponent / number_of_targets_double);
      activate_trigger = 1;
    }
""","""    activate_trigger = reach(log_targets, current_exponent, given_value == 0 ? 0 : pow(10, (double)current_exponent / number_of_targets_double));
"""),(OB,"""    if (adjusted_exponent < log_targets->exponent) {
      /* Update the target information */
      log_targets->exponent = adjusted_exponent;
      log_targets->value = -pow(10, (double)current_exponent / number_of_targets_double);
      activate_trigger = 1;
    }
""","    activate_trigger = reach(log_targets, adjusted_exponent, -pow(10, (double)current_exponent / number_of_targets_double));\n")],0),
("ok_nullguard",[(OB,"  int log_trigger = coco_observer_log_targets_trigger(targets->log_targets, given_value);","  int log_trigger = targets->log_targets ? coco_observer_log_targets_trigger(targets->log_targets, given_value) : 0;")],0),
("ok_useguard",[(OB,"  int log_trigger = coco_observer_log_targets_trigger(targets->log_targets, given_value);","  int log_trigger = 0;\n  if (targets->use_log_targets)\n    log_trigger = coco_observer_log_targets_trigger(targets->log_targets, given_value);")],0),
("ok_swap",[(OB,"""  int first = coco_observer_evaluations_trigger_first(evaluations, evaluation_number);
  int second = coco_observer_evaluations_trigger_second(evaluations, evaluation_number);

  return (first + second > 0) ? 1 : 0;""","""  int second = coco_observer_evaluations_trigger_second(evaluations, evaluation_number);
  int first = coco_observer_evaluations_trigger_first(evaluations, evaluation_number);

  return first || second;""")],0),
("ok_early",[(OB,"""  if (target_reached < lin_targets->value) {
    activate_trigger = 1;
    lin_targets->value = target_reached;
  }

  return activate_trigger;""","""  if (!(target_reached < lin_targets->value))
    return activate_trigger;
  lin_targets->value = target_reached;
  return 1;""")],0),
("ok_toy",[(TY,"""  if (coco_observer_log_targets_trigger(logger->targets, y[0])) {
    fprintf""","""  const int hit = coco_observer_log_targets_trigger(logger->targets, y[0]);
  if (hit) {
    fprintf""")],0),
("ok_bifin",[(BI,"  if (!indicator->target_hit) {\n    fprintf","  if (indicator->target_hit == 0) {\n    fprintf")],0),
("ok_bihelper",[(BI,"/**\n * @brief Outputs the final information about this indicator.","""static void tdat_line(const logger_biobj_indicator_t *indicator, unsigned long e, int precision, double v) {
  fprintf(indicator->tdat_file, "%lu\\t%.*e\\n", e, precision, v);
}
/**
 * @brief Outputs the final information about this indicator."""),(BI,"""        fprintf(indicator->tdat_file, "%lu\\t%.*e\\n", (unsigned long)logger->num_func_evaluations, logger->precision_f,
                indicator->overall_value);
""","        tdat_line(indicator, (unsigned long)logger->num_func_evaluations, logger->precision_f, indicator->overall_value);\n"),(BI,"""    fprintf(indicator->tdat_file, "%lu\\t%.*e\\n", (unsigned long)logger->num_func_evaluations, logger->precision_f,
            indicator->overall_value);
""","    tdat_line(indicator, (unsigned long)logger->num_func_evaluations, logger->precision_f, indicator->overall_value);\n")],0),
]]
