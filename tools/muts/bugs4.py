M = []
def b(p, n, *eds, exp=1): M.append((p, n, list(eds), None, None, exp))
S="src/"
CO=S+"coco_observer.c"; LB=S+"logger_bbob.c"; LI=S+"logger_biobj.c"; AR=S+"coco_archive.c"; RW=S+"logger_rw.c"; PR=S+"coco_problem.c"
# C25
b("C25","t_exp_le",(CO,"    if (current_exponent < log_targets->exponent) {","    if (current_exponent < log_targets->exponent && given_value > log_targets->precision) {"))
b("C25","t_noupd",(CO,"      log_targets->exponent = adjusted_exponent;\n","      if (adjusted_exponent > INT_MIN + 1000000) log_targets->exponent = current_exponent;\n"))
b("C25","t_lin_early",(CO,"  int lin_trigger = coco_observer_lin_targets_trigger(targets->lin_targets, given_value);\n  return log_trigger || lin_trigger;","  return log_trigger || coco_observer_lin_targets_trigger(targets->lin_targets, given_value);"))
b("C25","t_lin_gt",(CO,"  if (target_reached < lin_targets->value) {","  if (target_reached < lin_targets->value && given_value >= 0) {"))
b("C25","e_gt",(CO,"  if (evaluation_number >= evaluations->value2) {","  if (evaluation_number == evaluations->value2) {"))
b("C25","e_and",(CO,"  return (first + second > 0) ? 1 : 0;","  return (first + second == 1) ? 1 : 0;"))
b("C25","best_le",(LB,"(max_value + sum_constraints < logger->best_found_value)) {","(max_value < logger->best_found_value)) {"))
b("C25","best_first",(LB,"  if (logger->num_func_evaluations == 1 || (max_value + sum_constraints < logger->best_found_value)) {","  if (max_value + sum_constraints < logger->best_found_value) {"))
b("C25","best_sol_short",(LB,"      logger->best_found_solution[i] = x[i]; /* May well be infeasible */","      if (sum_constraints <= 0) logger->best_found_solution[i] = x[i]; /* May well be infeasible */"))
b("C25","last_eval_wrong",(LB,"      logger->last_logged_eval_dat = logger->num_func_evaluations;","      logger->last_logged_eval_dat = logger->num_func_evaluations + logger->num_cons_evaluations;"))
b("C25","last_tdat_dat",(LB,"    logger->last_logged_eval_tdat = logger->num_func_evaluations;","    logger->last_logged_eval_tdat = logger->num_func_evaluations;\n    logger->last_logged_eval_dat = logger->num_func_evaluations;"))
b("C25","final_gt",(LB,"    if (logger->num_func_evaluations != logger->last_logged_eval_dat)\n      logger_bbob_output(logger->dat_file","    if (logger->num_func_evaluations > logger->last_logged_eval_dat + 1)\n      logger_bbob_output(logger->dat_file"))
b("C25","final_wrongfile",(LB,"    if (logger->num_func_evaluations != logger->last_logged_eval_tdat)\n      logger_bbob_output(logger->tdat_file","    if (logger->num_func_evaluations != logger->last_logged_eval_tdat)\n      logger_bbob_output(logger->rdat_file"))
b("C25","rdat_notreset",(LB,"    logger->algorithm_restarted = 0;\n  }\n\n  /* Free","  }\n\n  /* Free"))
b("C25","biobj_hit_stale",(LI,"      indicator->target_hit = 0;","      if (indicator->overall_value > 0) indicator->target_hit = 0;"))
b("C25","rw_first",(RW,"  if ((logger->num_func_evaluations == 1) || log_this_time) {","  if (log_this_time) {"))
b("C25","rw_eq",(RW,"(logger->current_value < logger->best_value))\n    logger->best_value","(logger->current_value <= logger->best_value))\n    logger->best_value"))
b("C25","mdat_cond",(LB,"    if (coco_observer_targets_trigger(logger->mdat_targets, logger->best_recommended_value - logger->optimal_value)) {","    if (is_feasible && coco_observer_targets_trigger(logger->mdat_targets, logger->best_recommended_value - logger->optimal_value)) {"))
b("C25","mdat_targets",(LB,"coco_observer_targets_trigger(logger->mdat_targets, ","coco_observer_targets_trigger(logger->targets, "))
b("C25","mdat_order",(LB,"    logger->best_recommended_value = max_value + sum_constraints;","    logger->best_recommended_value = max_value;"))
b("C25","evals_wrong",(LB,"                                        logger->num_func_evaluations + logger->num_cons_evaluations)) {","                                        logger->num_func_evaluations)) {"),exp=0)
# C26
b("C26","dom_ge",(AR,"    if (dominance > -1) {","    if (dominance >= -1) {"))
b("C26","dom_last",(AR,"        next_node = node->next;\n        /* The new point dominates the next point, remove the next point */\n        assert((node != archive->extreme1) && (node != archive->extreme2));\n        avl_node_delete(archive->tree, node);\n      } else {","        next_node = node->next;\n        /* The new point dominates the next point, remove the next point */\n        assert((node != archive->extreme1) && (node != archive->extreme2));\n        avl_node_delete(archive->tree, node);\n        if (next_node == archive->extreme2) break;\n      } else {"))
b("C26","upd_cond",(AR,"    archive->is_up_to_date = 0;\n  }\n\n  return update;","    archive->is_up_to_date = (dominance == 0);\n  }\n\n  return update;"))
b("C26","next_head",(AR,"      next_node = node->next;\n      if (dominance == 1) {","      next_node = NULL;\n      if (dominance == 1) {\n        next_node = node->next;"))
b("C26","li_notfeas",(LI,"  if (node_item->is_feasible == 0)\n    return 0;","  if (node_item->is_feasible == 0 && !node_item->within_ROI)\n    return 0;"))
b("C26","li_nosub",(LI,"        avl_item_delete(logger->buffer_tree, node->item);\n        avl_node_delete(logger->archive_tree, node);\n      } else {\n        break;","        if (logger->log_nondom_mode == LOG_NONDOM_ALL)\n          avl_item_delete(logger->buffer_tree, node->item);\n        avl_node_delete(logger->archive_tree, node);\n      } else {\n        break;"))
b("C26","li_contrib",(LI,"              logger->indicators[i]->current_value -= next_item->indicator_contribution[i];","              if (previous_unavailable == 0) logger->indicators[i]->current_value -= next_item->indicator_contribution[i];"),exp=0)
b("C26","li_roi",(LI,"          if (next_item->within_ROI) {\n            for","          if (next_item->within_ROI && new_node->prev != NULL) {\n            for"),exp=0)
b("C26","li_ret",(LI,"  return trigger_update;\n}","  return trigger_update && node_item->within_ROI;\n}"))
b("C26","next_skip",(AR,"      archive->current_solution = archive->tree->head;\n      return text;","      archive->current_solution = archive->tree->head->next;\n      return text;"),exp=0)
b("C26","next_upd",(AR,"    archive->current_solution = NULL;\n    archive->extremes_already_returned = 0;\n  }","    archive->extremes_already_returned = 0;\n  }"))
b("C26","count_m",(AR,"    archive->number_of_solutions = avl_count(archive->tree);","    archive->number_of_solutions = avl_count(archive->tree) - (archive->extreme1 == archive->extreme2);"),exp=0)
b("C26","hyp_reset",(AR,"    archive->hypervolume = 0; /* Hypervolume of the extreme point equals 0 */","    if (archive->number_of_solutions <= 2) archive->hypervolume = 0; /* Hypervolume of the extreme point equals 0 */"))
# C24
b("C24","t_only_inner",(LB,"  if (problem->is_tainted || inner_problem->is_tainted) {","  if (problem->is_tainted && inner_problem->is_tainted) {"))
b("C24","t_first_only",(LB,"  if (problem->is_tainted || inner_problem->is_tainted) {","  if ((problem->is_tainted || inner_problem->is_tainted) && !logger->is_initialized) {"))
b("C24","t_dup",(PR,"  problem->is_tainted = other->is_tainted;","  problem->is_tainted = other->is_tainted && other->evaluations > 0;"))
b("C24","t_warn",(LB,"    coco_error(\"Though shalt not cheat! Trying","    coco_warning(\"Though shalt not cheat! Trying"))
# C23
b("C23","dup_ints",(PR,"  problem->number_of_integer_variables = other->number_of_integer_variables;","  problem->number_of_integer_variables = other->number_of_variables > 2 ? other->number_of_integer_variables : 0;"))
b("C23","dup_idx",(PR,"  problem->suite_dep_index = other->suite_dep_index;","  problem->suite_dep_index = 0;"))
b("C23","dup_cons",(PR,"  problem->evaluations_constraints = other->evaluations_constraints;","  problem->evaluations_constraints = other->evaluations;"))
b("C23","get_swap",(PR,"  return problem->evaluations_constraints;","  return problem->evaluations_constraints > 0 ? problem->evaluations_constraints : problem->evaluations;"))
b("C23","get_largest",(PR,"  return problem->largest_values_of_interest;","  return problem->number_of_integer_variables ? problem->smallest_values_of_interest : problem->largest_values_of_interest;"))
# C21
b("C21","assert_se",(AR,"        assert((node != archive->extreme1) && (node != archive->extreme2));\n        avl_node_delete(archive->tree, node);\n      }\n    } else {","        assert(node != archive->extreme1 && (node != archive->extreme2) && (archive->is_up_to_date = 0) == 0);\n        avl_node_delete(archive->tree, node);\n      }\n    } else {"))
b("C21","lvl_ret",(LB,"  if ((coco_log_level >= COCO_DEBUG) && logger->num_func_evaluations == 0) {","  if ((coco_log_level >= COCO_DEBUG) && logger->num_func_evaluations == 0) {\n    logger->algorithm_restarted = 0;"))
b("C21","lvl_set",(CO,"void coco_observer_free(coco_observer_t *observer) {","void coco_observer_free(coco_observer_t *observer) {\n  if (coco_log_level >= COCO_INFO && observer->is_active)\n    fflush(NULL);"),exp=1)
b("C21","ndebug",(LB,"  logger->is_initialized = 1;","#ifndef NDEBUG\n  logger->last_logged_eval_dat = 0;\n#endif\n  logger->is_initialized = 1;"),exp=1)
b("C21","ndebug2",(LB,"    if (constraints[i] > 0)\n      sum_constraints += constraints[i];\n  }\n  sum_constraints *= LOGGER_BBOB_WEIGHT_CONSTRAINTS; /* do this before the checks */\n  if (coco_is_nan(sum_constraints))\n    sum_constraints = NAN_FOR_LOGGING;\n  else if (coco_is_inf(sum_constraints))\n    sum_constraints = INFINITY_FOR_LOGGING;\n\n  if","#ifndef NDEBUG\n    if (constraints[i] > 1e-13)\n#else\n    if (constraints[i] > 0)\n#endif\n      sum_constraints += constraints[i];\n  }\n  sum_constraints *= LOGGER_BBOB_WEIGHT_CONSTRAINTS; /* do this before the checks */\n  if (coco_is_nan(sum_constraints))\n    sum_constraints = NAN_FOR_LOGGING;\n  else if (coco_is_inf(sum_constraints))\n    sum_constraints = INFINITY_FOR_LOGGING;\n\n  if"))
b("C23","get_best",(PR,"double coco_problem_get_best_value(const coco_problem_t *problem) {","double coco_problem_get_best_value(const coco_problem_t *problem) {\n  if (coco_problem_final_target_hit(problem)) return problem->best_observed_fvalue[0];"))
b("C23","get_obs",(PR,"  return problem->best_observed_fvalue[0];","  return problem->evaluations > 0 ? problem->best_observed_fvalue[0] : 0.0;"))
b("C25","ok_biobj_uncond",(LI,"  if (logger->algorithm_restarted)\n    logger->algorithm_restarted = 0;","  logger->algorithm_restarted = 0;"),exp=0)
b("C25","biobj_reset_in",(LI,"  if (logger->algorithm_restarted)\n    logger->algorithm_restarted = 0;","  if (logger->algorithm_restarted && update_performed)\n    logger->algorithm_restarted = 0;"))
b("C25","biobj_rdat_upd",(LI,"      if (logger->algorithm_restarted) {\n        fprintf","      if (logger->algorithm_restarted && update_performed) {\n        fprintf"))
b("C25","ok_lin_early",(CO,"""  if (target_reached < lin_targets->value) {
    activate_trigger = 1;
    lin_targets->value = target_reached;
  }

  return activate_trigger;""","""  if (!(target_reached < lin_targets->value))
    return activate_trigger;
  lin_targets->value = target_reached;
  return 1;"""),exp=0)
b("C25","ok_ev_neg",(CO,"""  if (evaluation_number >= evaluations->value2) {
    /* Compute the next value for the second trigger */""","""  if (evaluation_number < evaluations->value2)
    return 0;
  {
    /* Compute the next value for the second trigger */"""),exp=0)
b("C25","ok_ev_swap",(CO,"  if (evaluation_number >= evaluations->value1) {","  const int reached = evaluations->value1 <= evaluation_number;\n  if (reached) {"),exp=0)
b("C25","ok_log_merge",(CO,"""    if (current_exponent < log_targets->exponent) {
      /* Update the target information */
      log_targets->exponent = current_exponent;
      if (given_value == 0)
        log_targets->value = 0;
      else
        log_targets->value = pow(10, (double)current_exponent / number_of_targets_double);
      activate_trigger = 1;
    }""","""    adjusted_exponent = current_exponent;
    if (adjusted_exponent >= log_targets->exponent)
      return 0;
    log_targets->value = (given_value == 0) ? 0 : pow(10, (double)current_exponent / number_of_targets_double);
    log_targets->exponent = adjusted_exponent;
    activate_trigger = 1;"""),exp=0)
b("C25","ok_log_local",(CO,"""    if (adjusted_exponent < log_targets->exponent) {""","""    const int previous = log_targets->exponent;
    const int better = previous > adjusted_exponent;
    if (better) {"""),exp=0)
b("C25","ev_gt",(CO,"  if (evaluation_number >= evaluations->value1) {","  if (evaluation_number > evaluations->value1) {"))
b("C25","lin_le",(CO,"  if (target_reached < lin_targets->value) {","  if (target_reached <= lin_targets->value) {"))
b("C25","ok_restart_local",(LB,"  if (logger->algorithm_restarted) {\n    logger_bbob_output","  int restarted = logger->algorithm_restarted;\n  logger->algorithm_restarted = 0;\n  if (restarted != 0) {\n    logger_bbob_output"),exp=0)
b("C25","ok_mdat",(LB,"""  if (max_value + sum_constraints < logger->best_recommended_value) {
    for (size_t i = 0; i < problem->number_of_variables; i++)""","""  const int is_better = max_value + sum_constraints < logger->best_recommended_value;
  if (is_better) {
    for (size_t i = 0; i < problem->number_of_variables; i++)"""),exp=0)
