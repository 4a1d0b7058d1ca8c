M = []
def b(p, n, *eds, exp=1): M.append((p, n, list(eds), None, None, exp))
S="src/"
# ---- C07
b("C07","gall_rows",(S+"f_gallagher.c","  bbob2009_free_matrix(data->x_local, problem->number_of_variables);","  if (data->number_of_peaks > 21)\n    bbob2009_free_matrix(data->x_local, problem->number_of_variables);"))
b("C07","gall_swapcount",(S+"f_gallagher.c","  bbob2009_free_matrix(data->arr_scales, data->number_of_peaks);","  bbob2009_free_matrix(data->arr_scales, problem->number_of_variables);"))
b("C07","matrix_from1",(S+"suite_bbob_legacy_code.c","  for (i = 0; i < n; ++i) {\n    if (matrix[i] != NULL) {","  for (i = 1; i < n; ++i) {\n    if (matrix[i] != NULL) {"))
b("C07","obs_inactive",(S+"coco_observer.c","      if (observer->data_free_function != NULL) {","      if (observer->data_free_function != NULL && observer->is_active) {"))
b("C07","log_targets",(S+"coco_observer.c","  if (targets->use_log_targets)\n    coco_free_memory(targets->log_targets);\n  coco_free_memory(targets);","  if (targets->use_log_targets && targets->lin_targets == NULL)\n    coco_free_memory(targets->log_targets);\n  coco_free_memory(targets);"))
b("C07","init_sol",(S+"coco_problem.c","    if (problem->initial_solution != NULL)\n      coco_free_memory(problem->initial_solution);","    if (problem->initial_solution != NULL && problem->number_of_constraints > 0)\n      coco_free_memory(problem->initial_solution);"))
b("C07","adat_mode",(S+"logger_biobj.c","  if (((logger->log_nondom_mode == LOG_NONDOM_ALL) || (logger->log_nondom_mode == LOG_NONDOM_FINAL)) &&\n      (logger->adat_file != NULL)) {","  if ((logger->log_nondom_mode == LOG_NONDOM_ALL) && (logger->adat_file != NULL)) {"))
b("C07","base_trig",(S+"coco_observer.c","    if (observer->base_evaluation_triggers != NULL)\n      coco_free_memory(observer->base_evaluation_triggers);\n\n    if (observer->data != NULL) {","    if (observer->data != NULL) {\n      if (observer->base_evaluation_triggers != NULL)\n        coco_free_memory(observer->base_evaluation_triggers);"))
# ---- C08
b("C08","ranges_early",(S+"coco_string.c","""        for (j = i; *(ranges + j); j++)
          coco_free_memory(*(ranges + j));
        coco_free_memory(ranges);
        if (i_result == 0) {
          coco_free_memory(result);
          return NULL;
        }
        result[i_result] = 0;
        return result;
      } else if (count == 0) {""","""        for (j = i; *(ranges + j); j++)
          coco_free_memory(*(ranges + j));
        coco_free_memory(ranges);
        if (i_result == 0) {
          return NULL;
        }
        result[i_result] = 0;
        return result;
      } else if (count == 0) {"""))
b("C08","arch_notins",(S+"coco_archive.c","    if (avl_item_insert(archive->tree, insert_item) == NULL) {\n      coco_archive_node_item_free(insert_item, NULL);","    if (avl_item_insert(archive->tree, insert_item) == NULL) {"))
b("C08","suite_dim",(S+"coco_suite.c","          coco_free_memory(option_string);\n          coco_suite_free(suite);\n          return NULL;","          coco_free_memory(option_string);\n          return NULL;"))
b("C08","suite_redundant",(S+"coco_suite.c","""            redundant_option_keys, "coco_suite(): Some keys in suite options were ignored:\\n");
        char *output_valid =
            coco_option_keys_get_output_string(known_option_keys, "Valid keys for suite options are:\\n");
        coco_warning("%s%s", output_redundant, output_valid);
        coco_free_memory(output_redundant);
        coco_free_memory(output_valid);""","""            redundant_option_keys, "coco_suite(): Some keys in suite options were ignored:\\n");
        char *output_valid =
            coco_option_keys_get_output_string(known_option_keys, "Valid keys for suite options are:\\n");
        coco_warning("%s%s", output_redundant, output_valid);
        coco_free_memory(output_redundant);"""))
b("C08","row_leak",(S+"coco_string.c","            num[j] = (size_t)strtol(*(numbers + j), NULL, 10);\n            coco_free_memory(*(numbers + j));","            num[j] = (size_t)strtol(*(numbers + j), NULL, 10);\n            if (j == 0)\n              coco_free_memory(*(numbers + j));"))
# ---- C09
b("C09","arch_freetext",(S+"coco_archive.c","""      coco_archive_node_item_free(insert_item, NULL);
      coco_warning("Solution %s did not update the archive", text);""","""      coco_archive_node_item_free(insert_item, NULL);
      coco_warning("Solution %s did not update the archive", insert_item->text);"""))
b("C09","next_after_del",(S+"coco_archive.c","""        next_node = node->next;
        /* The new point dominates the next point, remove the next point */
        assert((node != archive->extreme1) && (node != archive->extreme2));
        avl_node_delete(archive->tree, node);
      } else {
        break;""","""        /* The new point dominates the next point, remove the next point */
        assert((node != archive->extreme1) && (node != archive->extreme2));
        avl_node_delete(archive->tree, node);
        next_node = node->next;
      } else {
        break;"""))
b("C09","next_after_del0",(S+"coco_archive.c","""      next_node = node->next;
      if (dominance == 1) {
        /* The new point dominates the next point, remove the next point */
        assert((node != archive->extreme1) && (node != archive->extreme2));
        avl_node_delete(archive->tree, node);
      }""","""      if (dominance == 1) {
        /* The new point dominates the next point, remove the next point */
        assert((node != archive->extreme1) && (node != archive->extreme2));
        avl_node_delete(archive->tree, node);
      }
      next_node = node->next;"""))
b("C09","suite_free_name",(S+"coco_suite.c","    coco_warning(\"coco_suite(): the suite does not contain at least one dimension, function and instance\");\n    coco_suite_free(suite);","    coco_suite_free(suite);\n    coco_warning(\"coco_suite(): %s does not contain at least one dimension, function and instance\", suite->suite_name);"))
b("C09","obs_name",(S+"coco_observer.c","    coco_free_memory(observer);\n    observer = NULL;","    coco_free_memory(observer);\n    observer->is_active = 0;"))
b("C09","str_twice",(S+"coco_string.c","  ranges = coco_string_split(str, ',');\n  coco_free_memory(str);","  coco_free_memory(str);\n  ranges = coco_string_split(str, ',');"))
b("C09","logger_obs",(S+"logger_biobj.c","  avl_tree_destruct(logger->archive_tree);\n  avl_tree_destruct(logger->buffer_tree);\n","  avl_tree_destruct(logger->archive_tree);\n  avl_tree_destruct(logger->buffer_tree);\n  if (avl_count(logger->archive_tree) == 0)\n    coco_debug(\"empty\");\n"))
# ---- C10
b("C10","nadir",(S+"coco_problem.c","    problem->nadir_value = NULL;\n  }\n  problem->is_tainted","  }\n  problem->is_tainted"))
b("C10","taint",(S+"coco_problem.c","  problem->is_tainted = 0;\n","  if (number_of_objectives == 1)\n    problem->is_tainted = 0;\n"))
b("C10","logt",(S+"coco_observer.c","    targets->log_targets = coco_observer_log_targets(number_of_targets, log_precision);\n  else\n    targets->log_targets = NULL;","    targets->log_targets = coco_observer_log_targets(number_of_targets, log_precision);"))
b("C10","eval_idx",(S+"coco_observer.c","  evaluations->base_index = 0;\n  evaluations->value2","  if (evaluations->base_count > 1)\n    evaluations->base_index = 0;\n  evaluations->value2"))
b("C10","active",(S+"coco_observer.c","  observer->is_active = 1;\n  return observer;","  return observer;"))
b("C10","recommend",(S+"coco_problem.c","  problem->recommend_solution = NULL;\n  problem->problem_free","  problem->problem_free"))
