M = []
def b(p, n, *eds, exp=1): M.append((p, n, list(eds), None, None, exp))
S="src/"
CS=S+"coco_suite.c"; CO=S+"coco_observer.c"; LB=S+"logger_bbob.c"
# C13 item search
b("C13","item_last",(CS,"    } while (((*current_item_id) < (long)number_of_items - 1) && (items[*current_item_id] == 0));","    } while (((*current_item_id) < (long)number_of_items - 2) && (items[*current_item_id] == 0));"))
b("C13","item_skip",(CS,"    do {\n      (*current_item_id)++;\n    } while (((*current_item_id) < (long)number_of_items - 1) && (items[*current_item_id] == 0));","    do {\n      (*current_item_id)++;\n    } while (((*current_item_id) < (long)number_of_items - 1) && (items[*current_item_id] <= 1));"))
b("C13","item_reset0",(CS,"  *current_item_id = -1;\n  do {","  *current_item_id = 0;\n  do {"))
b("C13","item_first",(CS,"  if ((*current_item_id) != (long)number_of_items - 1) {","  if ((*current_item_id) < (long)number_of_items - 2) {"))
b("C13","item_ret",(CS,"    if (items[*current_item_id] != 0) {\n      /* Next","    if (items[*current_item_id] != 0 && *current_item_id > 0) {\n      /* Next"))
b("C13","ok_item_for",(CS,"""    do {
      (*current_item_id)++;
    } while (((*current_item_id) < (long)number_of_items - 1) && (items[*current_item_id] == 0));

    assert""","""    (*current_item_id)++;
    while (((*current_item_id) < (long)number_of_items - 1) && (items[*current_item_id] == 0))
      (*current_item_id)++;

    assert"""),exp=0)
b("C13","ok_item_local",(CS,"""    do {
      (*current_item_id)++;
    } while (((*current_item_id) < (long)number_of_items - 1) && (items[*current_item_id] == 0));

    assert""","""    long k = *current_item_id + 1;
    while ((k < (long)number_of_items - 1) && (items[k] == 0))
      k++;
    *current_item_id = k;

    assert"""),exp=0)
b("C13","ok_item_le",(CS,"    } while (((*current_item_id) < (long)number_of_items - 1) && (items[*current_item_id] == 0));\n\n    assert","    } while ((items[*current_item_id] == 0) && ((*current_item_id) + 1 < (long)number_of_items));\n\n    assert"),exp=0)
b("C13","noresetinst",(CS,"    suite->current_instance_idx = -1;\n    coco_suite_is_next_instance_found(suite);","    coco_suite_is_next_instance_found(suite);"))
b("C13","start",(CS,"  coco_suite_is_next_function_found(suite);\n  coco_suite_is_next_dimension_found(suite);\n\n  return suite;","  coco_suite_is_next_function_found(suite);\n  coco_suite_is_next_dimension_found(suite);\n  coco_suite_is_next_instance_found(suite);\n\n  return suite;"))
b("C13","decode_ge",(CS,"                       suite->number_of_dimensions) -\n                          1) {","                       suite->number_of_dimensions)) {"))
# C14
b("C14","readeof",(S+"coco_utilities.c","    i2++;\n\n  if (i2 <= i1) {\n    return 0;\n  }\n\n  if (options","    i2++;\n\n  if (options"), exp=0)
b("C14","outer_default",(CO,'    strcpy(result_folder, "default");','    strcpy(outer_folder, "default");'))
b("C14","gnoteq",(CO,'    if ((precision_g < 1) || (precision_g > 32)) {','    if ((precision_g < 0) || (precision_g > 32)) {'))
b("C14","linprec",(CO,"    if (lin_target_precision <= 0) {","    if (lin_target_precision < 0) {"))
b("C14","fallbackx",(CO,"                   precision_x);\n      precision_x = 8;","                   precision_x);\n      precision_x = 15;"))
b("C14","swapped",(CO,"base_evaluation_triggers, precision_x, precision_f, precision_g, log_discrete_as_int);\n\n  coco_free","base_evaluation_triggers, precision_f, precision_x, precision_g, log_discrete_as_int);\n\n  coco_free"))
b("C14","dim_order",(CS,"      if (dim_found < dim_idx_found) {\n        parce_dim_idx = 0;","      if (dim_found < dim_idx_found) {\n        parce_dim = 0;"))
b("C14","dim_gt0",(CS,"    if ((dim_found >= 0) && (parce_dim == 1) &&","    if ((dim_found > 0) && (parce_dim == 1) &&"))
b("C14","year_gt0",(CS,"  if ((year_found >= 0) && (parse_year == 1)) {","  if ((year_found > 0) && (parse_year == 1)) {"))
# C17
b("C17","warn_fmt",(CS,'        coco_warning("%s%s", output_redundant, output_valid);\n        coco_free_memory(output_redundant);\n        coco_free_memory(output_valid);\n      }\n\n      coco_option_keys_free(given_option_keys);\n      coco_option_keys_free(redundant_option_keys);\n    }\n    coco_option_keys_free(known_option_keys);\n  }\n\n  /* Check that','        coco_warning(output_redundant, output_valid);\n        coco_free_memory(output_redundant);\n        coco_free_memory(output_valid);\n      }\n\n      coco_option_keys_free(given_option_keys);\n      coco_option_keys_free(redundant_option_keys);\n    }\n    coco_option_keys_free(known_option_keys);\n  }\n\n  /* Check that'))
b("C17","size_d",(LB,'"%lu %lu %+10.9e %+10.9e ", (unsigned long)logger->num_func_evaluations,\n          (unsigned long)logger->num_cons_evaluations,','"%lu %d %+10.9e %+10.9e ", (unsigned long)logger->num_func_evaluations,\n          (unsigned long)logger->num_cons_evaluations,'))
b("C17","missing",(LB,"      logger_bbob_data_format);\n      fprintf(*info_file, \"%%\\n\");","      logger_bbob_data_format);\n      fprintf(*info_file, data_file_path);"))
b("C17","hdr",(LB,'"best noise-free fitness - %s (%13.12e) + sum g_i+ | "','"best noise-free fitness - %s (%13.12e) + sum g_i+ [%d] | "'))
b("C17","prefixfmt",(LB,'      fprintf(*info_file, "%s.dat", data_file_path);','      fprintf(*info_file, strcat(data_file_path, ".dat"));'))
# C18
b("C18","tmpmode",(LB,'    tmp_file = fopen(file_path, "r");','    tmp_file = fopen(file_path, "r+");'),exp=1)
b("C18","tmpmode2",(LB,'    tmp_file = fopen(file_path, "r");','    tmp_file = fopen(file_path, "w+");'))
b("C18","modeparam",(LB,'    *file = fopen(file_path, "a");','    *file = fopen(file_path, strstr(file_path, ".mdat") ? "w" : "a");'))
# C19
b("C19","flush_small",(LB,"  fflush(data_file);","  if (logger->number_of_variables < 22)\n    fflush(data_file);"))
b("C19","flush_before",(LB,'  fprintf(data_file, "\\n");\n\n  /* Flush output so that impatient users can see progress.\n   * Otherwise it can take a long time until the output appears.\n   */\n  fflush(data_file);','  /* Flush output so that impatient users can see progress.\n   * Otherwise it can take a long time until the output appears.\n   */\n  fflush(data_file);\n  fprintf(data_file, "\\n");'))
b("C19","flush_cons",(LB,"  fflush(data_file);","  if (constraints == NULL)\n    fflush(data_file);"))
# C20
b("C20","noerr",(LB,'      coco_error("logger_bbob_open_file(): Error opening file: %s\\nError: %d", file_path, errno);','      coco_warning("logger_bbob_open_file(): Error opening file: %s\\nError: %d", file_path, errno);'))
b("C20","year_null",(CS,"      year_string = coco_suite_get_instances_by_year(suite, year);\n      result","      year_string = coco_suite_get_instances_by_year(suite, year);\n      if (strlen(year_string) == 0)\n        return NULL;\n      result"),exp=None)
b("C20","evals_null",(CO,"  if (evaluations->base_evaluations == NULL)\n    coco_error(\"coco_observer_evaluations(): invalid base evaluation triggers '%s'\", base_evaluations);\n","  assert(evaluations->base_evaluations != NULL);\n"))
b("C20","ranges_null",(CS,"      if (dimensions != NULL) {\n        coco_suite_filter_dimensions(suite, dimensions);\n        coco_free_memory(dimensions);\n      }","      coco_suite_filter_dimensions(suite, dimensions);\n      coco_free_memory(dimensions);"))
M = [m for m in M if m[5] is not None]
