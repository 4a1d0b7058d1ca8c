M=[
("C07","tfd_nofree","src/coco_problem.c","      data->data_free_function(data->data);\n      data->data_free_function = NULL;\n    }\n    coco_free_memory(data->data);","      data->data_free_function(data->data);\n      data->data_free_function = NULL;\n    } else\n    coco_free_memory(data->data);",1),
("C07","tf_nodelegate","src/coco_problem.c","   * function pointer and recall the generic function. */\n  problem->problem_free_function = NULL;\n  coco_problem_free(problem);\n}\n\n/**\n * @brief Frees the transformed","   * function pointer and recall the generic function. */\n  problem->problem_free_function = NULL;\n  coco_free_memory(problem);\n}\n\n/**\n * @brief Frees the transformed",1),
("C07","stack_p2","src/coco_problem.c","  if (data->problem2 != NULL) {\n    coco_problem_free","  if (data->problem2 != NULL && data->problem2 != data->problem1 && data->problem1 == NULL) {\n    coco_problem_free",1),
("C07","block_map","src/transform_vars_blockrotation.c","  coco_free_memory(data->first_non_zero_map);","  if (data->dimension > 1) coco_free_memory(data->first_non_zero_map);",1),
("C07","affine_free_unreg","src/transform_vars_affine.c","data, transform_vars_affine_free,","data, NULL,",1),
("C07","suite_def","src/coco_suite.c","    if (suite->default_instances) {","    if (suite->default_instances && !suite->instances) {",1),
("C07","bbob_logger","src/logger_bbob.c","  if (logger->rdat_file != NULL) {\n    fclose","  if (logger->rdat_file != NULL && logger->num_func_evaluations > 0) {\n    fclose",1),
("C07","lost_before","src/coco_suite.c","    if (suite->suite_name) {","    suite->default_instances = NULL;\n    if (suite->suite_name) {",1),
("C07","ok_nullcheck","src/coco_archive.c","  coco_free_memory(archive->ideal);","  if (archive->ideal != NULL) {\n    coco_free_memory(archive->ideal);\n    archive->ideal = NULL;\n  }",0),
("C07","ok_helper",[("src/coco_suite.c","void coco_suite_free(coco_suite_t *suite) {\n","static void coco_suite_free_lists(coco_suite_t *suite) {\n  if (suite->functions) {\n      coco_free_memory(suite->functions);\n      suite->functions = NULL;\n    }\n}\nvoid coco_suite_free(coco_suite_t *suite) {\n"),("src/coco_suite.c","    if (suite->functions) {\n      coco_free_memory(suite->functions);\n      suite->functions = NULL;\n    }\n    if (suite->instances","    coco_suite_free_lists(suite);\n    if (suite->instances")],None,None,0),
("C07","ok_helper2",[("src/coco_suite.c","void coco_suite_free(coco_suite_t *suite) {\n","static void free_list(size_t **p) {\n  if (*p) {\n      coco_free_memory(*p);\n      *p = NULL;\n    }\n}\nvoid coco_suite_free(coco_suite_t *suite) {\n"),("src/coco_suite.c","    if (suite->functions) {\n      coco_free_memory(suite->functions);\n      suite->functions = NULL;\n    }\n    if (suite->instances","    free_list(&suite->functions);\n    if (suite->instances")],None,None,0),
("C07","setname2","src/coco_problem.c","  if (problem->problem_name != NULL)\n    coco_free_memory(problem->problem_name);\n","  ",1),
("C07","helper_cond",[("src/coco_suite.c","void coco_suite_free(coco_suite_t *suite) {\n","static void free_list(size_t **p) {\n  if (*p) {\n      coco_free_memory(*p);\n      *p = NULL;\n    }\n}\nvoid coco_suite_free(coco_suite_t *suite) {\n"),("src/coco_suite.c","    if (suite->functions) {\n      coco_free_memory(suite->functions);\n      suite->functions = NULL;\n    }\n    if (suite->instances","    if (suite->number_of_functions > 1) free_list(&suite->functions);\n    if (suite->instances")],None,None,1),
("C08","dupf_leak","src/coco_suite.c","  coco_option_keys_free(known_option_keys);","  if (suite->number_of_dimensions != 1) coco_option_keys_free(known_option_keys);",1),
("C09","suite_dbl","src/coco_suite.c","    if (suite->suite_name) {","    if (suite->data) coco_free_memory(suite->suite_name);\n    if (suite->suite_name) {",1),
]
