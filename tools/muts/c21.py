M=[("C21",n,e,None,None,x) for n,e,x in [
("base",[("src/f_sphere.c","  result = 0.0;","  result = 0.;")],0),
("assert_incr",[("src/coco_archive.c","  assert(archive != NULL);","  assert(++archive->number_of_solutions > 0);")],1),
("loglevel_log",[("src/logger_bbob.c","  if ((coco_log_level >= COCO_DEBUG) && logger->num_func_evaluations == 0) {","  if ((coco_log_level >= COCO_DEBUG) && logger->num_func_evaluations == 0) {\n    logger->last_logged_eval_dat = 0;")],1),
("loglevel_ret",[("src/coco_suite.c","static int coco_suite_is_next_dimension_found(coco_suite_t *suite) {","static int coco_suite_is_next_dimension_found(coco_suite_t *suite) {\n  if (coco_log_level < COCO_INFO) return 0;")],1),
("ok_msg",[("src/logger_bbob.c","  if ((coco_log_level >= COCO_DEBUG) && logger->num_func_evaluations == 0) {","  if ((coco_log_level >= COCO_DEBUG) && logger->num_func_evaluations == 0) {\n    char *t = coco_strdupf(\"%s\", \"x\"); coco_free_memory(t);")],0),
("ok_assertcall",[("src/f_sphere.c","  result = 0.0;","  assert(strlen(\"a\") == 1);\n  assert(!coco_vector_contains_nan(x, number_of_variables));\n  result = 0.;")],0),
("ndebug",[("src/f_sphere.c","  result = 0.0;","  result = 0.;\n#ifdef NDEBUG\n  if (number_of_variables > 30) return 1.0;\n#endif\n")],1),
]]
