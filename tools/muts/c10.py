FIX=("src/logger_bbob.c","  logger_data->last_logged_eval_mdat = 0;","  logger_data->last_logged_eval_dat = 0;\n  logger_data->last_logged_eval_tdat = 0;\n  logger_data->last_logged_eval_mdat = 0;")
M=[("C10",n,[FIX]+e if "last_logged_eval_dat = 0" not in open("/repo/src/logger_bbob.c").read() else e,None,None,x) for n,e,x in [
("base",[("src/f_sphere.c","  result = 0.0;","  result = 0.;")],0),
("rw_cond",[("src/logger_rw.c","    logger_data->log_cons = 0;\n  else\n    logger_data->log_cons = 1;","    logger_data->log_cons = 0;\n  else if (inner_problem->number_of_objectives == 1)\n    logger_data->log_cons = 1;")],1),
("rw_best",[("src/logger_rw.c","  logger_data->best_value = DBL_MAX;\n","")],1),
("prob_gradient",[("src/coco_problem.c","  problem->evaluate_gradient = NULL;\n","")],1),
("arch",[("src/coco_archive.c","  archive->extremes_already_returned = 0;\n\n  return archive","  return archive")],1),
("ok_later",[("src/coco_archive.c","  archive->extremes_already_returned = 0;\n\n  return archive","  return archive"),("src/coco_archive.c","  suite = coco_suite(suite_name, suite_instance, suite_options);\n","  archive->extremes_already_returned = 0;\n  suite = coco_suite(suite_name, suite_instance, suite_options);\n")],0),
("ok_memset",[("src/coco_archive.c","  archive->extremes_already_returned = 0;\n\n  return archive","  return archive"),("src/coco_archive.c","  /* Initialize the AVL tree */\n","  memset(archive, 0, sizeof(*archive));\n")],0),
("ok_helper",[("src/coco_archive.c","  archive->extremes_already_returned = 0;\n\n  return archive","  archive_flags(archive);\n  return archive"),("src/coco_archive.c","static coco_archive_t *coco_archive_allocate(void) {","static void archive_flags(coco_archive_t *a) {\n  a->extremes_already_returned = 0;\n}\nstatic coco_archive_t *coco_archive_allocate(void) {")],0),
("suite_fl",[("src/coco_suite.c","  suite->current_problem = NULL;\n","")],1),
("biobj_prev",[("src/logger_biobj.c","  logger_data->num_func_evaluations = 0;\n","")],1),
]]
