M=[("C19",n,e,None,None,x) for n,e,x in [
("bbob",[("src/logger_bbob.c",'  fflush(data_file);','  if (logger->num_func_evaluations % 100 == 0)\n    fflush(data_file);')],1),
("bbob2",[("src/logger_bbob.c",'  fflush(data_file);','  fflush(logger->dat_file);')],1),
("old",[("src/logger_bbob_old.c",'  fflush(target_file);','')],1),
("toy",[("src/logger_toy.c",'  fflush(logger->log_file);','  if (coco_log_level > COCO_INFO) fflush(logger->log_file);')],1),
("rw",[("src/logger_rw.c",'  fflush(logger->out_file);','')],1),
("adat",[("src/logger_biobj.c",'    fflush(logger->adat_file);','    fflush(logger->mdat_file);')],1),
("early",[("src/logger_rw.c",'  fflush(logger->out_file);',''),("src/logger_rw.c",'    fprintf(logger->out_file, "%lu\\t", (unsigned long)logger->num_func_evaluations);','    fflush(logger->out_file);\n    fprintf(logger->out_file, "%lu\\t", (unsigned long)logger->num_func_evaluations);')],1),
("stdout",[("src/logger_rw.c",'  fflush(logger->out_file);','  fflush(stdout);')],1),
("midline",[("src/logger_toy.c",'  fflush(logger->log_file);',''),("src/logger_toy.c",'    fprintf(logger->log_file, "\\n");','    fflush(logger->log_file);\n    fprintf(logger->log_file, "\\n");')],1),
("ok_all",[("src/logger_rw.c",'  fflush(logger->out_file);','  fflush(NULL);')],0),
("ok_hoist",[("src/logger_bbob.c",'  fflush(data_file);',''),("src/logger_bbob.c",'''static void logger_bbob_output(''','''static void logger_bbob_output_raw('''),
   ("src/logger_bbob.c",'''/**
 * @brief Opens the file in append mode
 */''','''static void logger_bbob_output(FILE *f, logger_bbob_data_t *l, const double *x, double a, double b, const double *c) {
  logger_bbob_output_raw(f, l, x, a, b, c);
  fflush(f);
}
/**
 * @brief Opens the file in append mode
 */''')],0),
]]
