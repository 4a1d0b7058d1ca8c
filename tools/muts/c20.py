M=[("C20",n,e,None,None,x) for n,e,x in [
("open",[("src/logger_bbob.c",'''    if (*file == NULL) {
      coco_error("logger_bbob_open_file(): Error opening file: %s\\nError: %d", file_path, errno);
    }
''','')],1),
("open_warn",[("src/logger_rw.c",'coco_error("logger_rw() failed to open','coco_warning("logger_rw() failed to open')],1),
("alloc",[("src/coco_runtime_c.c",'''  if (data == NULL)
    coco_error("coco_allocate_memory() failed.");
''','')],1),
("err",[("src/coco_runtime_c.c",'  exit(EXIT_FAILURE);','  if (coco_log_level > COCO_ERROR)\n    exit(EXIT_FAILURE);')],1),
("assertonly",[("src/coco_observer.c",'''  if (evaluations->base_evaluations == NULL)
    coco_error(''','''  assert(evaluations->base_evaluations);
  if (0)
    coco_error(''')],1),
("order",[("src/logger_biobj.c",'''    if (new_node == NULL)
      coco_error("logger_biobj_tree_update(): could not insert a solution into the archive");
''','''    new_node->count = 1;
    if (new_node == NULL)
      coco_error("logger_biobj_tree_update(): could not insert a solution into the archive");
''')],1),
("ok_flip",[("src/logger_bbob.c",'''    if (*file == NULL) {
      coco_error("logger_bbob_open_file(): Error opening file: %s\\nError: %d", file_path, errno);
    }
''','''    if (!(*file != NULL))
      coco_error("logger_bbob_open_file(): Error opening file: %s\\nError: %d", file_path, errno);
''')],0),
("ok_helper",[("src/logger_bbob.c",'''static void logger_bbob_open_file(FILE **file, const char *file_path) {
  if (*file == NULL) {
    *file = fopen(file_path, "a");
    if (*file == NULL) {
      coco_error("logger_bbob_open_file(): Error opening file: %s\\nError: %d", file_path, errno);
    }
  }
''','''static FILE *logger_bbob_fopen(const char *file_path) {
  FILE *f = fopen(file_path, "a");
  if (!f)
    coco_error("logger_bbob_open_file(): Error opening file: %s\\nError: %d", file_path, errno);
  return f;
}
static void logger_bbob_open_file(FILE **file, const char *file_path) {
  if (*file == NULL) {
    *file = logger_bbob_fopen(file_path);
  }
''')],0),
("ok_helper2",[("src/logger_bbob.c",'''static void logger_bbob_open_file(FILE **file, const char *file_path) {
  if (*file == NULL) {
    *file = fopen(file_path, "a");
    if (*file == NULL) {
      coco_error("logger_bbob_open_file(): Error opening file: %s\\nError: %d", file_path, errno);
    }
  }
''','''static void logger_bbob_opened(FILE *f, const char *file_path) {
  if (!f)
    coco_error("logger_bbob_open_file(): Error opening file: %s\\nError: %d", file_path, errno);
}
static void logger_bbob_open_file(FILE **file, const char *file_path) {
  if (*file == NULL) {
    *file = fopen(file_path, "a");
    logger_bbob_opened(*file, file_path);
  }
''')],0),
]]
