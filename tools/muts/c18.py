U="src/coco_utilities.c"
M=[("C18",n,e,None,None,x) for n,e,x in [
("w",[("src/logger_rw.c",'fopen(path_name, "a")','fopen(path_name, "w")')],1),
("rplus",[("src/logger_bbob.c",'fopen(file_path, "a")','fopen(file_path, "r+")')],1),
("condmode",[("src/logger_bbob_old.c",'fopen(file_path, "a+");','fopen(file_path, coco_log_level ? "a+" : "w");')],1),
("rm",[("src/coco_observer.c",'  coco_create_unique_directory(&path);','  if (strcmp(observer_name, "toy") == 0)\n    coco_remove_directory(path);\n  coco_create_unique_directory(&path);')],1),
("unlink",[("src/coco_archive.c",'void coco_archive_free(coco_archive_t *archive) {','#include <unistd.h>\nvoid coco_archive_free(coco_archive_t *archive) {\n  unlink("archive.tmp");')],1),
("notunique",[("src/coco_observer.c",'  coco_create_unique_directory(&path);','  coco_create_directory(path);')],1),
("notunique2",[("src/coco_observer.c",'  coco_create_unique_directory(&path);','  if (coco_options_read_string(observer_options, "reuse", algorithm_name) == 0) coco_create_unique_directory(&path);\n  else coco_create_directory(path);')],1),
("eexist",[(U,'''  else if (errno == EEXIST)
    return 1;''','''  else if (errno == EEXIST)
    return 0;''')],1),
("nested",[(U,'''  result = coco_mkdir(tmp);
  coco_free_memory(path_copy);
  return result;''','''  coco_mkdir(tmp);
  coco_free_memory(path_copy);
  return result;''')],1),
("uniqcounter",[(U,'''    if (coco_create_directory(new_path) == 0) {
      /* Directory created */''','''    if (coco_create_directory(new_path) == 0 || counter > 999) {
      /* Directory created */''')],1),
("wrongpath",[(U,'''      coco_free_memory(*path);
      *path = new_path;
      return;
    } else {''','''      coco_free_memory(new_path);
      return;
    } else {''')],1),
("filename",[(U,'''  if (!coco_file_exists(file_path))
    return;
''','''  if (coco_file_exists(file_path) < 2)
    return;
''')],1),
("ok_loop",[(U,'''  while (counter < 9999) {

    new_path = coco_strdupf("%s-%04d", *path, counter);
''','''  for (counter = 1; counter < 9999;) {
    new_path = coco_strdupf("%s-%04d", *path, counter);
''')],0),
("ok_var",[(U,'''    if (coco_create_directory(new_path) == 0) {
      /* Directory created */''','''    int existed = coco_create_directory(new_path);
    if (!existed) {
      /* Directory created */''')],0),
("ok_mkdir",[(U,'''  if (result == 0)
    return 0;
  else if (errno == EEXIST)
    return 1;''','''  if (result != 0 && errno == EEXIST)
    return 1;
  if (!result)
    return 0;''')],0),
("ok_helper",[("src/coco_observer.c",'  coco_create_unique_directory(&path);','  observer_folder(&path);'),("src/coco_observer.c",'coco_observer_t *coco_observer(const char *observer_name','static void observer_folder(char **path) {\n  coco_create_unique_directory(path);\n}\ncoco_observer_t *coco_observer(const char *observer_name')],0),
("ok_helper2",[("src/coco_observer.c",'  coco_create_unique_directory(&path);','  path = observer_folder(path);'),("src/coco_observer.c",'coco_observer_t *coco_observer(const char *observer_name','static char *observer_folder(char *path) {\n  coco_create_unique_directory(&path);\n  return path;\n}\ncoco_observer_t *coco_observer(const char *observer_name')],0),
]]
