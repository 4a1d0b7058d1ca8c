O = "src/coco_observer.c"
READX = '''  precision_x = 8;
  if (coco_options_read_int(observer_options, "precision_x", &precision_x) != 0) {
    if ((precision_x < 1) || (precision_x > 32)) {
      coco_warning("coco_observer(): Unsuitable observer option value "
                   "(precision_x: %d) ignored",
                   precision_x);
      precision_x = 8;
    }
  }
'''
HEAD = "coco_observer_t *coco_observer(const char *observer_name, const char *observer_options) {\n"
M = [
 ("C14", "drop_known", [(O, '                              "precision_f",\n', "")], None, None, 1),
 ("C14", "rename_read", [(O, 'coco_options_read_int(observer_options, "precision_g"', 'coco_options_read_int(observer_options, "precision_c"')], None, None, 1),
 ("C14", "swap_args", [(O, "precision_x, precision_f, precision_g, log_discrete_as_int);\n\n  coco_free", "precision_f, precision_x, precision_g, log_discrete_as_int);\n\n  coco_free")], None, None, 1),
 ("C14", "swap_fields", [(O, "observer->precision_x = precision_x;", "observer->precision_x = precision_f;")], None, None, 1),
 ("C14", "no_default_str", [(O, '''    strcpy(base_evaluation_triggers, "1,2,5");
''', '''    coco_debug("no base_evaluation_triggers");
''')], None, None, 1),
 ("C14", "position", [("src/coco_string.c", "", "")], None, None, None),
 ("C14", "unread", [("src/logger_bbob_old.c", "observer->log_discrete_as_int;", "0;"), ("src/logger_bbob.c", "observer->log_discrete_as_int;", "0;"),
                    ("src/logger_rw.c", "observer->log_discrete_as_int;", "0;"), ("src/logger_biobj.c", "observer->log_discrete_as_int", "0")], None, None, 1),
 ("C14", "range_high", [(O, "(precision_f < 1) || (precision_f > 32)", "(precision_f < 1) || (precision_f > 320)")], None, None, 1),
 ("C14", "range_and", [(O, "(precision_g < 1) || (precision_g > 32)", "(precision_g < 1) && (precision_g > 32)")], None, None, 1),
 ("C14", "range_zero", [(O, "log_target_precision <= 0", "log_target_precision < 0")], None, None, 1),
 ("C14", "range_triggers", [(O, "number_evaluation_triggers < 4", "number_evaluation_triggers < 1")], None, None, 1),
 ("C14", "fallback", [(O, '''                   precision_g);
      precision_g = 3;''', '''                   precision_g);
      precision_g = 8;''')], None, None, 1),
 ("C14", "nested_key", [("src/observer_rw.c", '"log_time"', '"log"')], None, None, 1),
 ("C14", "ok_helper", [(O, READX, '''  precision_x = observer_precision(observer_options, "precision_x", 8);
'''), (O, HEAD, '''static int observer_precision(const char *options, const char *name, const int fallback) {
  int value = fallback;
  if (coco_options_read_int(options, name, &value) != 0) {
    if ((value < 1) || (value > 32)) {
      coco_warning("coco_observer(): Unsuitable observer option value (%s: %d) ignored", name, value);
      value = fallback;
    }
  }
  return value;
}

''' + HEAD)], None, None, 0),
 ("C14", "ok_helper_ptr", [(O, READX, '''  observer_precision(observer_options, "precision_x", 8, &precision_x);
'''), (O, HEAD, '''static void observer_precision(const char *options, const char *name, const int fallback, int *value) {
  *value = fallback;
  if (coco_options_read_int(options, name, value) != 0) {
    if ((*value < 1) || (*value > 32)) {
      coco_warning("coco_observer(): Unsuitable observer option value (%s: %d) ignored", name, *value);
      *value = fallback;
    }
  }
}

''' + HEAD)], None, None, 0),
 ("C14", "bad_helper_ptr", [(O, READX, '''  observer_precision(observer_options, "precision_x", 8, &precision_x);
'''), (O, HEAD, '''static void observer_precision(const char *options, const char *name, const int fallback, int *value) {
  *value = fallback;
  if (coco_options_read_int(options, name, value) != 0) {
    if ((*value < 0) || (*value > 32)) {
      coco_warning("coco_observer(): Unsuitable observer option value (%s: %d) ignored", name, *value);
      *value = fallback;
    }
  }
}

''' + HEAD)], None, None, 1),
 ("C14", "ok_inrange", [(O, READX, READX.replace("(precision_x < 1) || (precision_x > 32)", "!(precision_x >= 1 && precision_x <= 32)"))], None, None, 0),
 ("C14", "ok_validhelper", [(O, READX, READX.replace("(precision_x < 1) || (precision_x > 32)", "!precision_is_valid(precision_x)")),
   (O, HEAD, '''static int precision_is_valid(const int precision) {
  return precision >= 1 && precision <= 32;
}

''' + HEAD)], None, None, 0),
 ("C14", "ok_else", [(O, READX, '''  if (coco_options_read_int(observer_options, "precision_x", &precision_x) == 0) {
    precision_x = 8;
  } else if ((precision_x < 1) || (precision_x > 32)) {
      coco_warning("coco_observer(): Unsuitable observer option value "
                   "(precision_x: %d) ignored",
                   precision_x);
      precision_x = 8;
  }
''')], None, None, 0),
 ("C14", "ok_static_keys", [(O, "  const char *known_keys[] = {", "  static const char *known_keys[] = {")], None, None, 0),
 ("C14", "ok_setter", [("src/logger_bbob.c", "logger_data->log_discrete_as_int = observer->log_discrete_as_int;", "logger_data->log_discrete_as_int = (observer->log_discrete_as_int != 0);")], None, None, 0),
]
M = [m for m in M if m[1] != "position"]
