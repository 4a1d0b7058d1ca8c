B="src/suite_biobj_utilities.c"; C="src/coco_suite.c"
M=[("C11",n,e,None,None,x) for n,e,x in [
("pair_dup",[(B,"  } else if (function_idx == 67) {\n    function1_idx = 6;\n    function2_idx = 8;","  } else if (function_idx == 67) {\n    function1_idx = 6;\n    function2_idx = 7;")],1),
("missing",[("src/suite_bbob_noisy.c","function == 119)","function == 131)")],1),
("nf",[("src/suite_largescale.c","24, num_dimensions","25, num_dimensions")],1),
("year",[("src/suite_sbox_cost.c","if (year == 2023) {","if (year == 2022) {")],1),
("strcmp",[(C,"""  } else if (strcmp(suite->suite_name, "bbob-biobj-mixint") == 0) {
    problem =""","""  } else if (strcmp(suite->suite_name, "bbob-biobj_mixint") == 0) {
    problem =""")],1),
("dims",[("src/suite_toy.c","{2, 3, 5, 10, 20}","{2, 3, 5, 20, 10}")],1),
("samefn",[("src/suite_bbob.c","problem = f_rosenbrock_rotated_bbob_problem_allocate(","problem = f_rosenbrock_bbob_problem_allocate(")],1),
("off",[(C,"suite->functions[i] + 100","suite->functions[i] + 101")],1),
("noisy_same",[("src/suite_bbob_noisy.c","  } else if (function == 105) {\n    rseed = rseed_8;","  } else if (function == 105 || function == 104) {\n    rseed = rseed_8;"),("src/suite_bbob_noisy.c","  } else if (function == 104) {","  } else if (function == 204) {")],1),
("ok_switch",[("src/suite_toy.c","""  if (function == 1) {
    problem = f_sphere_allocate(dimension);
  } else if (function == 2) {
    problem = f_ellipsoid_allocate(dimension, 1.0e6);
  } else if""","""  switch (function) { case 1: problem = f_sphere_allocate(dimension); break;
   case 2: problem = f_ellipsoid_allocate(dimension, 1.0e6); break; default: break; }
  if (problem) {} else if""")],0),
("ok_offset",[(C,"""    suite->functions[i] = i + 1;
    if (strcmp(suite->suite_name, "bbob-noisy") == 0)
      suite->functions[i] = suite->functions[i] + 100;""","""    suite->functions[i] = i + 1 + (strcmp(suite_name, "bbob-noisy") == 0 ? 100 : 0);""")],0),
("ok_table",[("src/suite_toy.c","""  if (function == 1) {
    problem = f_sphere_allocate(dimension);
  } else if (function == 2) {""","""  static coco_problem_t *(*const ctor[])(const size_t) = {f_sphere_allocate, NULL, f_rastrigin_allocate, f_bueche_rastrigin_allocate};
  if (function != 2 && function <= 4) {
    problem = ctor[function - 1](dimension);
  } else if (function == 2) {""")],0),
]]
