C="src/coco_suite.c"
M=[("C12",n,e,None,None,x) for n,e,x in [
("setid",[("src/f_bent_cigar.c","problem_id_template, function, instance,\n                      dimension);","problem_id_template, function, dimension,\n                      instance);")],1),
("depidx",[("src/suite_toy.c","problem->suite_dep_instance = instance;","problem->suite_dep_instance = instance_idx;")],1),
("swap",[("src/suite_bbob.c","  problem = coco_get_bbob_problem(function, dimension, instance);","  problem = coco_get_bbob_problem(function, instance, dimension);")],1),
("list",[("src/suite_largescale.c","suite->instances[instance_idx]","suite->instances[function_idx]")],1),
("enc",[("src/suite_biobj.c","coco_suite_encode_problem_index(suite, function_idx, dimension_idx, instance_idx)","coco_suite_encode_problem_index(suite, function_idx, instance_idx, dimension_idx)")],1),
("log",[("src/logger_bbob.c",'fprintf(logger->info_file, ", %lu", (unsigned long)logger->instance);','fprintf(logger->info_file, ", %lu", (unsigned long)logger->function);')],1),
("log2",[("src/logger_bbob.c",'suite_name, (unsigned long)logger->function, (unsigned long)logger->number_of_variables','suite_name, (unsigned long)logger->instance, (unsigned long)logger->number_of_variables')],1),
("fdi",[(C,"      instance_idx = (int)i;","      instance_idx = (int)i;\n      dimension_idx = (int)i;")],1),
("fdi2",[(C,"  for (i = 0; i < suite->number_of_instances; i++) {\n    if (suite->instances[i] == instance","  for (i = 0; i < suite->number_of_functions; i++) {\n    if (suite->instances[i] == instance")],1),
("stack",[("src/coco_problem.c","coco_problem_allocate(number_of_variables, number_of_objectives, number_of_constraints);","coco_problem_allocate(number_of_variables, number_of_constraints, number_of_objectives);")],1),
("next",[(C,"  problem = coco_suite_get_problem_from_indices(suite, function_idx,\n                                                dimension_idx, instance_idx);","  problem = coco_suite_get_problem_from_indices(suite, dimension_idx,\n                                                function_idx, instance_idx);")],1),
("ctorswap",[("src/suite_bbob_noisy.c","inner_problem = f_sphere_bbob_problem_allocate(function, dimension, instance, rseed","inner_problem = f_sphere_bbob_problem_allocate(instance, dimension, function, rseed")],1),
("template",[("src/suite_bbob_noisy.c","bbob_noisy_f%lu_i%02lu_d%02lu","bbob_noisy_i%lu_f%02lu_d%02lu")],1),
("ok_helper",[("src/suite_toy.c","static coco_problem_t *suite_toy_get_problem(","static void toy_id(coco_problem_t *p, size_t a, size_t b) { p->suite_dep_function = a; p->suite_dep_instance = b; }\nstatic coco_problem_t *suite_toy_get_problem("),("src/suite_toy.c","  problem->suite_dep_function = function;\n  problem->suite_dep_instance = instance;","  toy_id(problem, function, instance);")],0),
]]
