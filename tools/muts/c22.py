M=[("C22",n,e,None,None,x) for n,e,x in [
("base",[("src/f_sphere.c","  result = 0.0;","  result = 0.;")],0),
("static_cache",[("src/suite_biobj_utilities.c","  const size_t function_idx = function - 1;","  static size_t last_instance = 0, last_instance2 = 0;\n  const size_t function_idx = function - 1;"),("src/suite_biobj_utilities.c","  problem = coco_problem_stacked_allocate(problem1, problem2, smallest_values_of_interest, largest_values_of_interest);\n\n  /* Use the standard stacked","  if (last_instance == instance) instance2 = last_instance2;\n  last_instance = instance; last_instance2 = instance2;\n  problem = coco_problem_stacked_allocate(problem1, problem2, smallest_values_of_interest, largest_values_of_interest);\n\n  /* Use the standard stacked")],1),
("perm_unset",[("src/transform_vars_permutation_helpers.c","  perm_random_data = coco_allocate_vector(length);","  if (perm_random_data == NULL) perm_random_data = coco_allocate_vector(length);")],1),
("cur_idx",[("src/suite_bbob.c","  const size_t instance = suite->instances[instance_idx];","  const size_t instance = suite->current_instance_idx >= 0 ? suite->instances[suite->current_instance_idx] : suite->instances[instance_idx];")],1),
("time_seed",[("src/coco_utilities.c","  time(&timer);","  time(&timer);\n  srand((unsigned)timer);"),("src/f_gallagher.c","  data->rseed = rseed;","  data->rseed = rseed + (rand() == 7);")],1),
]]
