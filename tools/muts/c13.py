C="src/coco_suite.c"
M=[("C13",n,e,None,None,x) for n,e,x in [
("enc",[(C,"(dimension_idx * suite->number_of_instances * suite->number_of_functions)","(dimension_idx * suite->number_of_instances * suite->number_of_dimensions)")],1),
("dec",[(C,"% suite->number_of_functions;","% suite->number_of_dimensions;")],1),
("dec2",[(C,"*dimension_idx = problem_index / (suite->number_of_instances * suite->number_of_functions);","*dimension_idx = problem_index / suite->number_of_instances / suite->number_of_dimensions;")],1),
("ok_dec",[(C,"*dimension_idx = problem_index / (suite->number_of_instances * suite->number_of_functions);","*dimension_idx = problem_index / suite->number_of_instances / suite->number_of_functions;")],0),
("ok_dec2",[(C,"  *instance_idx = problem_index % suite->number_of_instances;\n  *function_idx = (problem_index / suite->number_of_instances) % suite->number_of_functions;","  size_t rest = problem_index / suite->number_of_instances;\n  *instance_idx = problem_index - rest * suite->number_of_instances;\n  *function_idx = rest - (rest / suite->number_of_functions) * suite->number_of_functions;")],0),
("ok_dec3",[(C,"  *instance_idx = problem_index % suite->number_of_instances;\n  *function_idx = (problem_index / suite->number_of_instances) % suite->number_of_functions;","  const size_t per = suite->number_of_functions * suite->number_of_instances;\n  const size_t rest = problem_index % per;\n  *instance_idx = rest % suite->number_of_instances;\n  *function_idx = rest / suite->number_of_instances;")],0),
("guard",[(C,"  if (problem_index > (suite->number_of_instances * suite->number_of_functions *\n                       suite->number_of_dimensions) -\n                          1) {","  if (problem_index > (suite->number_of_instances * suite->number_of_functions *\n                       suite->number_of_dimensions)) {")],1),
("ok_guard",[(C,"  if (problem_index > (suite->number_of_instances * suite->number_of_functions *\n                       suite->number_of_dimensions) -\n                          1) {","  if (problem_index >= coco_suite_get_number_of_problems(suite)) {")],0),
("unset",[(C,"    *instance_idx = 0;\n    *dimension_idx = 0;\n    return;","    *instance_idx = 0;\n    return;")],1),
("total",[(C,"  return (suite->number_of_instances * suite->number_of_functions *\n          suite->number_of_dimensions);","  return (suite->number_of_instances * suite->number_of_functions *\n          suite->number_of_functions);")],1),
("getter",[(C,"if (instance_idx >= suite->number_of_instances) {","if (instance_idx > suite->number_of_instances) {")],1),
("getter2",[(C,"  return suite->dimensions[dimension_idx];","  return suite->dimensions[dimension_idx > 0 ? dimension_idx - 1 : 0];")],0),
("noid",[("src/suite_largescale.c","  problem->suite_dep_instance = instance;\n","")],1),
("noid2",[("src/suite_bbob_mixint.c","  problem->suite_dep_index = coco_suite_encode_problem_index(suite, function_idx, dimension_idx, instance_idx);","  if (function_idx > 0) problem->suite_dep_index = coco_suite_encode_problem_index(suite, function_idx, dimension_idx, instance_idx);")],1),
("idplus",[("src/suite_bbob.c","problem->suite_dep_instance = instance;","problem->suite_dep_instance = instance_idx + 1;")],1),
("cursor",[(C,"coco_suite_is_next_item_found(suite->dimensions, suite->number_of_dimensions, &suite->current_dimension_idx)","coco_suite_is_next_item_found(suite->dimensions, suite->number_of_functions, &suite->current_dimension_idx)")],1),
("order",[(C,"  if (!coco_suite_is_next_instance_found(suite) && !coco_suite_is_next_function_found(suite) &&\n      !coco_suite_is_next_dimension_found(suite)) {","  if (!coco_suite_is_next_instance_found(suite) && !coco_suite_is_next_dimension_found(suite) &&\n      !coco_suite_is_next_function_found(suite)) {")],1),
("order2",[(C,"  if (!coco_suite_is_next_instance_found(suite) && !coco_suite_is_next_function_found(suite) &&","  if (!coco_suite_is_next_instance_found(suite) && !coco_suite_is_next_function_found(suite) ||")],1),
("ok_order",[(C,"  if (!coco_suite_is_next_instance_found(suite) && !coco_suite_is_next_function_found(suite) &&\n      !coco_suite_is_next_dimension_found(suite)) {","  int found = coco_suite_is_next_instance_found(suite);\n  if (!found) found = coco_suite_is_next_function_found(suite);\n  if (!found) found = coco_suite_is_next_dimension_found(suite);\n  if (!found) {")],0),
("ok_helper",[("src/suite_toy.c","static coco_problem_t *suite_toy_get_problem(","static void toy_id(coco_suite_t *s, coco_problem_t *p, size_t a, size_t b, size_t c) { p->suite_dep_function = s->functions[a]; p->suite_dep_instance = s->instances[c]; p->suite_dep_index = coco_suite_encode_problem_index(s, a, b, c);}\nstatic coco_problem_t *suite_toy_get_problem("),("src/suite_toy.c","  problem->suite_dep_function = function;\n  problem->suite_dep_instance = instance;\n  problem->suite_dep_index = coco_suite_encode_problem_index(suite, function_idx, dimension_idx, instance_idx);","  toy_id(suite, problem, function_idx, dimension_idx, instance_idx);(void)instance;")],0),
]]
