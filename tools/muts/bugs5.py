M = []
def b(p, n, *eds, exp=1): M.append((p, n, list(eds), None, None, exp))
S="src/"
NO=S+"suite_bbob_noisy.c"; MI=S+"suite_bbob_mixint.c"; BM=S+"suite_biobj_mixint.c"; BU=S+"suite_biobj_utilities.c"; BI=S+"suite_biobj.c"; CS=S+"coco_suite.c"
# C11
b("C11","noisy_dup",(NO,"""    double alpha = 0.49 + 1.0 / (double)dimension;
    double beta = 1.0;
    problem = transform_obj_uniform_noise(inner_problem, alpha, beta);
  } else if (function == 109)""","""    double alpha = 0.01 * (0.49 + 1 / (double)dimension);
    double beta = 0.01;
    problem = transform_obj_uniform_noise(inner_problem, alpha, beta);
  } else if (function == 109)"""))
b("C11","biobj_dup",(BU,"""  } else if (function_idx == 81) {
    function1_idx = 16;
    function2_idx = 18;""","""  } else if (function_idx == 81) {
    function1_idx = 16;
    function2_idx = 17;"""))
b("C11","biobj_gap",(BU,"  } else if (function_idx == 74) {","  } else if (function_idx == 174) {"))
b("C11","biobj_oob",(BU,"""    function1_idx = 22;
    function2_idx = 23;""","""    function1_idx = 22;
    function2_idx = 24;"""))
b("C11","mix_dim",(MI,"  const size_t dimensions[] = {5, 10, 20, 40, 80, 160};","  const size_t dimensions[] = {5, 10, 20, 40, 80, 162};"))
b("C11","mix_order",(MI,"  const size_t dimensions[] = {5, 10, 20, 40, 80, 160};","  const size_t dimensions[] = {5, 10, 40, 20, 80, 160};"))
b("C11","noisy_year",(NO,'dimensions, "year:2009", 1);','dimensions, "year:2010", 1);'))
b("C11","biobj_ext93",(BI,"-ext\", 55 + 37","-ext\", 55 + 38"))
b("C11","mix_div",(MI,"  if (dimension % 5 != 0)","  if (dimension % 20 != 0 && dimension > 20)"),exp=0)
b("C11","mix_div40",(MI,"  if (dimension % 5 != 0)","  if (dimension % 5 != 0 || dimension % 3 == 1)"))
b("C11","inst_fmt",(BI,'dimensions, "instances: 1-15", 1);\n  } else if','dimensions, "instances: 1-15,", 1);\n  } else if'),exp=1)
b("C11","inst_rev",(BI,'dimensions, "instances: 1-15", 1);\n  } else if','dimensions, "instances: 15-1", 1);\n  } else if'))
# C12
b("C12","mix_id",(MI,'"bbob-mixint_f%03lu_i%02lu_d%02lu", function, instance, dimension);','"bbob-mixint_f%03lu_i%02lu_d%02lu", function, dimension, instance);'))
b("C12","mix_sc",(MI,"suite_bbob_mixint_scaling_factors[function - 1]","suite_bbob_mixint_scaling_factors[instance - 1]"))
b("C12","bm_call",(BM,"    problem = coco_get_biobj_mixint_problem(function, dimension, instance, coco_get_largescale_problem,","    problem = coco_get_biobj_mixint_problem(function, instance, dimension, coco_get_largescale_problem,"))
b("C12","bm_idx",(BM,"coco_suite_encode_problem_index(suite, function_idx, dimension_idx, instance_idx);","coco_suite_encode_problem_index(suite, function_idx, instance_idx, dimension_idx);"))
b("C12","bm_inst",(BM,"  problem->suite_dep_instance = instance;","  problem->suite_dep_instance = instance_idx + 1;"))
b("C12","bu_swap",(BU,"break_search = suite_biobj_check_inst_consistency(dimension, function1, instance1, function2, instance2);\n        }\n      }\n    }","break_search = suite_biobj_check_inst_consistency(dimension, function1, instance1, instance2, function2);\n        }\n      }\n    }"))
b("C12","bm_type",(BM,'(unsigned long)function,\n                      (unsigned long)instance, (unsigned long)dimension);','(unsigned long)function,\n                      (unsigned long)problem->number_of_objectives, (unsigned long)dimension);'))
b("C12","bm_funcs",(BM,"  const size_t function = suite->functions[function_idx];","  const size_t function = suite->functions[dimension_idx];"))
b("C12","bm_large",(BM,"  if (dimension < dim_large_scale)","  if (function < dim_large_scale)"),exp=0)
b("C12","bu_arr",(BU,"          dimension = dimensions[d];","          dimension = bbob_functions[d];"))
# C22
b("C22","static_seed",(MI,"  size_t num_integer = dimension;","  static size_t created = 0;\n  size_t num_integer = dimension - (created++ > 1000);"))
b("C22","time_seed",(NO,"  const long rseed_21 = (long)(21 + 10000 * instance);","  const long rseed_21 = (long)(21 + 10000 * instance) + (time(NULL) == 0);"))
b("C22","env",(BI,'  if ((year == 2016) || (year == 0000)) { /* test case */','  if ((year == 2016) || (year == 0000) || getenv("COCO_OLD")) { /* test case */'))
b("C22","iter_dep",(BM,"  const size_t instance = suite->instances[instance_idx];","  const size_t instance = suite->instances[suite->current_instance_idx > 0 ? (size_t)suite->current_instance_idx : instance_idx];"))
b("C22","addr",(MI,"  if (dimension % 5 != 0)","  if (((size_t)smallest_values_of_interest & 8) && dimension > 160)\n    num_integer = 0;\n  if (dimension % 5 != 0)"))
