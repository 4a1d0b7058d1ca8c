M=[
("C04","xhat_noreset","src/f_step_ellipsoid.c","    data->x[i] = 0.0;\n","",1),
("C04","brs_short","src/transform_vars_brs.c","for (i = 0; i < problem->number_of_variables; ++i) {\n    /* Function","for (i = 0; i + 1 < problem->number_of_variables; ++i) {\n    /* Function",1),
("C04","brs_cond","src/transform_vars_brs.c","    data->x[i] = factor * x[i];","    if (x[i] != 0) data->x[i] = factor * x[i];",1),
("C04","zhat_cond","src/transform_vars_round_step.c","  ((f_step_ellipsoid_versatile_data_t *)problem->versatile_data)->zhat_1 =","  if (x[0] > 1e-8) ((f_step_ellipsoid_versatile_data_t *)problem->versatile_data)->zhat_1 =",1),
("C04","static_cache","src/f_sphere.c","  size_t i = 0;\n  double result;","  size_t i = 0;\n  static double last;\n  double result;",0),
("C04","static_cache2","src/f_sphere.c","  result = 0.0;","  static double last; if (last > 1e10) return last; last = x[0];\n  result = 0.0;",1),
("C04","eval_dep","src/transform_obj_shift.c","    y[i] += data->offset;","    y[i] += data->offset + 1e-9 * (double)(problem->evaluations > 1000000);",1),
("C04","xhatgen","src/transform_vars_x_hat_generic.c","->x_hat[i] = data->x[i];","->x_hat[i] = data->x[i] > 0 ? data->x[i] : ((f_lunacek_bi_rastrigin_versatile_data_t *)problem->versatile_data)->x_hat[i];",1),
("C04","xhatgen2","src/transform_vars_x_hat_generic.c","    ((f_lunacek_bi_rastrigin_versatile_data_t *)problem->versatile_data)->x_hat[i] = data->x[i];","    if (data->x[i] != 0) ((f_lunacek_bi_rastrigin_versatile_data_t *)problem->versatile_data)->x_hat[i] = data->x[i];",1),
("C04","ok_helper","src/transform_vars_brs.c","    data->x[i] = factor * x[i];","    { double *t = data->x; t[i] = factor * x[i]; }",0),
("C04","ok_dec","src/transform_vars_brs.c","for (i = 0; i < problem->number_of_variables; ++i) {\n    /* Function","for (i = problem->number_of_variables; i-- > 0;) {\n    /* Function",0),
("C04","ok_memcpy","src/transform_vars_x_hat_generic.c","  for (i = 0; i < problem->number_of_variables; ++i) {\n    data->x[i]","  memcpy(data->x, x, problem->number_of_variables * sizeof(double));\n  for (i = 0; i < problem->number_of_variables; ++i) {\n    data->x[i]",0),
("C04","bx_noreset","src/transform_vars_blockrotation.c","    data->Bx[i] = 0;\n","",1),
("C03","write_x","src/transform_vars_scale.c","  size_t i;","  size_t i; ((double *)x)[0] += 0.0;",1),
("C03","clip_helper",[("src/f_sphere.c","static double f_sphere_raw(","static void f_sphere_clip(double *x, size_t n) { size_t i; for (i = 0; i < n; i++) if (x[i] > 1e100) x[i] = 1e100; }\nstatic double f_sphere_raw("),("src/f_sphere.c","  result = 0.0;","  f_sphere_clip((double *)x, number_of_variables);\n  result = 0.0;")],None,None,1),
]
