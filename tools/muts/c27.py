S="src/coco_suite.c"; T="src/coco_string.c"; U="src/coco_utilities.c"
FI='''  for (i = 1; i <= number_of_items; i++) {
    found = 0;
    for (j = 0; j < count; j++) {
      if (i == indices[j]) {
        found = 1;
        break;
      }
    }
    if (!found)
      items[i - 1] = 0;
  }
'''
FD='''  for (i = 0; i < suite->number_of_dimensions; i++) {
    found = 0;
    for (j = 0; j < count; j++) {
      if (suite->dimensions[i] == dimension_numbers[j])
        found = 1;
    }
    if (!found)
      suite->dimensions[i] = 0;
  }
'''
WR='''      for (j = num[0]; j <= num[1]; j++) {
        if (i_result > max_count - 1)
          break;
        result[i_result++] = j;
      }
'''
CNT='''  size_t count = 0;
  while ((count < max_count) && (numbers[count] != 0)) {
    count++;
  }
'''
CL0="      if ((min > 0) && (num[0] < min)) {"
CL1="      if ((max > 0) && (num[1] > max)) {"
def b(n,*e,x=1): return ("C27",n,list(e),None,None,x)
def r(n,*e): return b("ok_"+n,*e,x=0)
M=[
b("range_lt",(S,"  for (i = 1; i <= number_of_items; i++) {","  for (i = 1; i < number_of_items; i++) {")),
b("range_from2",(S,"  for (i = 1; i <= number_of_items; i++) {\n    found = 0;","  for (i = 2; i <= number_of_items; i++) {\n    found = 0;")),
b("noreset",(S,"  int found;\n\n  for (i = 1; i","  int found = 0;\n\n  for (i = 1; i"),(S,"  for (i = 1; i <= number_of_items; i++) {\n    found = 0;\n","  for (i = 1; i <= number_of_items; i++) {\n")),
b("noreset_dim",(S,"  int found;\n\n  for (i = 0; i < suite->number_of_dimensions","  int found = 0;\n\n  for (i = 0; i < suite->number_of_dimensions"),(S,"  for (i = 0; i < suite->number_of_dimensions; i++) {\n    found = 0;\n","  for (i = 0; i < suite->number_of_dimensions; i++) {\n")),
b("zero_based",(S,"      if (i == indices[j]) {","      if (i - 1 == indices[j]) {")),
b("wrong_item",(S,"      items[i - 1] = 0;","      items[i % number_of_items] = 0;")),
b("first_only",(S,"      if (i == indices[j]) {\n        found = 1;\n        break;\n      }","      if (i == indices[j])\n        found = 1;\n      break;")),
b("count_short",(S,"    for (j = 0; j < count; j++) {\n      if (i == indices[j])","    for (j = 0; j + 1 < count; j++) {\n      if (i == indices[j])")),
b("last_wins",(S,"      if (suite->dimensions[i] == dimension_numbers[j])\n        found = 1;","      found = (suite->dimensions[i] == dimension_numbers[j]);")),
b("sorted_stop",(S,"      if (suite->dimensions[i] == dimension_numbers[j])\n        found = 1;","      if (suite->dimensions[i] == dimension_numbers[j])\n        found = 1;\n      else if (dimension_numbers[j] > suite->dimensions[i])\n        break;")),
b("dim_stop",(S,"    if (!found)\n      suite->dimensions[i] = 0;","    if (!found)\n      suite->dimensions[i] = 0;\n    else if (count == 1)\n      break;")),
b("inst_cap",(S,"  for (i = 0; i < suite->number_of_instances; i++) {\n    suite->instances[i] = instance_numbers[i];","  for (i = 0; i + 1 < suite->number_of_instances; i++) {\n    suite->instances[i] = instance_numbers[i];")),
b("inst_first",(S,"    suite->instances[i] = instance_numbers[i];","    suite->instances[i] = instance_numbers[suite->number_of_instances - 1 - i];")),
b("func_zero",(S,"    suite->functions[i] = i + 1;","    suite->functions[i] = i;")),
b("func_noisy",(S,"suite->functions[i] + 100;","suite->functions[i] + 101;")),
b("excl2",(T,"      for (j = num[0]; j <= num[1]; j++) {","      for (j = num[0]; j < num[1]; j++) {")),
b("cap",(T,"        if (i_result > max_count - 1)","        if (i_result > max_count - 2)")),
b("cap2",(T,"        if (i_result > max_count - 1)","        if (i_result > max_count)")),
b("nodup",(T,"        result[i_result++] = j;","        if (i_result == 0 || result[i_result - 1] != j)\n          result[i_result++] = j;")),
b("clip_lo",(T,CL0,"      if ((min > 0) && (max > 0) && (num[0] < min)) {")),
b("clip_hi",(T,CL1,"      if ((max > 0) && (num[0] > max)) {")),
b("clip_hi2",(T,CL1,"      if ((max > 0) && (num[1] > max) && (count > 0)) {")),
b("clip_wrong",(T,"        num[1] = max;\n        coco_warning","        num[1] = min;\n        coco_warning")),
b("front",(T,"            num[1] = num[0];\n            num[0] = min;","            num[0] = min;\n            num[1] = num[0];")),
b("dash",(T,"          if (dash - *(ranges + i) == 0) {","          if (dash - *(ranges + i) != 0) {")),
b("back",(T,"            num[1] = max;\n          }","            num[1] = num[0];\n          }")),
b("nomark",(T,"  if (i_result == 0) {\n    coco_free_memory(result);\n    return NULL;\n  }\n\n  result[i_result] = 0;\n  return result;\n}","  if (i_result == 0) {\n    coco_free_memory(result);\n    return NULL;\n  }\n\n  if (i_result < max_count)\n    result[i_result] = 0;\n  return result;\n}")),
b("gone",(T,"  if (i_result == 0) {\n    coco_free_memory(result);\n    return NULL;\n  }\n\n  result[i_result] = 0;\n  return result;\n}","  if (i_result == max_count) {\n    coco_free_memory(result);\n    return NULL;\n  }\n\n  result[i_result] = 0;\n  return result;\n}")),
b("mark0",(T,"        result[i_result] = 0;\n        return result;\n      } else if","        result[max_count] = 0;\n        return result;\n      } else if")),
b("count1",(U,"  while ((count < max_count) && (numbers[count] != 0)) {\n    count++;\n  }","  while ((count < max_count) && (numbers[count] != 0)) {\n    count += 1 + (numbers[count] == numbers[count + 1]);\n  }")),
b("count2",(U,"  return count;\n}\n\n/**\n * @brief multiply","  return count > 1 ? count - 1 : count;\n}\n\n/**\n * @brief multiply")),
b("wire",(S,"        coco_suite_filter_indices(suite->instances, suite->number_of_instances,","        coco_suite_filter_indices(suite->functions, suite->number_of_functions,")),
b("wire_max",(S,"option_string, 1, suite->number_of_instances, \"instance_indices\"","option_string, 1, suite->number_of_functions, \"instance_indices\"")),
b("wire_min",(S,"option_string, 1, suite->number_of_functions","option_string, 2, suite->number_of_functions")),
b("wire_max1",(S,"option_string, 1, suite->number_of_functions","option_string, 1, suite->number_of_functions - 1")),
b("wire_dim",(S,"suite->dimensions[suite->number_of_dimensions - 1], \"dimensions\"","suite->dimensions[suite->number_of_dimensions - 2], \"dimensions\"")),
b("wire_how",(S,"        coco_suite_filter_dimensions(suite, dimensions);","        coco_suite_filter_indices(suite->dimensions, suite->number_of_dimensions, dimensions, \"dimensions\");")),
# refactorings
r("nobreak",(S,FI,FI.replace("        break;\n",""))),
r("zero",(S,FI,'''  for (i = 0; i < number_of_items; i++) {
    found = 0;
    for (j = 0; j < count; j++) {
      if (indices[j] == i + 1)
        found = 1;
    }
    if (found == 0)
      items[i] = 0;
  }
''')),
r("while",(S,FI,'''  i = 0;
  while (i < number_of_items) {
    j = 0;
    while (j < count && indices[j] != i + 1)
      j++;
    found = j < count;
    if (!found)
      items[i] = 0;
    i++;
  }
''')),
r("goto",(S,FI,'''  for (i = 1; i <= number_of_items; i++) {
    for (j = 0; j < count; j++) {
      if (i == indices[j])
        goto next;
    }
    items[i - 1] = 0;
  next:
    found = 1;
    (void)found;
  }
''')),
r("foundcount",(S,FD,FD.replace("found = 1;","found++;"))),
r("or",(S,FD,FD.replace("      if (suite->dimensions[i] == dimension_numbers[j])\n        found = 1;","      found = found || (suite->dimensions[i] == dimension_numbers[j]);"))),
r("or2",(S,FD,FD.replace("      if (suite->dimensions[i] == dimension_numbers[j])\n        found = 1;","      found |= (suite->dimensions[i] == dimension_numbers[j]);"))),
r("down",(S,FD,FD.replace("for (i = 0; i < suite->number_of_dimensions; i++)","for (i = suite->number_of_dimensions; i-- > 0;)"))),
r("helper",(S,FD,FD.replace('''    found = 0;
    for (j = 0; j < count; j++) {
      if (suite->dimensions[i] == dimension_numbers[j])
        found = 1;
    }
    if (!found)''','''    found = coco_suite_is_listed(suite->dimensions[i], dimension_numbers, count);
    if (!found)''')),(S,"  size_t i, j;\n  size_t count =\n","  size_t i;\n  size_t count =\n"),(S,'''static void coco_suite_filter_dimensions(coco_suite_t *suite,
''','''static int coco_suite_is_listed(const size_t number, const size_t *numbers, const size_t count) {
  size_t j;
  for (j = 0; j < count; j++) {
    if (numbers[j] == number)
      return 1;
  }
  return 0;
}

static void coco_suite_filter_dimensions(coco_suite_t *suite,
''')),
r("sentinel",(S,FD,FD.replace("for (j = 0; j < count; j++)","for (j = 0; dimension_numbers[j] != 0; j++)")),(S,"  size_t count =\n      coco_count_numbers(dimension_numbers, COCO_MAX_INSTANCES, \"dimensions\");\n","  coco_count_numbers(dimension_numbers, COCO_MAX_INSTANCES, \"dimensions\");\n")),
r("local",(S,FD,FD.replace("    found = 0;","    const size_t dim = suite->dimensions[i];\n    found = 0;").replace("if (suite->dimensions[i] ==","if (dim =="))),
r("wr_while",(T,WR,'''      j = num[0];
      while (j <= num[1] && i_result < max_count) {
        result[i_result] = j;
        i_result++;
        j++;
      }
''')),
r("wr_cap",(T,WR,WR.replace("if (i_result > max_count - 1)","if (i_result >= max_count)"))),
r("wr_cap2",(T,WR,WR.replace("if (i_result > max_count - 1)","if (i_result == max_count)"))),
r("clip_swap",(T,CL0+'''
        num[0] = min;
        coco_warning("coco_string_parse_ranges(): '%s' ranges adjusted to be >= %lu", name, (unsigned long)min);
      }
''',"")
 ,(T,'''ranges adjusted to be <= %lu", name, (unsigned long)max);
      }
''','''ranges adjusted to be <= %lu", name, (unsigned long)max);
      }
'''+CL0+'''
        num[0] = min;
        coco_warning("coco_string_parse_ranges(): '%s' ranges adjusted to be >= %lu", name, (unsigned long)min);
      }
''')),
r("clip_nomin0",(T,CL0,"      if (num[0] < min) {")),
r("locals",(T,WR,'''      {
        const size_t first = num[0], last = num[1];
        for (j = first; j <= last; j++) {
          if (i_result > max_count - 1)
            break;
          result[i_result++] = j;
        }
      }
''')),
r("cnt_for",(U,CNT,'''  size_t count;
  for (count = 0; count < max_count; count++) {
    if (numbers[count] == 0)
      break;
  }
''')),
r("fill_while",(S,"  for (i = 0; i < suite->number_of_instances; i++) {\n    suite->instances[i] = instance_numbers[i];\n  }","  i = 0;\n  while (i < suite->number_of_instances) {\n    suite->instances[i] = instance_numbers[i];\n    ++i;\n  }")),
r("fill_func",(S,"    suite->functions[i] = i + 1;\n    if (strcmp(suite->suite_name, \"bbob-noisy\") == 0)\n      suite->functions[i] = suite->functions[i] + 100;","    if (strcmp(suite->suite_name, \"bbob-noisy\") == 0)\n      suite->functions[i] = i + 101;\n    else\n      suite->functions[i] = i + 1;")),
r("dash_eq",(T,"          if (dash - *(ranges + i) == 0) {","          if (dash == *(ranges + i)) {")),
r("dash_ch",(T,"          if (dash - *(ranges + i) == 0) {","          if (**(ranges + i) == '-') {")),
]
