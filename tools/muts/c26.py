A="src/coco_archive.c"; B="src/logger_biobj.c"; U="src/mo_utilities.c"
SUB="""        if (logger->compute_indicators) {
          for (i = 0; i < LOGGER_BIOBJ_NUMBER_OF_INDICATORS; i++) {
            logger->indicators[i]->current_value -= ((logger_biobj_avl_item_t *)node->item)->indicator_contribution[i];
          }
        }
"""
M=[("C26",n,e,None,None,x) for n,e,x in [
("stale",[(A,"""      update = 0;
    }

    archive->is_up_to_date = 0;""","""      update = 0;
    } else if (node == NULL)
      archive->is_up_to_date = 0;""")],1),
("keepcur",[(A,"    archive->is_up_to_date = 1;\n    archive->current_solution = NULL;\n","    archive->is_up_to_date = 1;\n")],1),
("getter",[(A,"size_t coco_archive_get_number_of_solutions(coco_archive_t *archive) {\n  coco_archive_update(archive);","size_t coco_archive_get_number_of_solutions(coco_archive_t *archive) {\n  if (archive->number_of_solutions == 0)\n    coco_archive_update(archive);")],1),
("text",[(A,"  coco_archive_update(archive);\n\n  if (!archive->extremes","  if (archive->current_solution == NULL)\n    coco_archive_update(archive);\n\n  if (!archive->extremes")],1),
("equal_in",[(A,"    if (dominance > -1) {","    if (dominance != -1) {")],1),
("loop_once",[(A,"    while (next_node != NULL) {","    if (next_node != NULL) {"),(A,"        avl_node_delete(archive->tree, node);\n      } else {\n        break;\n      }","        avl_node_delete(archive->tree, node);\n      }")],1),
("nodel",[(A,"""      if (dominance == 1) {
        /* The new point dominates the next point, remove the next point */
        assert((node != archive->extreme1) && (node != archive->extreme2));
        avl_node_delete(archive->tree, node);
      }
    } else {""","    } else {")],1),
("del_ext",[(A,"""      if (dominance == 1) {
        next_node = node->next;""","""      if (dominance >= 0) {
        next_node = node->next;""")],1),
("dom_swap",[(A,"    dominance = mo_get_dominance(insert_item->normalized_y, ((coco_archive_avl_item_t *)node->item)->normalized_y,\n                                 archive","    dominance = mo_get_dominance(((coco_archive_avl_item_t *)node->item)->normalized_y, insert_item->normalized_y,\n                                 archive")],1),
("dom_fn",[(U,"    } else if (normalized_y1[i] > normalized_y2[i]) {\n      flag2 = 1;","    } else if (normalized_y1[i] > normalized_y2[i] && !flag1) {\n      flag2 = 1;")],1),
("dom_fn2",[(U,"  } else if (flag1 && flag2) {\n    return 0;\n  } else { /* (!flag1 && !flag2) */\n    return -2;","  } else {\n    return 0;")],1),
("bi_nosub",[(B,SUB+"        avl_item_delete","        avl_item_delete")],1),
("bi_nobuf",[(B,"        next_node = node->next;\n        avl_item_delete(logger->buffer_tree, node->item);","        next_node = node->next;")],1),
("bi_buflate",[(B,"        next_node = node->next;\n        avl_item_delete(logger->buffer_tree, node->item);\n        avl_node_delete(logger->archive_tree, node);","        next_node = node->next;\n        avl_node_delete(logger->archive_tree, node);\n        avl_item_delete(logger->buffer_tree, node->item);")],1),
("bi_mode",[(B,"        avl_item_delete(logger->buffer_tree, node->item);\n        avl_node_delete(logger->archive_tree, node);\n      }\n    } else {","        if (logger->log_nondom_mode == LOG_NONDOM_ALL)\n          avl_item_delete(logger->buffer_tree, node->item);\n        avl_node_delete(logger->archive_tree, node);\n      }\n    } else {")],1),
("bi_nextsub",[(B,"              logger->indicators[i]->current_value -= next_item->indicator_contribution[i];\n","")],1),
("bi_nextadd",[(B,"              logger->indicators[i]->current_value += next_item->indicator_contribution[i];\n","")],1),
("bi_newadd",[(B,"            logger->indicators[i]->current_value += node_item->indicator_contribution[i];","            if (!previous_unavailable)\n              logger->indicators[i]->current_value += node_item->indicator_contribution[i];")],1),
("bi_nobufins",[(B,"    avl_item_insert(logger->buffer_tree, node_item);","    if (node_item->within_ROI)\n      avl_item_insert(logger->buffer_tree, node_item);")],1),
("bi_outside",[(B,"  if (node_item->is_feasible == 0)\n    return 0;","  if (node_item->is_feasible == 0 || !node_item->within_ROI)\n    return 0;")],1),
("bi_out",[(B,"  if (update_performed && (logger->log_nondom_mode == LOG_NONDOM_ALL)) {","  if (update_performed && (logger->log_nondom_mode == LOG_NONDOM_ALL) && node_item->within_ROI) {")],1),
("bi_purge",[(B,"    avl_tree_purge(logger->buffer_tree);\n","")],1),
("bi_ret",[(B,"    avl_item_insert(logger->buffer_tree, node_item);\n","    avl_item_insert(logger->buffer_tree, node_item);\n    if (!node_item->within_ROI)\n      trigger_update = 0;\n")],1),
("bi_order",[(B,"              logger->indicators[i]->current_value -= next_item->indicator_contribution[i];\n              if (strcmp(logger->indicators[i]->name, \"hyp\") == 0) {\n                next_item->indicator_contribution[i] =\n                    (node_item->normalized_y[0] - next_item->normalized_y[0]) * (1 - next_item->normalized_y[1]);\n","              if (strcmp(logger->indicators[i]->name, \"hyp\") == 0) {\n                next_item->indicator_contribution[i] =\n                    (node_item->normalized_y[0] - next_item->normalized_y[0]) * (1 - next_item->normalized_y[1]);\n                logger->indicators[i]->current_value -= next_item->indicator_contribution[i];\n")],1),
("ok_subhelper",[(B,"/**\n * @brief Updates the archive and buffer trees","""static void remove_from_archive(logger_biobj_data_t *logger, avl_node_t *node) {
  size_t k;
  if (logger->compute_indicators)
    for (k = 0; k < LOGGER_BIOBJ_NUMBER_OF_INDICATORS; k++)
      logger->indicators[k]->current_value -= ((logger_biobj_avl_item_t *)node->item)->indicator_contribution[k];
  avl_item_delete(logger->buffer_tree, node->item);
  avl_node_delete(logger->archive_tree, node);
}
/**
 * @brief Updates the archive and buffer trees"""),(B,SUB+"        avl_item_delete(logger->buffer_tree, node->item);\n        avl_node_delete(logger->archive_tree, node);\n      }\n    } else {","        remove_from_archive(logger, node);\n      }\n    } else {"),(B,SUB+"        next_node = node->next;\n        avl_item_delete(logger->buffer_tree, node->item);\n        avl_node_delete(logger->archive_tree, node);\n","        next_node = node->next;\n        remove_from_archive(logger, node);\n")],0),
("ok_flagtest",[(A,"    if (dominance > -1) {","    if (dominance == 0 || dominance == 1) {")],0),
("ok_neg",[(A,"    if (dominance > -1) {","    if (!(dominance < 0)) {")],0),
("ok_early",[(A,"  if (!update) {\n    coco_archive_node_item_free(insert_item, NULL);\n  } else {","  if (!update) {\n    coco_archive_node_item_free(insert_item, NULL);\n    return 0;\n  }\n  {")],0),
("ok_flagfirst",[(A,"    archive->is_up_to_date = 0;\n  }\n\n  return update;","  }\n\n  return update;"),(A,"    /* Perform tree update */\n    while (next","    /* Perform tree update */\n    archive->is_up_to_date = 0;\n    while (next")],0),
("ok_for",[(A,"    while (next_node != NULL) {","    for (; next_node != NULL;) {")],0),
("ok_dominates",[(A,"int coco_archive_add_solution(","""static int item_dominance(const coco_archive_avl_item_t *a, const avl_node_t *b, size_t n) {
  return mo_get_dominance(a->normalized_y, ((coco_archive_avl_item_t *)b->item)->normalized_y, n);
}
int coco_archive_add_solution("""),(A,"      dominance = mo_get_dominance(insert_item->normalized_y, ((coco_archive_avl_item_t *)node->item)->normalized_y,\n                                   archive->number_of_objectives);","      dominance = item_dominance(insert_item, node, archive->number_of_objectives);"),(A,"    dominance = mo_get_dominance(insert_item->normalized_y, ((coco_archive_avl_item_t *)node->item)->normalized_y,\n                                 archive->number_of_objectives);","    dominance = item_dominance(insert_item, node, archive->number_of_objectives);")],0),
("ok_domret",[(U,"  if (flag1 && !flag2) {\n    return 1;\n  } else if (!flag1 && flag2) {\n    return -1;\n  } else if (flag1 && flag2) {\n    return 0;\n  } else { /* (!flag1 && !flag2) */\n    return -2;\n  }","  if (flag1)\n    return flag2 ? 0 : 1;\n  return flag2 ? -1 : -2;")],0),
("ok_hyphelper",[(A,"/**\n * @brief Updates the archive fields returned by the getters.","""static void reset_iteration(coco_archive_t *archive) {
  archive->current_solution = NULL;
  archive->extremes_already_returned = 0;
}
/**
 * @brief Updates the archive fields returned by the getters."""),(A,"    archive->current_solution = NULL;\n    archive->extremes_already_returned = 0;\n  }\n}","    reset_iteration(archive);\n  }\n}")],0),
("ok_updearly",[(A,"  if (!archive->is_up_to_date) {\n","  if (archive->is_up_to_date)\n    return;\n  {\n")],0),
("ok_delta",[(B,"              logger->indicators[i]->current_value -= next_item->indicator_contribution[i];\n              if (strcmp","              double before = next_item->indicator_contribution[i];\n              if (strcmp"),(B,"              logger->indicators[i]->current_value += next_item->indicator_contribution[i];\n","              logger->indicators[i]->current_value += next_item->indicator_contribution[i] - before;\n")],0),
("ok_while",[(B,"""    while (next_node != NULL) {
      /* Check""","""    for (;;) {
      if (next_node == NULL)
        break;
      /* Check""")],0),
("ok_addfirst",[(B,"""        avl_item_delete(logger->buffer_tree, node->item);
        avl_node_delete(logger->archive_tree, node);
      } else {
        break;
      }""","""        avl_item_delete(logger->buffer_tree, node->item);
        avl_node_delete(logger->archive_tree, node);
        continue;
      }
      break;""")],0),
]]
V="src/mo_avl_tree.c"
M+=[("C26",n,e,None,None,x) for n,e,x in [
("v_tail",[(V,"  if (avlnode->next)\n    avlnode->next->prev = avlnode->prev;\n  else\n    avltree->tail = avlnode->prev;","  if (avlnode->next)\n    avlnode->next->prev = avlnode->prev;")],1),
("v_head",[(V,"    node->prev->next = newnode;\n  else\n    avltree->head = newnode;","    node->prev->next = newnode;\n  else if (!avltree->head)\n    avltree->head = newnode;")],1),
("v_back",[(V,"  if (node->next)\n    node->next->prev = newnode;","  if (node->next)\n    node->next->prev = node;")],1),
("v_order",[(V,"  newnode->next = node->next;\n  if (node->next)\n    node->next->prev = newnode;\n  else\n    avltree->tail = newnode;\n  node->next = newnode;","  node->next = newnode;\n  newnode->next = node->next;\n  if (node->next)\n    node->next->prev = newnode;\n  else\n    avltree->tail = newnode;")],1),
("v_unlink",[(V,"    avlnode->next->prev = avlnode->prev;","    avlnode->next->prev = avlnode->parent;")],1),
("ok_vtemp",[(V,"  newnode->next = node->next;\n  if (node->next)\n    node->next->prev = newnode;","  avl_node_t *const after = node->next;\n  newnode->next = after;\n  if (after)\n    after->prev = newnode;")],0),
("ok_vorder",[(V,"  if (node->prev)\n    node->prev->next = newnode;\n  else\n    avltree->head = newnode;\n  node->prev = newnode;","  if (newnode->prev)\n    newnode->prev->next = newnode;\n  else\n    avltree->head = newnode;\n  node->prev = newnode;")],0),
("ok_vhelper",[(V,"static avl_node_t *avl_node_unlink(avl_tree_t *avltree, avl_node_t *avlnode) {","""static void avl_list_remove(avl_tree_t *avltree, avl_node_t *avlnode) {
  avl_node_t *before = avlnode->prev, *after = avlnode->next;
  if (before == NULL)
    avltree->head = after;
  else
    before->next = after;
  if (after == NULL)
    avltree->tail = before;
  else
    after->prev = before;
}
static avl_node_t *avl_node_unlink(avl_tree_t *avltree, avl_node_t *avlnode) {"""),(V,"""  if (avlnode->prev)
    avlnode->prev->next = avlnode->next;
  else
    avltree->head = avlnode->next;

  if (avlnode->next)
    avlnode->next->prev = avlnode->prev;
  else
    avltree->tail = avlnode->prev;
""","  avl_list_remove(avltree, avlnode);\n")],0),
]]
