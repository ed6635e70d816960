#include "vf_proof.h"
/* Contract of delete_configuration: every value of the map is released once (a section by the function itself, one level
 * down, taken by its contract), then the iterator and the map. vf_left bounds the entries to come, vf_owed is the value of the
 * entry at hand. */
size_t vf_left; int vf_owed, vf_top, vf_it, vf_map_, vf_end; void *vf_opt, *vf_e; struct sort_map_t *vf_m; struct iterator_t *vf_i;
#define VF_LOOP_configuration_delete ASSIGNS(element, option, vf_left, vf_owed, vf_opt, vf_e, vf_end) INV(!vf_owed && !vf_end && vf_it == 1 && !vf_map_) DECR(vf_left)
#define VF_GHOST_configuration_delete
#include "vf_defaults.h"
#include "stdafx.h"
#include "system/service.c"
void c_iter(struct sort_map_t *m, struct iterator_t **i) { VF_ENSURES(m == vf_m && !vf_it, "one iterator over the map"); vf_it = 1; *i = vf_i; }
void c_next(struct iterator_t *i, void **v) { VF_ENSURES(i == vf_i && vf_it == 1 && !vf_owed && !vf_end, "the entry before was released"); if(vf_left == 0) { vf_end = 1; *v = NULL; return; } vf_left--; vf_owed = 1; struct hash_map_element_t *e = malloc(sizeof(*e)); vf_e = e; vf_opt = nondet_u8() & 1 ? malloc(1) : NULL; e->value = vf_opt; *v = e; }
void c_get(struct sort_map_t *m, size_t k, unsigned char *s, void **v) { struct hash_map_element_t *e = vf_e; VF_ENSURES(m == vf_m && vf_owed && k == e->key && s == e->key_string, "the entry at hand"); *v = vf_opt; }
void c_self(struct sort_map_t *m, int top) { VF_ENSURES(vf_top && vf_owed && (void *) m == vf_opt && top == 0, "a section of the configuration, once"); vf_owed = 0; }
void c_free(void *p) { VF_ENSURES(!vf_top && vf_owed && p == vf_opt, "the value at hand, once"); vf_owed = 0; }
void c_diter(struct sort_map_t *m, struct iterator_t *i) { VF_ENSURES(m == vf_m && i == vf_i && vf_it == 1 && vf_end && !vf_map_, "the iterator once, at the end"); vf_it = 2; }
void c_dmap(struct sort_map_t *m) { VF_ENSURES(m == vf_m && vf_it == 2 && !vf_map_, "the map at last"); vf_map_ = 1; }
