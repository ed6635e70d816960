#include "vf_proof.h"
/* Contracts of the sort map, over those of the hash map (C09) and the linked list (C12): the two lists hold every key once,
 * in the order they were first set. */
struct hash_map_t; struct linked_list_t; struct sort_map_t; struct hash_map_element_t; struct hash_map_t *vf_hm; struct linked_list_t *vf_kl, *vf_sl; struct hash_map_element_t *vf_el; struct sort_map_t *vf_m; size_t vf_key, vf_size, vf_at; unsigned char *vf_s; void *vf_v; int vf_new, vf_set, vf_a, vf_b, vf_step, vf_d; void *vf_it;
#include "vf_defaults.h"
#include "stdafx.h"
#include "structures/sort_map.c"
static void map(void) { vf_m = malloc(sizeof(*vf_m)); vf_hm = malloc(sizeof(*vf_hm)); vf_kl = malloc(sizeof(*vf_kl)); vf_sl = malloc(sizeof(*vf_sl)); vf_el = malloc(sizeof(*vf_el)); vf_m->hash_map = vf_hm; vf_m->key_list = vf_kl; vf_m->key_string_list = vf_sl; vf_key = nondet_size(); vf_s = nondet_ptr(); vf_v = nondet_ptr(); vf_new = nondet_u8() & 1; vf_set = vf_a = vf_b = vf_d = 0; VF_ASSUME(vf_sl->size == vf_kl->size); vf_size = vf_kl->size; }
#define FRAME VF_ENSURES(vf_m->hash_map == vf_hm && vf_m->key_list == vf_kl && vf_m->key_string_list == vf_sl, "the map keeps its parts");
void c_hset(struct hash_map_t *h, size_t k, unsigned char *s, void *v) { VF_ENSURES(h == vf_hm && k == vf_key && s == vf_s && v == vf_v && !vf_set, "set in the hash map"); vf_set = 1; h->size += vf_new; }
void c_hget(struct hash_map_t *h, size_t k, unsigned char *s, struct hash_map_element_t **e) { VF_ENSURES(h == vf_hm && k == vf_key && s == vf_s, "found in the hash map"); *e = vf_el; }
void c_hvalue(struct hash_map_t *h, size_t k, unsigned char *s, void **v) { VF_ENSURES(h == vf_hm && k == vf_key && s == vf_s, "found in the hash map"); *v = vf_v; }
void c_hsvalue(struct hash_map_t *h, unsigned char *s, void **v) { VF_ENSURES(h == vf_hm && s == vf_s, "found in the hash map"); *v = vf_v; }
size_t c_hash(unsigned char *s) { VF_ENSURES(s == vf_s, "the hash of the key"); return vf_key; }
void c_append(struct linked_list_t *l, void *v) { VF_ENSURES(vf_set && vf_new, "only new keys are added"); if(l == vf_kl) { VF_ENSURES(v == (void *) vf_key && !vf_a, "the key once"); vf_a = 1; } else { VF_ENSURES(l == vf_sl && v == vf_el->key_string && !vf_b, "the string of the key once"); vf_b = 1; } }
void u_set(void) { map(); if(nondet_u8() & 1) set_value_sort_map(vf_m, vf_key, vf_s, vf_v); else set_value_string_sort_map(vf_m, vf_s, vf_v); FRAME VF_ENSURES(vf_set && vf_a == vf_new && vf_b == vf_new, "a new key goes to the end, a key set again keeps its place"); if(vf_new) VF_REACH("new"); else VF_REACH("again"); }
void u_get(void) { map(); void *r; if(nondet_u8() & 1) get_value_sort_map(vf_m, vf_key, vf_s, &r); else get_value_string_sort_map(vf_m, vf_s, &r); FRAME VF_ENSURES(r == vf_v, "the value of the key"); VF_REACH("get"); }
void c_at(struct linked_list_t *l, size_t i, void **v) { VF_ENSURES((l == vf_kl || l == vf_sl) && i == vf_at && i < vf_size, "the keys in their order"); *v = l == vf_kl ? (void *) vf_key : (void *) vf_s; }
void u_next(void) {
  map(); struct iterator_t *it = malloc(sizeof(*it)); vf_at = nondet_size(); VF_ASSUME(vf_at <= vf_size); it->structure = vf_m; it->parameters = (void *) vf_at; void *r; int e = nondet_u8() & 1; if(e) get_next_element_iterator_sort_map(it, &r); else get_next_iterator_sort_map(it, &r); FRAME
  VF_ENSURES(it->structure == vf_m && it->parameters == (void *) (vf_at + (vf_at < vf_size)), "one key at a time"); VF_ENSURES(r == (vf_at >= vf_size ? NULL : e ? (void *) vf_el : (void *) &vf_el->key), "the key at the place, nothing at the end"); if(r == NULL) VF_REACH("end"); else VF_REACH("next");
}
void c_iter(struct iterator_t **p) { struct iterator_t *i = malloc(sizeof(*i)); vf_it = i; *p = i; }
void c_diter(struct iterator_t *p) { VF_ENSURES(p == vf_it && !vf_d, "the iterator is released"); vf_d = 1; }
void u_iter(void) {
  map(); struct iterator_t *i; int e = nondet_u8() & 1; if(e) create_element_iterator_sort_map(vf_m, &i); else create_iterator_sort_map(vf_m, &i); VF_ENSURES(i == vf_it && i->structure == vf_m && i->parameters == 0 && i->get_next_function == (e ? get_next_element_iterator_sort_map : get_next_iterator_sort_map), "an iterator at the first key"); i->parameters = nondet_ptr(); reset_iterator_sort_map(vf_m, i); VF_ENSURES(i->parameters == 0 && i->structure == vf_m, "at the first key again"); delete_iterator_sort_map(vf_m, i); VF_ENSURES(vf_d == 1, "released"); FRAME VF_REACH("iterator");
}
void c_hcreate(struct hash_map_t **h, size_t n) { VF_ENSURES(n == vf_size && !vf_set, "a hash map"); vf_set = 1; *h = vf_hm; }
void c_lcreate(struct linked_list_t **l) { VF_ENSURES(vf_a < 2, "two lists"); *l = vf_a ? vf_sl : vf_kl; vf_a++; }
void u_create(void) { map(); struct sort_map_t *m; create_sort_map(&m, vf_size); VF_ENSURES(m->hash_map == vf_hm && vf_set && vf_a == 2 && ((m->key_list == vf_kl && m->key_string_list == vf_sl) || (m->key_list == vf_sl && m->key_string_list == vf_kl)), "an empty map of its own parts"); VF_REACH("create"); }
void c_hdelete(struct hash_map_t *h) { VF_ENSURES(h == vf_hm && !vf_set, "the hash map once"); vf_set = 1; }
void c_ldelete(struct linked_list_t *l) { if(l == vf_kl) { VF_ENSURES(!vf_a, "each list once"); vf_a = 1; } else { VF_ENSURES(l == vf_sl && !vf_b, "each list once"); vf_b = 1; } }
void c_mfree(void *p) { VF_ENSURES(p == vf_m && vf_set && vf_a && vf_b && !vf_d, "the map itself last"); vf_d = 1; }
void u_delete(void) { map(); delete_sort_map(vf_m); VF_ENSURES(vf_d, "released"); VF_REACH("delete"); }
