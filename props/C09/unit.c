#include "vf_proof.h"
/* One arbitrary key vf_k (with string vf_s in string mode) is followed through the map. vf_p is the slot that holds it, or
 * vf_n when it is absent; vf_h is the slot its hash selects; vf_u is some unused slot (the load factor keeps one);
 * vf_q is an arbitrary slot. Facts about all slots are used at the slots the code visits (LAZY). */
size_t vf_k, vf_p, vf_h, vf_u, vf_q, vf_n, vf_i; int vf_mode; unsigned char *vf_s;
struct hash_map_t; struct hash_map_element_t; extern struct hash_map_t *vf_m; extern struct hash_map_element_t *vf_old; unsigned char vf_qu;
#define DIST(i) ((i) >= vf_h ? (i) - vf_h : (i) + vf_n - vf_h)
#define EL(i) (hash_map->elements_buffer[i])
/* structure of a slot; the key is in slot vf_p only; the slots from its hash slot up to vf_p are used */
#define LAZY(i) { struct hash_map_element_t vf_e = EL(i); VF_ASSUME(vf_e.used <= 1 && (vf_e.used == 0 ==> (vf_e.value == NULL && vf_e.key_string == NULL)) && (vf_e.used == 1 ==> (vf_e.key_string != NULL) == (vf_mode == 1)) \
  && ((vf_mode == 0 && vf_e.used == 1 && vf_e.key == vf_k) ==> (i) == vf_p) && ((vf_p < vf_n && DIST(i) < DIST(vf_p)) ==> vf_e.used == 1) && ((i) == vf_p ==> (vf_e.used == 1 && vf_e.key == vf_k)) && ((i) == vf_u ==> vf_e.used == 0)); }
#define VF_GHOST_hash_index VF_ENSURES(index < hash_map->elements_buffer_size, "the hash selects a slot"); VF_ASSUME(index == vf_h);
#define VF_GHOST_hash_probe vf_i = index; LAZY(index) VF_ASSUME(index == vf_q ==> vf_qu == EL(index).used);
#define VF_LOOP_hash_probe ASSIGNS(index, element, vf_i) INV(index < vf_n && vf_n == hash_map->elements_buffer_size) INV(vf_p < vf_n ==> DIST(index) <= DIST(vf_p)) INV(DIST(index) <= DIST(vf_u)) \
  INV((vf_q < vf_n && DIST(vf_q) < DIST(index)) ==> vf_qu == 1) DECR(vf_n - DIST(index))
/* resize: vf_new counts how often the key reached the new buffer */
size_t vf_new, vf_newv; void *vf_v; struct hash_map_element_t *vf_old; size_t vf_oldn;
#define VF_GHOST_hash_resize VF_ASSUME(elements_buffer[index].used <= 1 && (index == vf_p ==> elements_buffer[index].used == 1)); vf_i = index;
#define VF_LOOP_hash_resize ASSIGNS(index, element, vf_i, vf_new, vf_newv, hash_map->size) INV(index <= elements_buffer_size && hash_map->size <= index) INV(vf_new == (vf_p < index ? 1 : 0)) INV(vf_newv == vf_new) DECR(elements_buffer_size - index)
/* iterators */
#define VF_LOOP_hash_next ASSIGNS(current_index, element, next) INV(current_index >= __CPROVER_loop_entry(current_index) && (current_index <= vf_n || current_index == __CPROVER_loop_entry(current_index))) \
  INV((vf_q >= __CPROVER_loop_entry(current_index) && vf_q < current_index) ==> EL(vf_q).used != 1) DECR(current_index <= vf_n ? vf_n - current_index : 0)
/* delete: every key string is released once */
size_t vf_freed;
#define VF_GHOST_hash_delete { struct hash_map_element_t vf_e = EL(index); VF_ASSUME((index == vf_p ==> (vf_e.used == 1 && vf_e.key_string != NULL)) && vf_e.key_string != (unsigned char *) vf_m && vf_e.key_string != (unsigned char *) vf_old); } vf_i = index;
#define VF_LOOP_hash_delete ASSIGNS(index, element, vf_i, vf_freed) INV(index <= vf_n) INV(vf_freed == (vf_p < index ? 1 : 0)) DECR(vf_n - index)
/* string hash */
#define VF_LOOP_hash_string ASSIGNS(index, key, current) INV(index <= vf_n && index > 0) DECR(vf_n - index)
#include "vf_defaults.h"
#include "structures/hash_map.c"
struct hash_map_t *vf_m; unsigned char *vf_ks; int vf_size_err, vf_copied, vf_resized; size_t vf_len; void *vf_val; unsigned char *vf_fresh, *vf_p_str;
static struct hash_map_t *a_map(void) {
  struct hash_map_t *hash_map = __CPROVER_allocate(sizeof(struct hash_map_t), 0); vf_m = hash_map; vf_n = nondet_size(); VF_REQUIRES(vf_n > 0 && vf_n < (VF_MAX >> 7));
  hash_map->elements_buffer_size = vf_n; hash_map->element_size = sizeof(struct hash_map_element_t); hash_map->elements_buffer = __CPROVER_allocate(sizeof(struct hash_map_element_t) * vf_n, 0);
  hash_map->maximum_size = nondet_size(); hash_map->size = nondet_size(); VF_REQUIRES(hash_map->maximum_size < vf_n && hash_map->size <= hash_map->maximum_size); return hash_map;
}
static void a_key(void) { struct hash_map_t *hash_map = vf_m;
  
#ifdef VF_M
  vf_mode = VF_M;
#else
  vf_mode = nondet_u8() & 1;
#endif
  vf_k = nondet_size(); vf_p = nondet_size(); vf_u = nondet_size(); vf_h = nondet_size(); vf_q = nondet_size(); VF_REQUIRES(vf_p <= vf_n && vf_u < vf_n && vf_h < vf_n && vf_q < vf_n); vf_s = vf_mode ? __CPROVER_allocate(1, 0) : NULL;
  LAZY(vf_u) LAZY(vf_q) vf_qu = EL(vf_q).used; if(vf_p < vf_n) { LAZY(vf_p) VF_REQUIRES(DIST(vf_p) < DIST(vf_u) || vf_p == vf_u || 1); }
}
/* strings are compared by content: equal to the key string in slot vf_p only (same hash assumed by the caller) */
int c_strcmp(const char *a, const char *b) { VF_ENSURES(vf_mode == 1 && b == (char *) vf_s && a == (char *) vf_m->elements_buffer[vf_i].key_string && a != NULL, "the string of the visited slot is compared to the key"); return vf_i == vf_p ? 0 : nondet_u8() + 1; }
void u_get(void) {
  struct hash_map_t *hash_map = a_map(); a_key(); struct hash_map_element_t *e = NULL; size_t size = hash_map->size;
  get_hash_map(hash_map, vf_k, vf_s, &e);
  struct hash_map_element_t r = *e; VF_ENSURES(SAME(e, hash_map->elements_buffer), "an element of the map");
  if(vf_p < vf_n) { VF_ENSURES(e == &EL(vf_p), "a key that was set is found"); VF_REACH("found"); } else { VF_ENSURES(r.used == 0 && r.value == NULL, "a key that was never set has no value"); VF_REACH("missing"); }
  VF_ENSURES(hash_map->size == size, "frame");
}
void *c_malloc(size_t n) { VF_ENSURES(vf_mode == 1 && n == vf_len + 1, "space for a copy of the key string"); vf_fresh = __CPROVER_allocate(1, 0); return vf_fresh; }
void c_free(void *p) { VF_ENSURES(vf_mode == 1 && p == vf_p_str && vf_i == vf_p, "only the replaced key string is released"); vf_freed++; }
size_t c_strlen(const char *s) { VF_ENSURES(s == (char *) vf_s && s != NULL, "length of the key"); return vf_len; }
void *c_memcpy(void *d, const void *s, size_t n) { VF_ENSURES(d == vf_fresh && s == vf_s && n == vf_len + 1, "the complete key string is copied"); vf_copied = 1; return d; }
/* contract of _resize_hash_map (u_resize): the same keys in a new, larger buffer with room; until then the buffer is out of reach */
struct hash_map_element_t *vf_buf; int vf_full;
void c_resize(struct hash_map_t *hash_map) {
  VF_ENSURES(vf_full && hash_map == vf_m && !vf_resized, "one resize of a full map"); vf_resized = 1;
  hash_map->elements_buffer = vf_buf; hash_map->elements_buffer_size = vf_n; hash_map->size = nondet_size(); hash_map->maximum_size = nondet_size(); VF_ASSUME(hash_map->maximum_size > hash_map->size && hash_map->maximum_size < vf_n);
}
struct hash_map_element_t vf_eq;
void u_set(void) {
  vf_freed = 0; vf_copied = 0; vf_resized = 0; vf_len = nondet_size(); VF_REQUIRES(vf_len < VF_MAX);
  struct hash_map_t *hash_map = a_map(); a_key(); int present = vf_p < vf_n; vf_p_str = present ? EL(vf_p).key_string : NULL; char copy = nondet_u8() & 1; void *v = nondet_ptr();
  size_t size0 = hash_map->size; vf_buf = hash_map->elements_buffer; vf_eq = EL(vf_q);
#ifdef VF_FULL
  vf_full = 1; hash_map->elements_buffer = NULL; hash_map->elements_buffer_size = nondet_size(); VF_REQUIRES(hash_map->size >= hash_map->maximum_size);
#else
  vf_full = 0; VF_REQUIRES(hash_map->size < hash_map->maximum_size);
#endif
  _set_value_hash_map(hash_map, vf_k, vf_s, v, copy);
  size_t p = vf_i; VF_ENSURES(p < vf_n && hash_map->elements_buffer == vf_buf && hash_map->elements_buffer_size == vf_n && vf_resized == vf_full, "a slot of the map");
  struct hash_map_element_t r = vf_buf[p]; VF_ENSURES(r.used == 1 && r.key == vf_k && r.value == v, "the key has the new value");
  VF_ENSURES(present ==> p == vf_p, "a key that was set before keeps its slot"); VF_ENSURES(present || (p != vf_q || vf_eq.used == 0), "a new key takes an unused slot"); VF_ENSURES(vf_q != p && DIST(vf_q) < DIST(p) ==> vf_eq.used == 1, "the new key is reached from its hash slot");
  VF_ENSURES(!present && vf_mode == 1 && copy ==> (r.key_string == vf_fresh && vf_copied), "the map keeps its own copy of the key"); VF_ENSURES(!present && !(vf_mode == 1 && copy) ==> r.key_string == vf_s, "key string kept as given"); VF_ENSURES(present ==> r.key_string == vf_p_str, "a key that was set before keeps its string, which may be referenced");
  VF_ENSURES(vf_full || hash_map->size == size0 + !present, "the size counts the keys"); VF_ENSURES(hash_map->size <= hash_map->maximum_size && hash_map->maximum_size < vf_n, "an unused slot remains"); VF_ENSURES(vf_freed == 0, "no key string is released");
#ifndef VF_FULL
  if(vf_q != p) { struct hash_map_element_t z = vf_buf[vf_q]; VF_ENSURES(z.used == vf_eq.used && z.key == vf_eq.key && z.value == vf_eq.value && z.key_string == vf_eq.key_string, "the other keys are untouched"); }
#endif
  if(present) VF_REACH("replaced"); else VF_REACH("added");
}
/* ---- _resize_hash_map ---- */
struct hash_map_element_t *vf_nb; int vf_zeroed, vf_bfreed;
void *c_rmalloc(size_t n) { VF_ENSURES(n == sizeof(struct hash_map_element_t) * (vf_n * 4), "new buffer"); vf_nb = __CPROVER_allocate(1, 0); return vf_nb; }
void *c_rmemset(void *d, int c, size_t n) { VF_ENSURES(d == vf_nb && c == 0 && n == sizeof(struct hash_map_element_t) * (vf_n * 4), "the new buffer is emptied"); vf_zeroed = 1; return d; }
void c_rfree(void *p) { VF_ENSURES(p == vf_old && p != vf_nb && !vf_bfreed, "the old buffer is released"); vf_bfreed = 1; }
void c_rset(struct hash_map_t *m, size_t key, unsigned char *s, void *v, char copy) {
  VF_ENSURES(m == vf_m && m->elements_buffer == vf_nb && vf_zeroed && copy == 0, "moved to the new buffer"); VF_ENSURES(m->size < m->maximum_size, "room in the new buffer");
  VF_ENSURES(key == vf_old[vf_i].key && s == vf_old[vf_i].key_string && v == vf_old[vf_i].value && vf_old[vf_i].used == 1, "the element is moved unchanged");
  if(vf_i == vf_p) { vf_new++; vf_newv++; } m->size++;
}
void u_resize(void) {
  vf_new = 0; vf_newv = 0; vf_zeroed = 0; vf_bfreed = 0; struct hash_map_t *m = a_map(); vf_old = m->elements_buffer; vf_p = nondet_size(); VF_REQUIRES(vf_p <= vf_n);
  _resize_hash_map(m);
  VF_ENSURES(vf_new == (vf_p < vf_n), "every element is moved exactly once"); VF_ENSURES(m->elements_buffer == vf_nb && m->elements_buffer_size == 4 * vf_n && vf_bfreed, "larger buffer in use");
  VF_ENSURES(m->size < m->maximum_size && m->maximum_size < m->elements_buffer_size, "an unused slot remains"); VF_REACH("resized");
}
/* ---- create ---- */
void *c_cmalloc(size_t n) { if(n == sizeof(struct hash_map_t)) { vf_m = __CPROVER_allocate(sizeof(struct hash_map_t), 0); return vf_m; } vf_nb = __CPROVER_allocate(1, 0); vf_oldn = n; return vf_nb; }
void *c_cmemset(void *d, int c, size_t n) { VF_ENSURES(d == vf_nb && c == 0 && n == vf_oldn, "the buffer is emptied"); vf_zeroed = 1; return d; }
void u_create(void) {
  size_t n = nondet_size(); VF_REQUIRES(n < (VF_MAX >> 7)); struct hash_map_t *m = NULL; vf_zeroed = 0; create_hash_map(&m, n);
  VF_ENSURES(m == vf_m && m->size == 0 && m->elements_buffer == vf_nb && vf_zeroed && m->elements_buffer_size == (n ? n : DEFAULT_HASH_MAP_SIZE) && vf_oldn == sizeof(struct hash_map_element_t) * m->elements_buffer_size, "empty map"); VF_ENSURES(m->maximum_size < m->elements_buffer_size, "an unused slot remains"); VF_REACH("created");
}
/* ---- iteration ---- */
void u_next(void) {
  struct hash_map_t *hash_map = a_map(); struct iterator_t it; size_t from = nondet_size(); VF_REQUIRES(from <= vf_n); it.structure = hash_map; it.parameters = (void *) from; vf_q = nondet_size(); VF_REQUIRES(vf_q < vf_n);
  void *x = (void *) 1; int elements = nondet_u8() & 1; if(elements) get_next_element_iterator_hash_map(&it, &x); else get_next_iterator_hash_map(&it, &x); size_t to = (size_t) it.parameters;
  if(x) { VF_ENSURES(to > from && to <= vf_n && EL(to - 1).used == 1 && (elements ? x == (void *) &EL(to - 1) : x == (void *) &EL(to - 1).key), "the next used slot"); VF_ENSURES(vf_q >= from && vf_q + 1 < to ==> EL(vf_q).used != 1, "no used slot is skipped"); VF_REACH("next"); }
  else { VF_ENSURES(vf_q >= from ==> EL(vf_q).used != 1, "the iteration ends after the last used slot"); VF_REACH("end"); }
}
void c_dfree(void *p) { if(p == vf_m) { vf_m = NULL; return; } if(p == vf_old) { vf_bfreed++; return; } VF_ENSURES(vf_m && !vf_bfreed && p == vf_m->elements_buffer[vf_i].key_string && p != NULL, "the key strings are released"); if(vf_i == vf_p) vf_freed++; }
void u_delete(void) {
  struct hash_map_t *m = a_map(); vf_old = m->elements_buffer; vf_p = nondet_size(); vf_freed = 0; vf_bfreed = 0; VF_REQUIRES(vf_p <= vf_n);
  delete_hash_map(m); VF_ENSURES(vf_freed == (vf_p < vf_n) && vf_bfreed == 1 && vf_m == NULL, "the map, its buffer and every key string are released once"); VF_REACH("deleted");
}
/* ---- string keys ---- */
void u_string(void) {
  vf_n = nondet_size(); VF_REQUIRES(vf_n < 0xfffffff0u); unsigned char *s = malloc(vf_n + 1); VF_REQUIRES(s[vf_n] == 0);
  size_t k = _calculate_string_hash_map(s); VF_ENSURES(k != (size_t) -1, "never the reserved value"); VF_REACH("hash");
}
size_t c_hash(unsigned char *s) { VF_ENSURES(s == vf_ks, "hash of the key string"); return vf_k; }
int vf_calls; struct hash_map_element_t vf_el;
void c_wset(struct hash_map_t *m, size_t k, unsigned char *s, void *v, char copy) { VF_ENSURES(m == vf_m && k == vf_k && s == vf_ks && v == vf_v && copy == 1, "set with the hash and the string"); vf_calls++; }
void c_wget(struct hash_map_t *m, size_t k, unsigned char *s, struct hash_map_element_t **e) { VF_ENSURES(m == vf_m && k == vf_k && s == vf_ks, "get with the hash and the string"); vf_calls++; *e = &vf_el; }
void u_wrap(void) {
  vf_m = malloc(sizeof *vf_m); vf_ks = malloc(1); vf_k = nondet_size(); vf_v = nondet_ptr(); void *v = NULL; vf_el.value = vf_v; vf_calls = 0;
  set_value_string_hash_map(vf_m, vf_ks, vf_v); get_value_string_hash_map(vf_m, vf_ks, &v); VF_ENSURES(vf_calls == 2 && v == vf_v, "string keys are set and read by hash and content"); VF_REACH("wrapped");
}
