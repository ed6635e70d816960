#include "vf_proof.h"
/* witness line of the file: user is [vf_s, vf_c1), password [vf_c1 + 1, vf_c2) */
size_t vf_n, vf_s, vf_c1, vf_c2, vf_w, vf_i, vf_mi; int vf_hit, vf_which; unsigned char *vf_b; char *vf_ub, *vf_pb; unsigned char vf_uw;
#define SPECIAL(p) (buffer[p] == ':' || buffer[p] == '\n')
#ifdef U_LINE
#define LINE_ASSUME VF_ASSUME((index >= vf_s && index < vf_c1) || (index > vf_c1 && index < vf_c2) ==> !SPECIAL(index));
#define LINE_INV \
  INV((index == 0 || buffer[index - 1] == '\n') ==> (state == PASSWD_USER && mark == buffer + index)) \
  INV((index >= vf_s && index <= vf_c1) ==> (state == PASSWD_USER && mark == buffer + vf_s)) \
  INV((index > vf_c1 && index <= vf_c2) ==> (state == PASSWD_PASSWORD && mark == buffer + vf_c1 + 1 && username[vf_c1 - vf_s] == 0 && (vf_w < vf_c1 - vf_s ==> (unsigned char) username[vf_w] == buffer[vf_s + vf_w]))) \
  INV(vf_hit == (index > vf_c2))
#else
#define LINE_ASSUME
#define LINE_INV
#endif
#define VF_GHOST_passwd vf_i = index; vf_which = state; LINE_ASSUME
#define VF_LOOP_passwd \
  ASSIGNS(index, length, current, pointer, mark, state, username, password, vf_i, vf_which, vf_hit, vf_mi, __CPROVER_object_whole(vf_ub), __CPROVER_object_whole(vf_pb)) \
  INV(index <= size && (index > 0 ==> vf_i == index - 1) && (index == 0 ==> vf_i == (size_t) -1)) \
  INV(SAME(mark, buffer) && OFFS(mark) <= index) \
  INV(state == PASSWD_USER || state == PASSWD_PASSWORD || state == PASSWD_COMMENT) \
  INV(username == NULL || username == vf_ub) INV(state == PASSWD_PASSWORD ==> username == vf_ub) \
  INV(vf_mi == (size_t) -1 || vf_mi < index) INV((index > 0 && vf_which == PASSWD_USER && state == PASSWD_PASSWORD) ==> vf_mi == vf_i) \
  LINE_INV DECR(size - index)
#include "vf_defaults.h"
#include "formats/passwd.c"
unsigned char *last_error_message; unsigned char last_error_message_b[ERROR_BUFFER_SIZE]; unsigned int last_error_code;
void c_error(unsigned char *m) { } void c_error_f(unsigned char *m, ...) { }
struct hash_map_t *vf_map; int vf_maps; ERROR_CODE vf_rr; int vf_bfree;
void c_create(struct hash_map_t **m, size_t n) { vf_map = __CPROVER_allocate(sizeof *vf_map, 0); *m = vf_map; vf_maps = 1; }
void c_delete(struct hash_map_t *m) { VF_ENSURES(m == vf_map && vf_maps == 1, "map released"); vf_maps = 0; }
ERROR_CODE c_read(char *p, unsigned char **b, size_t *n) { if(vf_rr) return 1; *b = vf_b; *n = vf_n; return 0; }
/* allocations: the username in its own ghost buffer, passwords in another (a new one each time, the function never looks at an earlier one) */
void *c_malloc(size_t n) { VF_ENSURES(n <= vf_n + 1, "allocation for a part of the file"); if(vf_which == PASSWD_USER && vf_mi != vf_i) { vf_mi = vf_i; return vf_ub; } return vf_pb; }
void c_free(void *p) { VF_ENSURES(p == NULL || p == vf_ub || (SAME(p, vf_b) && OFFS(p) == 0 && !vf_bfree), "only the file and the username are released"); if(p != NULL && SAME(p, vf_b)) vf_bfree = 1; }
void *c_memcpy(void *d, const void *s, size_t n) {
  VF_ENSURES(n <= vf_n && (n == 0 || (__CPROVER_r_ok(s, n) && __CPROVER_w_ok(d, n))), "memcpy stays inside both buffers"); unsigned char x = 0;
  if(n > 0) { if(vf_w < n) x = ((const unsigned char *) s)[vf_w]; __CPROVER_havoc_object(d); if(vf_w < n) VF_ASSUME(((unsigned char *) d)[vf_w] == x); } return d;
}
void c_set(struct hash_map_t *m, unsigned char *k, void *v) {
  VF_ENSURES(m == vf_map && (char *) k == vf_ub && v == vf_pb, "user and password are strings of their own");
#ifdef U_LINE
  if(vf_i >= vf_c1 && vf_i < vf_n && !vf_hit) { size_t ul = vf_c1 - vf_s, pl = vf_c2 - vf_c1 - 1; unsigned char *p = v;
    VF_ENSURES(k[ul] == 0 && (vf_w < ul ==> k[vf_w] == vf_b[vf_s + vf_w]), "the user of the line"); VF_ENSURES(p[pl] == 0 && (vf_w < pl ==> p[vf_w] == vf_b[vf_c1 + 1 + vf_w]), "the password of the line"); vf_hit = 1; }
#endif
}
void u_passwd(void) {
  vf_hit = 0; vf_bfree = 0; vf_maps = 0;
  vf_n = nondet_size(); VF_REQUIRES(vf_n < VF_MAX); vf_b = __CPROVER_allocate(vf_n, 0); vf_ub = __CPROVER_allocate(vf_n + 1, 0); vf_pb = __CPROVER_allocate(vf_n + 1, 0); vf_mi = (size_t) -1; vf_w = nondet_size(); VF_REQUIRES(vf_w < VF_MAX); vf_i = (size_t) -1; vf_which = PASSWD_USER; vf_rr = nondet_u8() & 1;
#ifdef U_LINE
  vf_s = nondet_size(); vf_c1 = nondet_size(); vf_c2 = nondet_size(); VF_REQUIRES(vf_s <= vf_c1 && vf_c1 < vf_c2 && vf_c2 <= vf_n); VF_REQUIRES(vf_s == 0 || vf_b[vf_s - 1] == '\n'); VF_REQUIRES(vf_b[vf_c1] == ':'); VF_REQUIRES(vf_c2 < vf_n ==> (vf_b[vf_c2] == ':' || vf_b[vf_c2] == '\n'));
#endif
  char *path = __CPROVER_allocate(1, 0); struct hash_map_t *m = NULL;
  ERROR_CODE r = process_passwd_file(path, &m);
  VF_ENSURES((r == 0) == !vf_rr, "fails only when the file cannot be read"); VF_ENSURES(r == 0 ? m == vf_map && vf_maps == 1 && vf_bfree : m == NULL && vf_maps == 0, "the map is returned or released");
#ifdef U_LINE
  VF_ENSURES(r == 0 ==> vf_hit, "every complete line of the file is in the map");
#endif
  if(r == 0) VF_REACH("parsed"); else VF_REACH("unreadable");
}
