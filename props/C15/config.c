#include "vf_proof.h"
/* Contracts of the configuration reader. Parsing is specified by the grammar over positions: vf_st is the construct the byte
 * at vf_i belongs to and vf_b the position where its text begins; vf_ev is the event owed for the byte (the text [vf_b, vf_e)),
 * which must be delivered before the next byte. Copies are specified by one arbitrary position vf_x of the text. */
enum { N_, S_, C_, K_, V_ }; int vf_st, vf_ev, vf_read, vf_freed, vf_k, vf_any, vf_ok, vf_new, vf_made, vf_lists, vf_pre; size_t vf_i, vf_b, vf_e, vf_n, vf_x, vf_r, vf_o; unsigned char *vf_f, vf_c, vf_v; struct sort_map_t *vf_map, *vf_sub; struct ini_handler_t *vf_h; char *vf_val, *vf_pv;
#define NL(c) ((c) == '\n' || (c) == '\r')
#define VF_LOOP_ini ASSIGNS(index, character, state, pointer, section_end_mark, comment_end_mark, key_end_mark, value_end_mark, vf_st, vf_ev, vf_i, vf_b, vf_e, vf_c) \
  INV(index <= file_size && vf_i == index && vf_ev == 0 && vf_b <= index && (vf_st == N_ || vf_st == S_ || vf_st == C_ || vf_st == K_ || vf_st == V_)) \
  INV(state == (vf_st == N_ ? INI_ENGINE_NORMAL : vf_st == S_ ? INI_ENGINE_SECTION : vf_st == C_ ? INI_ENGINE_COMMENT : vf_st == K_ ? INI_ENGINE_KEY : INI_ENGINE_VALUE)) \
  INV((vf_st != K_ || vf_b < index) && (vf_st != S_ || section_end_mark == vf_f + vf_b) && (vf_st != K_ || key_end_mark == vf_f + vf_b) && (vf_st != V_ || value_end_mark == vf_f + vf_b) && (vf_st != C_ || comment_end_mark == vf_f + vf_b)) DECR(file_size - index)
#define VF_GHOST_ini VF_ENSURES(index == vf_i && index < vf_n, "every byte in order"); vf_c = vf_f[vf_i]; vf_e = vf_i; \
  if(vf_st == N_) { if(vf_c == '[') { vf_st = S_; vf_b = vf_i + 1; } else if(vf_c == ';') { vf_st = C_; vf_b = vf_i + 1; } else if(!NL(vf_c)) { vf_st = K_; vf_b = vf_i; } } \
  else if(vf_st == S_) { if(vf_c == ']') { vf_ev = S_; vf_st = N_; } } else if(vf_st == C_) { if(NL(vf_c)) { vf_st = N_; } } \
  else if(vf_st == K_) { if(vf_c == '=') { vf_ev = K_; } } else if(NL(vf_c)) { vf_ev = V_; vf_st = N_; } vf_i++;
#define VF_LOOP_trailing ASSIGNS(size, _pointer, byte) INV(size <= vf_n && OFFS(_pointer) + 1 == size + vf_o && SAME(_pointer, buffer) && (vf_x >= vf_n || vf_x < size || vf_v == ' ')) DECR(size)
#define VF_LOOP_leading ASSIGNS(_size, _pointer, byte) INV(_size <= size && OFFS(_pointer) == _size + vf_o && SAME(_pointer, buffer) && (vf_x >= _size || vf_v == ' ')) DECR(size - _size)
#include "vf_defaults.h"
#include "stdafx.h"
#include "ini/ini.c"
/* ---- the parser ---- */
void c_create(struct sort_map_t **m, size_t n) { VF_ENSURES(!vf_made, "one configuration"); vf_made = 1; *m = vf_map; }
ERROR_CODE c_read(char *path, unsigned char **b, size_t *n) { if(!vf_ok) return 1; vf_f = malloc(vf_n); *b = vf_f; *n = vf_n; vf_read = 1; return 0; }
static void event(struct ini_engine_t *e) { struct ini_handler_t *h = e->context; VF_ENSURES(h->configuration == vf_map && h->remove_spaces == 1, "into the configuration, without spaces around"); VF_ENSURES(h->section[0] == '\0', "keys before any section are in the empty one"); }
ERROR_CODE c_section(struct ini_engine_t *e, const unsigned char *p, size_t n) { event(e); VF_ENSURES(vf_ev == S_ && p == vf_f + vf_b && n == vf_e - vf_b, "a section is the text between the brackets"); vf_ev = 0; return 0; }
ERROR_CODE c_comment(struct ini_engine_t *e, const unsigned char *p, size_t n) { return 0; }
ERROR_CODE c_key(struct ini_engine_t *e, const unsigned char *p, size_t n) { event(e); VF_ENSURES(vf_ev == K_ && p == vf_f + vf_b && n == vf_e - vf_b && n > 0, "a key is the text before the equals sign"); vf_ev = 0; vf_st = V_; vf_b = vf_e + 1; return 0; }
ERROR_CODE c_value(struct ini_engine_t *e, const unsigned char *p, size_t n) {
  event(e); if(vf_i == vf_n && vf_ev == 0 && vf_st == V_) { VF_ENSURES(p == vf_f + vf_b && n == vf_n - vf_b, "the last value ends with the file"); vf_st = N_; return 0; }
  VF_ENSURES(vf_ev == V_ && p == vf_f + vf_b && n == vf_e - vf_b, "a value is the text after the equals sign, up to the end of the line"); vf_ev = 0; return 0;
}
void c_free(void *p) { VF_ENSURES(p == vf_f && vf_read && !vf_freed, "the buffer of the file"); VF_ENSURES(vf_i == vf_n && vf_ev == 0 && vf_st != V_, "the whole file is read first"); vf_freed = 1; }
void u_ini(void) {
  struct sort_map_t *m = NULL; char path[4]; path[3] = 0; vf_map = malloc(sizeof(*vf_map)); vf_st = vf_ev = vf_read = vf_freed = vf_made = vf_any = 0; vf_i = vf_b = 0; vf_ok = nondet_u8() & 1; vf_n = nondet_size(); VF_ASSUME(vf_n < VF_MAX);
  ERROR_CODE r = process_ini_file(path, &m); VF_ENSURES(m == vf_map && vf_made, "a configuration"); VF_ENSURES((r == 0) == (vf_ok != 0), "an error when the file can not be read"); VF_ENSURES(!vf_ok || vf_freed, "the buffer is released"); if(vf_ok) VF_REACH("parsed"); else VF_REACH("no file");
}
#include <stdarg.h>
void c_error(unsigned char *m) {} void c_error_f(unsigned char *m, ...) {}
/* ---- spaces ---- */
void u_spaces(void) {
  size_t t = nondet_size(); vf_n = nondet_size(); vf_o = nondet_size(); vf_x = nondet_size(); VF_ASSUME(t < VF_MAX && vf_o <= t && vf_n <= t - vf_o && (vf_o > 0 || vf_n > 0)); char *b = malloc(t); if(vf_x < vf_n) vf_v = b[vf_o + vf_x];
  size_t r; if(nondet_u8() & 1) { VF_ASSUME(vf_o > 0); r = trailing_size(b + vf_o, vf_n); VF_ENSURES(r <= vf_n && (r == 0 || b[vf_o + r - 1] != ' '), "up to the last character that is no space"); VF_ENSURES(vf_x >= vf_n || vf_x < r || vf_v == ' ', "only spaces are dropped"); VF_REACH("trailing"); }
  else { r = leading_offset(b + vf_o, vf_n); VF_ENSURES(r <= vf_n && (r == vf_n || b[vf_o + r] != ' '), "from the first character that is no space"); VF_ENSURES(vf_x >= r || vf_v == ' ', "only spaces are dropped"); VF_REACH("leading"); }
}
/* ---- the events ---- */
#define MAX_ (INI_KEY_MAX_SIZE - 1)
static struct ini_engine_t *engine(void) { vf_any = 0; struct ini_engine_t *e = malloc(sizeof(*e)); vf_h = malloc(sizeof(*vf_h)); e->context = vf_h; vf_map = malloc(sizeof(*vf_map)); vf_h->configuration = vf_map; vf_h->remove_spaces = 1; vf_n = nondet_size(); VF_ASSUME(vf_n < VF_MAX); vf_f = malloc(vf_n); vf_x = nondet_size(); vf_i = nondet_size() % INI_KEY_MAX_SIZE; vf_k = 0; return e; }
size_t c_trailing(char *b, size_t n) { VF_ENSURES(b == (char *) vf_f && n == vf_n, "the text of the key"); return vf_r; }
size_t c_leading(char *b, size_t n) { VF_ENSURES(b == (char *) vf_f && n == vf_n, "the text of the value"); return vf_o; }
void u_section(void) {
  struct ini_engine_t *e = engine(); vf_v = vf_h->key[vf_i]; size_t m = vf_n < MAX_ ? vf_n : MAX_; ERROR_CODE r = _ini_section_end_callback(e, vf_f, vf_n); VF_ENSURES(r == 0 && vf_h->section[m] == '\0' && (vf_x >= m || vf_h->section[vf_x] == (char) vf_f[vf_x]), "the section, cut at the size of its buffer"); VF_ENSURES(vf_h->key[vf_i] == (char) vf_v && vf_h->configuration == vf_map && vf_h->remove_spaces == 1, "nothing else changes"); VF_REACH("section");
}
void u_key(void) {
  struct ini_engine_t *e = engine(); vf_v = vf_h->section[vf_i]; vf_r = nondet_size(); VF_ASSUME(vf_r <= vf_n); size_t m = vf_r < MAX_ ? vf_r : MAX_; ERROR_CODE r = _ini_key_end_callback(e, vf_f, vf_n); VF_ENSURES(r == 0 && vf_h->key[m] == '\0' && (vf_x >= m || vf_h->key[vf_x] == (char) vf_f[vf_x]), "the key without the spaces behind it, cut at the size of its buffer"); VF_ENSURES(vf_h->section[vf_i] == (char) vf_v && vf_h->configuration == vf_map && vf_h->remove_spaces == 1, "nothing else changes"); VF_REACH("key");
}
void *c_vmalloc(size_t n) { if(vf_any == 0) return __CPROVER_allocate(n, 0); VF_ENSURES(n == vf_n - vf_o + 1, "the value and its end"); vf_val = __CPROVER_allocate(n, 0); return vf_val; }
void *c_memcpy(void *d, const void *s, size_t n) { VF_ENSURES(d == vf_val && s == vf_f + vf_o && n == vf_n - vf_o, "the value without the spaces before it"); if(vf_x < n) { vf_val[vf_x] = ((char *) s)[vf_x]; } return d; }
void c_get(struct sort_map_t *m, unsigned char *k, void **v) {
  if(m == vf_map) { VF_ENSURES(k == (unsigned char *) vf_h->section, "the section"); *v = vf_new ? NULL : vf_sub; } else { VF_ENSURES(m == vf_sub && k == (unsigned char *) vf_h->key && !vf_k, "the key of the section"); *v = vf_new ? NULL : vf_pv; }
}
void c_vcreate(struct sort_map_t **m, size_t n) { VF_ENSURES(vf_new && !vf_made, "a section is made once"); vf_made = 1; *m = vf_sub; }
void c_set(struct sort_map_t *m, unsigned char *k, void *v) {
  if(m == vf_map) { VF_ENSURES(vf_new && vf_made == 1 && k == (unsigned char *) vf_h->section && v == vf_sub, "a new section of the configuration"); vf_made = 2; }
  else { VF_ENSURES(m == vf_sub && k == (unsigned char *) vf_h->key && v == vf_val && !vf_k, "the key has the value"); vf_k = 1; }
}
void c_vfree(void *p) { VF_ENSURES(p == NULL || (p == vf_pv && !vf_new && !vf_freed), "the value before is released once"); if(p != NULL) vf_freed = 1; }
void u_value(void) {
  struct ini_engine_t *e = engine(); vf_o = nondet_size(); VF_ASSUME(vf_o <= vf_n); vf_new = nondet_u8() & 1; vf_made = vf_freed = 0; vf_sub = malloc(sizeof(*vf_sub)); vf_pv = nondet_u8() & 1 ? malloc(1) : NULL; vf_val = NULL; vf_any = 1;
  ERROR_CODE r = _ini_value_end_callback(e, vf_f, vf_n); VF_ENSURES(r == 0 && vf_k && (!vf_new || vf_made == 2), "the value is set under its section"); VF_ENSURES(vf_freed == (!vf_new && vf_pv != NULL), "the value before is released"); VF_ENSURES(vf_val[vf_n - vf_o] == '\0' && (vf_x >= vf_n - vf_o || vf_val[vf_x] == (char) vf_f[vf_o + vf_x]), "the text of the value"); if(vf_new) VF_REACH("first"); else VF_REACH("again");
}
