#include "vf_proof.h"
/* Contract of the dispatch of a request. The expressions are asked in order: the one at vf_m1 (for the path) or vf_m2 (for the
 * path of the index file) is the first that matches, vf_cnt stands for none. vf_x is one arbitrary position of the path. */
char vf_contents[8] = "/w";
size_t vf_cnt, vf_m1, vf_m2, vf_k, vf_e1, vf_e2, vf_q, vf_n, vf_x, vf_il; int vf_phase, vf_gets, vf_new, vf_step, vf_old, vf_has; unsigned char *vf_data, vf_b, vf_ib; char *vf_base, *vf_index; void *vf_path;
#define CUR (vf_phase == 1 ? vf_m1 : vf_m2)
#define VF_LOOP_dispatch_match ASSIGNS(index, matching, handler_name, regex_match, match_size, OBJ(offsets), vf_k) INV(index <= dispatch_handler->regex_count && vf_k == index && vf_k <= vf_m1 && handler_name == __CPROVER_loop_entry(handler_name) && regex_match == __CPROVER_loop_entry(regex_match)) DECR(dispatch_handler->regex_count - index)
#define VF_LOOP_dispatch_index ASSIGNS(index, matching, handler_name, regex_match, match_size, OBJ(offsets), vf_k) INV(index <= dispatch_handler->regex_count && vf_k == index && vf_k <= vf_m2 && handler_name == __CPROVER_loop_entry(handler_name) && regex_match == __CPROVER_loop_entry(regex_match) && match_size == __CPROVER_loop_entry(match_size)) DECR(dispatch_handler->regex_count - index)
#define VF_LOOP_validate ASSIGNS(index, valid, buffer, OBJ(file_path), vf_k, vf_path) INV(index <= count && vf_k == index && index <= vf_m1 && buffer == vf_index + index * 128) DECR(count - index)
#include "vf_defaults.h"
/* formatting with its arguments as parameters: the instrumentation of loop contracts does not keep variable ones */
#include <stdio.h>
int c_snp(char *b, size_t n, const char *f, const char *x, const char *y);
#define SN_(b, n, f, x, y, ...) c_snp(b, n, f, (const char *) (size_t) (x), (const char *) (size_t) (y))
#define snprintf(...) SN_(__VA_ARGS__, 0, 0, 0)
#include "stdafx.h"
#include "handlers/handler_dispatch.h"
/* the sizes of the buffers of the function are any size from that of a path on, the real one among them */
enum { REAL_URL_SIZE = VIRIATUM_MAX_URL_SIZE }; size_t vf_size;
#undef VIRIATUM_MAX_URL_SIZE
#define VIRIATUM_MAX_URL_SIZE vf_size
#undef VIRIATUM_CONTENTS_PATH
#define VIRIATUM_CONTENTS_PATH vf_contents
#include "handlers/handler_dispatch.c"
unsigned char *last_error_message; unsigned char last_error_message_b[ERROR_BUFFER_SIZE]; unsigned int last_error_code;
struct connection_t vf_conn; struct io_connection_t vf_io; struct http_connection_t *vf_hc; struct http_handler_t *vf_h0, *vf_h1, *vf_h2, *vf_h; struct http_parser_t *vf_parser; struct dispatch_handler_t *vf_d; struct service_t *vf_s; struct http_settings_t *vf_set; struct service_t vf_sv; struct service_options_t vf_so; unsigned char *vf_idx;
static int isdefault(const unsigned char *k) { const char *w = DISPATCH_DEFAULT_HANDLER; for(int i = 0; i < (int) sizeof(DISPATCH_DEFAULT_HANDLER); i++) { if(k[i] != (unsigned char) w[i]) return 0; if(w[i] == 0) return 1; } return 0; }
void c_error(unsigned char *m) {}
void c_dump(const char *f, ...) {}
void *c_memchr(const void *d, int c, size_t n) { VF_ENSURES(d == (void *) vf_data && c == '?' && n == vf_n, "the path ends at the first question mark"); return vf_q < vf_n ? vf_data + vf_q : NULL; }
/* the byte at the followed position is copied, the others are anything */
void *c_memcpy(void *d_, const void *s_, size_t n) {
  unsigned char *d = (unsigned char *) d_ - OFFS(d_), b = 0; const unsigned char *s = s_; VF_ENSURES(__CPROVER_r_ok(s, n) && __CPROVER_w_ok(d_, n), "within the buffers"); size_t o = OFFS(d_), m = __CPROVER_OBJECT_SIZE(d_);
  if(vf_x < m) b = vf_x >= o && vf_x - o < n ? s[vf_x - o] : d[vf_x]; __CPROVER_havoc_object(d_); if(vf_x < m) d[vf_x] = b; return d_;
}
/* the byte of the path at the followed position */
#define INDEXED (vf_phase == 2)
#define SIZE (INDEXED ? vf_q + vf_il : vf_q)
static void ispath(const unsigned char *p, size_t n) { VF_ENSURES(n == SIZE && p[n] == 0, "the whole path"); VF_ENSURES(vf_x >= n || p[vf_x] == (vf_x < vf_q ? vf_b : vf_ib), "the path of the url, with the index file when there is one"); }
int c_exec(const pcre *r, const pcre_extra *x, const char *s, int n, int start, int o, int *v, int vn) {
  if(vf_phase == 0) { vf_phase = 1; vf_k = 0; } if(vf_phase == 3) { vf_phase = 2; vf_k = 0; } VF_ENSURES((vf_phase == 1 || vf_phase == 2) && vf_k < vf_cnt && r == vf_d->regex[vf_k] && vf_k <= CUR, "every expression in order, up to the first that matches");
  ispath((const unsigned char *) s, n); VF_ENSURES(start == 0 && o == 0 && v != NULL && vn == 3 && __CPROVER_w_ok(v, 12), "the whole path is matched"); v[0] = nondet_int(); v[1] = nondet_int(); v[2] = nondet_int(); int rc = nondet_int();
  if(vf_k++ == CUR) { VF_ASSUME(rc >= 0); v[1] = vf_phase == 1 ? vf_e1 : vf_e2; } else VF_ASSUME(rc < 0); return rc;
}
static size_t first(void) { return INDEXED && vf_m2 < vf_cnt ? vf_m2 : vf_m1; }
void c_get(struct hash_map_t *m, unsigned char *k, void **v) {
  VF_ENSURES(m == vf_s->http_handlers_map && vf_step == 0, "the handlers of the service"); if(vf_phase == 3) { vf_phase = 2; vf_k = 0; } if(vf_phase == 0) { vf_phase = 1; vf_k = 0; }
  VF_ENSURES(vf_k == (CUR < vf_cnt ? CUR + 1 : vf_cnt), "all expressions up to the first that matches were asked"); size_t e = first(); if(e < vf_cnt) VF_ENSURES(k == vf_d->names[e], "the handler of the first location that matches"); else VF_ENSURES(isdefault(k), "the default handler when no location matches");
  vf_h = e == vf_m1 ? vf_h1 : vf_h2; *v = vf_h; vf_gets = 1;
}
#ifdef U_URL
int c_snp(char *b, size_t n, const char *f, const char *x, const char *y) { VF_ENSURES(n <= VIRIATUM_MAX_URL_SIZE && __CPROVER_w_ok(b, n) && n > 0, "within the buffer"); VF_ENSURES(f[0] == '%' && f[1] == 's' && f[2] == '%' && f[3] == 's' && f[4] == 0, "one path"); VF_ENSURES(x == vf_contents, "below the contents"); ispath((const unsigned char *) y, vf_q); vf_base = b; return nondet_int(); }
char *c_validate(char *base, char *buffer, size_t count, size_t size) {
  VF_ENSURES(vf_gets && vf_phase == 1 && vf_h1->resolve_index && vf_s->options->default_index && (vf_q == 0 || vf_x != vf_q - 1 || vf_b == '/'), "an index file is searched only for a directory, for handlers that use one"); VF_ENSURES(base == vf_base && buffer == (char *) vf_s->options->index && count == 32 && size == 128, "among the configured names");
  if(!vf_has) return NULL; vf_phase = 3; vf_index = (char *) vf_idx; /* a copy of the name it returns */ return vf_index;
}
size_t c_strlen(const char *s) { VF_ENSURES(s == vf_index, "the name of the index file"); return vf_il; }
static ERROR_CODE s_unset(struct http_connection_t *h) { VF_ENSURES(h == vf_hc && vf_step == 0 && h->http_handler == vf_h0, "the handler before is detached first"); vf_step = 1; return 0; }
static ERROR_CODE s_sethandler(struct http_connection_t *h) { if(vf_phase == 3) { vf_phase = 2; vf_k = 0; } VF_ENSURES(h == vf_hc && vf_step == 1, "then the new one is attached"); VF_ENSURES(vf_k == (CUR < vf_cnt ? CUR + 1 : vf_cnt), "all expressions up to the first that matches were asked"); vf_step = 2; return 0; }
static ERROR_CODE s_begin(struct http_parser_t *p) { VF_ENSURES(p == vf_parser && vf_step == 2 && vf_hc->http_handler == vf_h, "the message begins for the new handler"); vf_step = 3; return 0; }
static ERROR_CODE s_url(struct http_parser_t *p, const unsigned char *d, size_t n) { VF_ENSURES(p == vf_parser && vf_step == 3 && d == vf_data && n == vf_n, "it is given the url"); vf_step = 4; return 0; }
static ERROR_CODE s_path(struct http_parser_t *p, const unsigned char *d, size_t n) { VF_ENSURES(p == vf_parser && vf_step == 4, "then the path"); ispath(d, n); vf_path = (void *) d; vf_step = 5; return 0; }
static size_t offset(void) { size_t e = INDEXED && vf_m2 < vf_cnt ? vf_e2 : vf_e1; unsigned char *p = vf_path; return e > 0 && p[e - 1] == '/' ? e - 1 : e; }
static ERROR_CODE s_location(struct http_parser_t *p, size_t i, size_t o) { VF_ENSURES(p == vf_parser && vf_step == 5, "then the location"); VF_ENSURES(i == first() && i < vf_cnt, "the first location that matches"); VF_ENSURES(o == offset(), "with the end of the match"); vf_step = 6; return 0; }
static ERROR_CODE s_virtual(struct http_parser_t *p, const unsigned char *d, size_t n) { size_t o = offset(); if(o > vf_n) o = vf_n; VF_ENSURES(p == vf_parser && vf_step == 6 && d == vf_data + o && n == vf_n - o, "then the rest of the url"); vf_step = 7; return 0; }
void u_url(void) {
  vf_hc = malloc(sizeof(*vf_hc)); vf_parser = malloc(sizeof(*vf_parser)); vf_s = &vf_sv; vf_so.default_index = nondet_u8(); vf_s->options = &vf_so; vf_s->http_handlers_map = malloc(sizeof(struct hash_map_t)); vf_idx = malloc(128); vf_d = malloc(sizeof(*vf_d)); vf_h0 = malloc(sizeof(*vf_h0)); vf_set = malloc(sizeof(*vf_set));
  vf_parser->parameters = &vf_conn; vf_conn.lower = &vf_io; vf_conn.service = vf_s; vf_io.lower = vf_hc; vf_hc->http_handler = vf_h0; vf_hc->http_settings = vf_set; vf_h0->lower = vf_d; vf_h0->unset = s_unset;
  vf_set->on_message_begin = s_begin; vf_set->on_url = s_url; vf_set->on_path = s_path; vf_set->on_location = s_location; vf_set->on_virtual_url = s_virtual;
  vf_h1 = nondet_u8() & 1 ? malloc(sizeof(*vf_h1)) : NULL; vf_h2 = nondet_u8() & 1 ? malloc(sizeof(*vf_h2)) : NULL; if(vf_h1) vf_h1->set = s_sethandler; if(vf_h2) vf_h2->set = s_sethandler; vf_h = NULL;
  vf_cnt = nondet_size(); vf_m1 = nondet_size(); vf_m2 = nondet_size(); VF_ASSUME(vf_cnt <= 1024 && vf_m1 <= vf_cnt && vf_m2 <= vf_cnt); vf_d->regex_count = vf_cnt; vf_d->regex = malloc(vf_cnt * sizeof(void *)); vf_d->names = malloc(vf_cnt * sizeof(void *));
  vf_n = nondet_size(); vf_q = nondet_size(); VF_ASSUME(vf_n < VF_MAX && vf_q <= vf_n); vf_data = malloc(vf_n); vf_x = nondet_size(); if(vf_x < vf_q) vf_b = vf_data[vf_x];
  vf_has = nondet_u8() & 1; vf_il = nondet_size(); VF_ASSUME(vf_il < 128); vf_idx[vf_il] = 0; if(vf_x >= vf_q && vf_x - vf_q < vf_il) vf_ib = vf_idx[vf_x - vf_q];
  vf_e1 = nondet_size(); vf_e2 = nondet_size(); VF_ASSUME(vf_e1 <= vf_q && vf_e2 <= vf_q + vf_il); vf_phase = vf_gets = vf_step = 0; vf_k = 0; vf_size = nondet_size(); VF_ASSUME(vf_size >= VIRIATUM_MAX_PATH_SIZE && vf_size <= VF_MAX / 2); VF_ENSURES(REAL_URL_SIZE >= VIRIATUM_MAX_PATH_SIZE, "the real size is one of them");
  ERROR_CODE r = url_callback_handler_dispatch(vf_parser, vf_data, vf_n);
  if(r != 0) { VF_ENSURES(vf_q >= VIRIATUM_MAX_URL_SIZE - 128 && vf_step == 0 && vf_phase == 0, "only a url that is too long is refused"); VF_REACH("too long"); return; }
  VF_ENSURES(vf_gets && vf_phase != 3, "a handler was chosen"); VF_ENSURES(vf_step == (vf_h == NULL ? 0 : first() < vf_cnt ? 7 : 5), "the chosen handler is told about the whole request, once"); VF_ENSURES(vf_hc->http_handler == (vf_h == NULL ? vf_h0 : vf_h), "and handles it from here on");
  VF_ENSURES(vf_h == NULL || vf_phase == 2 || !(vf_has && vf_h1->resolve_index && vf_s->options->default_index && (vf_q == 0 || (vf_x == vf_q - 1 && vf_b == '/'))), "the index file of a directory is used");
  if(vf_phase == 2) { if(vf_step == 7) VF_REACH("index"); } else if(vf_step == 7) VF_REACH("location"); else if(vf_step == 5) VF_REACH("default"); else if(vf_step == 0) VF_REACH("missing");
}
#else
/* ---- the names of the index files ---- */
int c_snp(char *b, size_t n, const char *f, const char *x, const char *y) { VF_ENSURES(n == VIRIATUM_MAX_PATH_SIZE && __CPROVER_w_ok(b, n), "within the buffer"); VF_ENSURES(f[0] == '%' && f[1] == 's' && f[2] == '/' && f[3] == '%' && f[4] == 's' && f[5] == 0, "one path"); VF_ENSURES(x == vf_base && y == vf_index + 128 * vf_k, "each name in order, below the directory"); vf_path = b; return nondet_int(); }
int c_access(const char *p, int m) { VF_ENSURES(p == vf_path && m == F_OK && vf_k <= vf_m1, "until one exists"); return vf_k++ == vf_m1 ? 0 : -1; }
void u_validate(void) { vf_index = malloc(32 * 128); vf_base = malloc(1); vf_m1 = nondet_size(); VF_ASSUME(vf_m1 <= 32); vf_k = 0; char *r = validate_file(vf_base, vf_index, 32, 128); VF_ENSURES(r == (vf_m1 < 32 ? vf_index + 128 * vf_m1 : NULL), "the first name that exists"); if(r) VF_REACH("found"); else VF_REACH("none"); }
#endif
