#include "vf_proof.h"
#include <stdarg.h>
#define VIRIATUM_CONTENTS_PATH vf_contents
#define VIRIATUM_RESOURCES_PATH vf_contents
extern char vf_contents[];
#include "vf_defaults.h"
#include "http/http_util.c"
unsigned char *last_error_message; unsigned char last_error_message_b[ERROR_BUFFER_SIZE]; unsigned int last_error_code;
char vf_contents[8] = "/w";
/* ---- a text as a sequence of tokens: characters, numbers and strings of arbitrary length. vf_t[0] is the text written, vf_t[1] the expected one ---- */
enum { K_INT = 1000, K_LU, K_STR }; enum { S_MSG = 1, S_DESC, S_REALM };
int vf_k[2][320]; size_t vf_v[2][320]; size_t vf_n[2]; int vf_x;
static void tok(int k, size_t v) { VF_ENSURES(vf_n[vf_x] < 320, "the head has the expected size"); vf_k[vf_x][vf_n[vf_x]] = k; vf_v[vf_x][vf_n[vf_x]++] = v; }
static void lit(const char *s) { size_t i; for(i = 0; s[i]; i++) tok(s[i], 0); }
struct connection_t vf_conn; struct service_t vf_service; char *vf_msg, *vf_realm, *vf_buf; size_t vf_len, vf_cap, vf_l[4];
/* snprintf: text that fits its buffer (assumed) is appended where the previous text ended */
int c_snprintf(char *b, size_t size, const char *f, ...) {
  VF_ENSURES(SAME(b, vf_buf) && b == vf_buf + vf_len && size <= vf_cap - vf_len && __CPROVER_w_ok(b, size), "the text continues the head inside its buffer");
  va_list a; size_t i, l = 0, u; va_start(a, f);
  for(i = 0; f[i]; i++) {
    if(f[i] != '%') { tok(f[i], 0); l++; continue; }
    i++;
    if(f[i] == 's') { const char *s = va_arg(a, const char *); int w = s == vf_msg ? S_MSG : s == (char *) vf_service.description ? S_DESC : s == vf_realm ? S_REALM : 0; if(w) { tok(K_STR, w); l += vf_l[w]; } else { size_t j; for(j = 0; s[j]; j++) { tok(s[j], 0); l++; } } }
    else if(f[i] == 'd') { tok(K_INT, (size_t) va_arg(a, int)); u = nondet_size(); VF_ASSUME(u > 0 && u <= 11); l += u; }
    else { VF_ENSURES(f[i] == 'l' && f[i + 1] == 'u', "a known conversion"); i++; tok(K_LU, va_arg(a, unsigned long)); u = nondet_size(); VF_ASSUME(u > 0 && u <= 20); l += u; }
  }
  va_end(a); VF_ASSUME(l < size); vf_len += l; return (int) l;
}
/* ---- specification: the text of a head ---- */
static void spec_head(int v, int code, int ka, int cl) {
  lit(v == HTTP09 ? "HTTP/0.9" : v == HTTP10 ? "HTTP/1.0" : "HTTP/1.1"); lit(" "); tok(K_INT, code); lit(" "); tok(K_STR, S_MSG); lit("\r\nConnection: "); lit(ka == KEEP_ALIVE ? "keep-alive" : "close"); lit("\r\nServer: "); tok(K_STR, S_DESC); lit("\r\n"); if(cl) lit("\r\n");
}
static void spec_body(size_t n, int ca, int realm, int cl) {
  lit("Content-Length: "); tok(K_LU, n); lit("\r\nCache-Control: "); lit(ca == NO_CACHE ? "no-cache, must-revalidate" : "max-age=604800"); lit("\r\n"); if(realm) { lit("WWW-Authenticate: Basic realm=\""); tok(K_STR, S_REALM); lit("\"\r\n"); } if(cl) lit("\r\n");
}
static void start(void) {
  vf_conn.service = &vf_service; vf_msg = malloc(1); vf_realm = malloc(1); vf_cap = nondet_size(); VF_REQUIRES(vf_cap > 0 && vf_cap <= 65536); vf_buf = malloc(vf_cap);
  vf_l[1] = nondet_size(); vf_l[2] = nondet_size(); vf_l[3] = nondet_size(); VF_REQUIRES(vf_l[1] < 65536 && vf_l[2] < 1024 && vf_l[3] < 65536); vf_n[0] = vf_n[1] = vf_len = 0; vf_x = 0;
}
static void same(size_t r) {
  size_t i; VF_ENSURES(r == vf_len, "the number of bytes written is returned"); VF_ENSURES(vf_n[0] == vf_n[1], "the head is the expected text, complete");
  for(i = 0; i < vf_n[1]; i++) VF_ENSURES(vf_k[0][i] == vf_k[1][i] && vf_v[0][i] == vf_v[1][i], "the head is exactly the expected text");
}
#ifdef U_HEAD
void u_headers(void) {
  int v, ka, cl;
  for(v = HTTP09; v <= HTTP11; v++) for(ka = KEEP_CLOSE; ka <= KEEP_ALIVE; ka++) for(cl = 0; cl < 2; cl++) {
    start(); int code = nondet_int(); size_t r = write_http_headers(&vf_conn, vf_buf, vf_cap, v, code, vf_msg, ka, cl); vf_x = 1; spec_head(v, code, ka, cl); same(r);
  }
  VF_REACH("written");
}
#endif
#ifdef U_BODY
/* write_http_headers by its contract (unit headers) */
size_t c_headers(struct connection_t *c, char *b, size_t size, enum http_version_e v, int st, char *m, enum http_keep_alive_e k, char cl) {
  VF_ENSURES(c == &vf_conn && b == vf_buf && size == vf_cap && m == vf_msg && vf_len == 0, "the head starts the buffer"); spec_head(v, st, k, cl); size_t l = nondet_size(); VF_ASSUME(l < size); vf_len = l; return l;
}
void u_body(void) {
  int ka, ca, cl, re;
  for(re = 0; re < 2; re++) for(ka = KEEP_CLOSE; ka <= KEEP_ALIVE; ka++) for(ca = NO_CACHE; ca <= MAX_AGE; ca++) for(cl = 0; cl < 2; cl++) {
    start(); int code = nondet_int(); size_t r, n = nondet_size(); if(re) r = write_http_headers_a(&vf_conn, vf_buf, vf_cap, HTTP10, code, vf_msg, ka, n, ca, vf_realm, cl); else r = write_http_headers_c(&vf_conn, vf_buf, vf_cap, HTTP11, code, vf_msg, ka, n, ca, cl);
    vf_x = 1; spec_head(re ? HTTP10 : HTTP11, code, ka, 0); spec_body(n, ca, re, cl); same(r);
  }
  VF_REACH("written");
}
#endif
#ifdef U_SEND
/* ---- the functions that write a complete response: the head announces vf_clen bytes, the body follows at vf_len ---- */
size_t vf_clen, vf_ml, vf_heads, vf_writes, vf_wsize, vf_body, vf_frees; const unsigned char *vf_wdata; int vf_ver, vf_code, vf_keep, vf_realmed, vf_closed_head; connection_data_callback vf_cb; void *vf_par; char *vf_given;
char *vf_body_text; /* the text of the body, of length vf_ml */
static size_t heads(struct connection_t *c, char *b, size_t size, enum http_version_e v, int st, char *m, enum http_keep_alive_e k, size_t n, int cl) {
  VF_ENSURES(c == &vf_conn && size > 0 && __CPROVER_w_ok(b, size) && __CPROVER_POINTER_OFFSET(b) == 0 && (vf_given == NULL || b == vf_given), "the head starts the buffer and stays inside it");
  VF_ENSURES(m == vf_msg && (int) v == vf_ver && st == vf_code && (int) k == vf_keep, "the head has the given version, code, message and connection"); VF_ENSURES(cl, "the head is closed by an empty line");
  vf_buf = b; vf_cap = size; vf_heads++; vf_clen = n; size_t l = nondet_size(); VF_ASSUME(l < size); vf_len = l; return l;
}
size_t c_headers_c(struct connection_t *c, char *b, size_t size, enum http_version_e v, int st, char *m, enum http_keep_alive_e k, size_t n, enum http_cache_e ca, int cl) { VF_ENSURES(ca == NO_CACHE, "not cached"); vf_realmed = 0; return heads(c, b, size, v, st, m, k, n, cl); }
size_t c_headers_a(struct connection_t *c, char *b, size_t size, enum http_version_e v, int st, char *m, enum http_keep_alive_e k, size_t n, enum http_cache_e ca, char *realm, int cl) { VF_ENSURES(ca == NO_CACHE && realm == vf_realm, "the given realm"); vf_realmed = 1; return heads(c, b, size, v, st, m, k, n, cl); }
void *c_memcpy(void *d, const void *s, size_t n) {
  VF_ENSURES(s == (void *) vf_body_text && vf_heads == 1 && d == (void *) (vf_buf + vf_len), "the body follows the head"); VF_ENSURES(n == vf_ml + 1, "the complete body with its end"); VF_ASSUME(vf_ml < vf_cap - vf_len); vf_body++; return d;
}
ERROR_CODE c_write(struct connection_t *c, unsigned char *d, unsigned int n, connection_data_callback cb, void *p) { VF_ENSURES(c == &vf_conn, "written to the connection"); vf_writes++; vf_wdata = d; vf_wsize = n; vf_cb = cb; vf_par = p; return 0; }
static void send_start(void) { vf_conn.service = &vf_service; vf_msg = malloc(1); vf_realm = malloc(1); vf_ver = nondet_int(); vf_code = nondet_int(); vf_keep = nondet_int(); vf_ml = nondet_size(); VF_REQUIRES(vf_ml < 65536); vf_cap = 4096; vf_given = NULL; }
static char *give(size_t *size) { *size = 0; if(nondet_u8() & 1) { *size = nondet_size(); VF_REQUIRES(*size > 0 && *size <= 65536); vf_given = malloc(*size); } return vf_given; }
#endif
#ifdef U_MSG
size_t c_strlen(const char *s) { if(s == vf_body_text) return vf_ml; VF_ENSURES(vf_heads == 1 && vf_body == 1 && s == vf_buf, "a known text"); return vf_len + vf_ml; }
/* write_http_headers_m by its contract (unit headers_m) */
size_t c_headers_m(struct connection_t *c, char *b, size_t size, enum http_version_e v, int st, char *m, enum http_keep_alive_e k, size_t n, enum http_cache_e ca, char *t) { VF_ENSURES(t == vf_body_text && n == vf_ml && ca == NO_CACHE, "the complete message is the body"); size_t l = heads(c, b, size, v, st, m, k, n, 1); vf_body++; return l; }
void u_message(void) {
  send_start(); vf_body_text = malloc(1); size_t size; char *b = give(&size); connection_data_callback_hu cb = (connection_data_callback_hu) vf_realm; void *p = vf_msg;
  ERROR_CODE r = write_http_message(&vf_conn, b, size, vf_ver, vf_code, vf_msg, vf_body_text, vf_keep, cb, p);
  VF_ENSURES(r == 0 && vf_heads == 1 && vf_writes == 1, "one response is sent"); VF_ENSURES(vf_wdata == (unsigned char *) vf_buf && vf_wsize == vf_len + vf_ml, "the head and the complete body are sent"); VF_ENSURES(vf_clen == vf_ml, "the announced length is that of the body");
  VF_ENSURES((void *) vf_cb == (void *) cb && vf_par == p, "the caller is told once sent"); VF_REACH("sent");
}
#endif
#ifdef U_M
void u_headers_m(void) {
  send_start(); vf_body_text = malloc(1); size_t size = nondet_size(); VF_REQUIRES(size > 0 && size <= 65536); vf_given = malloc(size);
  size_t r = write_http_headers_m(&vf_conn, vf_given, size, vf_ver, vf_code, vf_msg, vf_keep, vf_ml, NO_CACHE, vf_body_text);
  VF_ENSURES(vf_heads == 1 && vf_body == 1 && r == vf_len && vf_clen == vf_ml && !vf_realmed, "a head that announces the message, then the message"); VF_REACH("written");
}
#endif
#ifdef U_ERR
void *vf_ecb, *vf_ep; int vf_ea;
ERROR_CODE c_error_a(struct connection_t *c, char *b, size_t size, enum http_version_e v, int code, char *m, char *d, char *realm, enum http_keep_alive_e k, connection_data_callback_hu cb, void *p) {
  VF_ENSURES(c == &vf_conn && b == vf_given && size == vf_cap && (int) v == vf_ver && code == vf_code && m == vf_msg && d == vf_body_text && realm == NULL && (int) k == vf_keep && (void *) cb == vf_ecb && p == vf_ep, "the error is written as given, without realm"); vf_ea++; return 0;
}
void u_error(void) {
  send_start(); vf_body_text = malloc(1); char *b = give(&vf_cap); vf_ecb = vf_realm; vf_ep = vf_msg;
  ERROR_CODE r = write_http_error(&vf_conn, b, vf_cap, vf_ver, vf_code, vf_msg, vf_body_text, vf_keep, (connection_data_callback_hu) vf_ecb, vf_ep); VF_ENSURES(r == 0 && vf_ea == 1, "one error is written"); VF_REACH("written");
}
#endif
#ifdef U_ERRA
struct service_options_t vf_options; struct template_handler_t vf_tpl; struct string_buffer_t vf_sb; int vf_tplmade, vf_tpldone, vf_tpldel, vf_sbmade, vf_parts, vf_joined, vf_sbdel, vf_acode, vf_amsg, vf_hfree; char vf_tpl_text[2]; unsigned char *vf_result; unsigned char vf_sent;
char *vf_path_b;
int c_snprintf_e(char *b, size_t size, const char *f, ...) {
  va_list a; VF_ENSURES(size > 0 && __CPROVER_w_ok(b, size), "formatted write stays inside its buffer"); va_start(a, f);
  if(vf_options.use_template) { va_end(a); vf_path_b = b; return 1; }
  VF_ENSURES(strcmp(f, "%d - %s - %s") == 0, "code, message and description"); int code = va_arg(a, int); char *m = va_arg(a, char *), *d = va_arg(a, char *); va_end(a);
  VF_ENSURES(code == vf_code && m == vf_msg && d == (char *) vf_service.description, "code, message and description of the error, no internal details"); vf_body_text = b; VF_ASSUME(vf_ml < size); return (int) vf_ml;
}
size_t c_strlen_e(const char *s) {
  if(vf_options.use_template) { VF_ENSURES(s == vf_tpl_text && vf_tpldone && !vf_tpldel, "the text made by the template"); return vf_ml; }
  if(s == vf_body_text) return vf_ml; VF_ENSURES(vf_heads == 1 && vf_body == 1 && s == vf_buf, "a known text"); return vf_len + vf_ml;
}
void c_tcreate(struct template_handler_t **t) { VF_ENSURES(!vf_tplmade, "one template"); vf_tplmade = 1; *t = &vf_tpl; }
void c_tint(struct template_handler_t *t, unsigned char *n, int v) { VF_ENSURES(t == &vf_tpl && !vf_tpldone && strcmp((char *) n, "error_code") == 0 && v == vf_code, "the code of the error"); vf_acode++; }
void c_tstr(struct template_handler_t *t, unsigned char *n, char *v) { VF_ENSURES(t == &vf_tpl && !vf_tpldone && strcmp((char *) n, "error_message") == 0 && v == vf_msg, "the message of the error, no internal details"); vf_amsg++; }
void c_tprocess(struct template_handler_t *t, unsigned char *p) { VF_ENSURES(t == &vf_tpl && p == (unsigned char *) vf_path_b, "the template of errors"); vf_tpldone = 1; vf_tpl.string_value = (unsigned char *) vf_tpl_text; }
void c_tdelete(struct template_handler_t *t) { VF_ENSURES(t == &vf_tpl && vf_joined && !vf_tpldel, "the template is released once, after its text was copied"); vf_tpldel++; }
void c_sbcreate(struct string_buffer_t **s) { VF_ENSURES(!vf_sbmade, "one string buffer"); vf_sbmade = 1; *s = &vf_sb; vf_sb.string_length = 0; }
void c_sbappend(struct string_buffer_t *s, unsigned char *t) { VF_ENSURES(s == &vf_sb && vf_heads == 1 && !vf_joined && !vf_hfree, "string buffer"); VF_ENSURES(t == (vf_parts == 0 ? (unsigned char *) vf_buf : (unsigned char *) vf_tpl_text), "the head, then the body"); vf_sb.string_length += vf_parts == 0 ? vf_len : vf_ml; vf_parts++; }
void c_sbjoin(struct string_buffer_t *s, unsigned char **r) { VF_ENSURES(s == &vf_sb && vf_parts == 2 && !vf_hfree && !vf_tpldel, "the head and the body are joined"); vf_joined++; vf_result = (unsigned char *) vf_realm; *r = vf_result; }
void c_sbdelete(struct string_buffer_t *s) { VF_ENSURES(s == &vf_sb && vf_joined && !vf_sbdel, "released once"); vf_sbdel++; vf_sb.string_length = nondet_size(); }
void c_free(void *p) { VF_ENSURES(p == (void *) vf_buf && vf_joined && !vf_hfree, "the buffer of the head is released once it was copied"); vf_hfree++; }
void u_error_a(void) {
  send_start(); vf_service.options = &vf_options; vf_options.use_template = nondet_u8() & 1; size_t size; char *b = give(&size); char *realm = nondet_u8() & 1 ? vf_realm : NULL; connection_data_callback_hu cb = (connection_data_callback_hu) vf_realm; void *p = vf_msg; char *d = malloc(1);
  ERROR_CODE r = write_http_error_a(&vf_conn, b, size, vf_ver, vf_code, vf_msg, d, realm, vf_keep, cb, p);
  VF_ENSURES(r == 0 && vf_heads == 1 && vf_writes == 1, "one response is sent"); VF_ENSURES(vf_clen == vf_ml && vf_wsize == vf_len + vf_ml, "the announced length is that of the body, which is sent completely after the head");
  VF_ENSURES(vf_realmed == (realm != NULL), "the realm is named exactly when there is one"); VF_ENSURES((void *) vf_cb == (void *) cb && vf_par == p, "the caller is told once sent");
  if(vf_options.use_template) { VF_ENSURES(vf_wdata == vf_result && vf_joined == 1 && vf_sbdel == 1 && vf_tpldel == 1 && vf_hfree == 1 && vf_acode == 1 && vf_amsg == 1 && vf_tpldone, "the joined text is sent, everything else is released"); VF_REACH("template"); }
  else { VF_ENSURES(vf_wdata == (unsigned char *) vf_buf && vf_body == 1 && !vf_hfree, "the buffer is handed over to the connection"); VF_REACH("text"); }
}
#endif
