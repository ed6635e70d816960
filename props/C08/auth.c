#include "vf_proof.h"
#include "vf_defaults.h"
#include "http/http_util.c"
void c_error(unsigned char *m) { }
size_t vf_w; /* witness offset */
/* ---- auth_http: dispatch ---- */
int vf_eq, vf_calls; char *vf_f, *vf_a; ERROR_CODE vf_r; unsigned char vf_v;
int c_strcmp0(const char *a, const char *b) { return vf_eq ? 0 : 1; }
ERROR_CODE c_default(char *f, char *a, unsigned char *r) { VF_ENSURES(vf_eq && f == vf_f && a == vf_a, "default credentials only when configured"); vf_calls++; *r = vf_v; return 0; }
ERROR_CODE c_file(char *f, char *a, unsigned char *r) { VF_ENSURES(!vf_eq && f == vf_f && a == vf_a, "the configured file is used"); vf_calls++; if(vf_r == 0) *r = vf_v; return vf_r; }
void u_dispatch(void) {
  vf_f = malloc(1); vf_a = malloc(1); vf_eq = nondet_u8() & 1; vf_r = nondet_u8() & 1; vf_v = nondet_u8() & 1; unsigned char res = nondet_u8();
  ERROR_CODE r = auth_http(vf_f, vf_a, &res);
  VF_ENSURES(res <= 1 && (res ==> (vf_calls == 1 && vf_v && (vf_eq || vf_r == 0))), "granted only by a verification that succeeded"); VF_ENSURES(vf_v && (vf_eq || vf_r == 0) ==> res, "verified credentials are granted"); if(res) VF_REACH("granted"); else VF_REACH("refused");
}
/* ---- auth_default_http ---- */
int c_strcmp1(const char *a, const char *b) { VF_ENSURES(a == vf_a, "the authorization is compared"); VF_ENSURES(b[0] == 'B' && b[6] == 'c' && b[18] == 0, "to the default credentials"); return vf_eq ? 0 : nondet_u8() + 1; }
void u_default(void) { vf_a = malloc(1); vf_eq = nondet_u8() & 1; unsigned char res = nondet_u8(); auth_default_http(vf_f, vf_a, &res); VF_ENSURES(res == vf_eq, "granted for exactly the default credentials"); if(res) VF_REACH("granted"); else VF_REACH("refused"); }
/* ---- auth_file_http ---- */
size_t vf_n, vf_k, vf_c, vf_ul, vf_pl, vf_sp; unsigned char *vf_d; char *vf_ub, *vf_pb, *vf_pw; ERROR_CODE vf_dr, vf_fr; int vf_nul, vf_map_live, vf_dec_live; struct hash_map_t *vf_map; int vf_cmp;
char *c_strchr(const char *s, int c) { VF_ENSURES(s == vf_a && c == ' ', "separator of the scheme"); if(vf_sp > vf_n) return NULL; return (char *) s + vf_sp; }
size_t c_strlen(const char *s) { VF_ENSURES(SAME(s, vf_a) && OFFS(s) <= vf_n, "length of the credentials"); return vf_n - OFFS(s); }
ERROR_CODE c_decode(unsigned char *b, size_t n, unsigned char **o, size_t *on) { /* C05 */
  VF_ENSURES(SAME(b, vf_a) && OFFS(b) == vf_sp + 1 && n == vf_n - vf_sp - 1, "the text after the scheme is decoded"); if(vf_dr) return 1; *o = vf_d; *on = vf_k; vf_dec_live = 1; return 0;
}
void *c_memchr(const void *s, int c, size_t n) {
  VF_ENSURES(s == vf_d && n == vf_k, "the decoded credentials are searched");
  if(c == ':') return vf_c < vf_k ? vf_d + vf_c : NULL;
  VF_ENSURES(c == 0, "end of string"); return vf_nul ? vf_d : NULL;
}
void *c_memcpy(void *d, const void *s, size_t n) {
  VF_ENSURES(n < 128 && __CPROVER_w_ok(d, n + 1) && OFFS(d) == 0, "credentials fit their buffers"); VF_ENSURES(n == 0 || __CPROVER_r_ok(s, n), "credentials are read inside the decoded text");
  if(OFFS(s) == 0) { vf_ub = d; vf_ul = n; } else { vf_pb = d; vf_pl = n; }
  if(OFFS(s) == 0) VF_ENSURES(n == vf_c, "username is the text before the separator"); else VF_ENSURES(OFFS(s) == vf_c + 1 && n == vf_k - vf_c - 1, "password is the text after the separator");
  __CPROVER_havoc_slice(d, 128); if(vf_w < n) VF_ASSUME(((unsigned char *) d)[vf_w] == ((unsigned char *) s)[vf_w]); return d;
}
ERROR_CODE c_passwd(char *f, struct hash_map_t **m) { VF_ENSURES(f == vf_f, "the configured file"); if(vf_fr) return 1; *m = vf_map; vf_map_live = 1; return 0; }
void c_get(struct hash_map_t *m, unsigned char *k, void **v) {
  VF_ENSURES(m == vf_map && (char *) k == vf_ub && vf_ub[vf_ul] == 0, "the map is searched for the username"); VF_ENSURES(vf_w < vf_ul ==> k[vf_w] == vf_d[vf_w], "the username is the decoded one"); *v = vf_pw;
}
int c_strcmp2(const char *a, const char *b) {
  VF_ENSURES(a == vf_pb && b == vf_pw && vf_pw && vf_map_live && vf_pb[vf_pl] == 0, "the password is compared to the one of the file"); VF_ENSURES(vf_w < vf_pl ==> (unsigned char) vf_pb[vf_w] == vf_d[vf_c + 1 + vf_w], "the password is the decoded one");
  vf_calls++; return vf_eq ? 0 : 1;
}
void c_delv(struct hash_map_t *m) { VF_ENSURES(m == vf_map && vf_map_live == 1, "map released"); vf_map_live = 2; }
void c_delm(struct hash_map_t *m) { VF_ENSURES(m == vf_map && vf_map_live == 2, "map released once"); vf_map_live = 0; }
void c_free(void *p) { VF_ENSURES(p == vf_d && vf_dec_live == 1, "decoded text released once"); vf_dec_live = 0; }
void u_file(void) {
  vf_n = nondet_size(); VF_REQUIRES(vf_n < VF_MAX); vf_a = malloc(vf_n + 1); VF_REQUIRES(vf_a[vf_n] == 0); vf_sp = nondet_size(); VF_REQUIRES(vf_sp < vf_n ==> vf_a[vf_sp] == ' '); if(vf_sp == vf_n) vf_sp = vf_n + 1;
  vf_k = nondet_size(); VF_REQUIRES(vf_k < VF_MAX); vf_d = malloc(vf_k); vf_c = nondet_size(); vf_nul = nondet_u8() & 1; VF_REQUIRES(vf_c < vf_k ==> vf_d[vf_c] == ':'); vf_w = nondet_size(); VF_REQUIRES(vf_w < VF_MAX); VF_REQUIRES(vf_w < vf_k && vf_d[vf_w] == 0 ==> vf_nul);
  vf_dr = nondet_u8() & 1; vf_fr = nondet_u8() & 1; vf_eq = nondet_u8() & 1; vf_map = malloc(sizeof *vf_map); vf_pw = nondet_u8() ? malloc(1) : NULL; vf_f = malloc(1); unsigned char res = nondet_u8();
  ERROR_CODE r = auth_file_http(vf_f, vf_a, &res);
  VF_ENSURES(res <= 1 && (res ==> (r == 0 && vf_calls == 1 && vf_eq && vf_pw && !vf_dr && !vf_fr && vf_c < vf_k && vf_sp < vf_n && !vf_nul)), "granted only when the password of the file for that user is the decoded one");
  VF_ENSURES(vf_sp < vf_n && !vf_dr && !vf_fr && vf_c < vf_k && vf_c < 128 && vf_k - vf_c - 1 < 128 && !vf_nul && vf_pw && vf_eq ==> res, "the right credentials are granted");
  VF_ENSURES(vf_map_live == 0 && vf_dec_live == 0, "everything is released"); if(res) VF_REACH("granted"); else VF_REACH("refused");
}
