#include "vf_proof.h"
#define VIRIATUM_CONTENTS_PATH vf_contents
extern char vf_contents[];
#define SEP(c) ((c)=='/'||(c)=='\\')
/* position w starts a path component equal to ".." (path of length n) */
#define START(p,w) ((w)==0||SEP((p)[(w)-1]))
#define DOTDOT(p,n,w) ((w)<(n) && START(p,w) && (n)-(w)>=2 && (p)[w]=='.' && (p)[(w)+1]=='.' && ((n)-(w)==2||SEP((p)[(w)+2])))
unsigned long vf_w; /* witness position, arbitrary */
#ifdef U_CONT
#define VF_LOOP_contained_file \
  ASSIGNS(index, mark) \
  INV(index <= path_size && mark <= index && (mark==0 || SEP(path[mark-1]))) \
  INV(vf_w < index ==> path[vf_w]!=0) \
  INV(vf_w < mark ==> !DOTDOT(path,path_size,vf_w)) \
  INV((vf_w > 0 && vf_w <= index && SEP(path[vf_w-1])) ==> vf_w <= mark) \
  INV((vf_w >= mark && vf_w+2 < index) ==> !SEP(path[vf_w+2])) \
  INV((vf_w >= mark && vf_w < index) ==> !SEP(path[vf_w])) \
  INV((mark+1 < index) ==> (!SEP(path[mark]) && !SEP(path[mark+1]))) \
  INV((mark < index) ==> (!SEP(path[mark]))) \
  DECR(path_size-index)
#endif
#include "vf_defaults.h"
#include "handlers/handler_file.c"
unsigned char *last_error_message; unsigned char last_error_message_b[ERROR_BUFFER_SIZE]; unsigned int last_error_code;
char vf_contents[VIRIATUM_MAX_PATH_SIZE];
void c_error(unsigned char *m) { last_error_message = m; }
struct handler_file_context_t *vf_ctx; unsigned long vf_q;

/* ---- containment test ---- */
void u_contained(void) {
  size_t bn = nondet_size(), n = nondet_size(); VF_REQUIRES(bn < VF_MAX && n < VF_MAX); vf_w = nondet_size(); VF_REQUIRES(vf_w < VF_MAX);
  unsigned char *b = malloc(bn), *p = malloc(n);
  unsigned char r = _is_contained_handler_file(b, bn, p, n);
  if(r) {
    VF_ENSURES(vf_w < n ==> p[vf_w] != 0, "accepted paths have no end of string");
    VF_ENSURES(!DOTDOT(p, n, vf_w), "accepted paths never refer to a parent directory");
    VF_ENSURES(n > 0 && p[0] != '/' ==> bn > 0 && b[bn - 1] == '/', "accepted paths are separated from the base path");
    VF_REACH("accepted");
  } else VF_REACH("refused");
}

/* ---- contracts used in place of the callees ---- */
/* last accepted call of the containment test */
unsigned char vf_ok, *vf_ok_base, *vf_ok_path; size_t vf_ok_bn, vf_ok_n; unsigned char vf_ok_w;
unsigned char c_contained(unsigned char *b, size_t bn, unsigned char *p, size_t n) {
  VF_ENSURES(bn == 0 || __CPROVER_r_ok(b, bn), "containment test reads the base path"); VF_ENSURES(n == 0 || __CPROVER_r_ok(p, n), "containment test reads the path");
  unsigned char r = nondet_u8(); vf_ok = r != 0; vf_ok_base = b; vf_ok_bn = bn; vf_ok_path = p; vf_ok_n = n;
  vf_ok_w = vf_w < bn ? b[vf_w] : vf_w - bn < n ? p[vf_w - bn] : 0; return r;
}
/* decode_percent, proved by C02: error, or at most n bytes and an end of string */
ERROR_CODE c_decode(unsigned char *b, size_t n, unsigned char *o, size_t *p) {
  VF_ENSURES(n == 0 || __CPROVER_r_ok(b, n), "decoding reads its input"); VF_ENSURES(n < VIRIATUM_MAX_URL_SIZE && __CPROVER_w_ok(o, VIRIATUM_MAX_URL_SIZE), "decoding has room for its output");
  VF_ENSURES(o != vf_ctx->url_d || n < sizeof(vf_ctx->url_d), "decoding stays inside the decoded url");
  /* more than the contract writes, constant size (every output here is a buffer of the size of the url) */
  __CPROVER_havoc_slice(o, VIRIATUM_MAX_URL_SIZE);
  if(nondet_u8()) return 1;
  size_t k = nondet_size(); VF_ASSUME(k <= n && o[k] == 0); *p = k; return 0;
}
/* strlen (assumed): the first end of string, which has to exist at a known position */
const char *vf_s0, *vf_s1; size_t vf_n0, vf_n1;
size_t c_strlen(const char *s) {
  size_t n = s == vf_s0 ? vf_n0 : vf_n1; VF_ENSURES((s == vf_s0 || s == vf_s1) && s[n] == 0, "strlen is given a terminated string");
  size_t r = nondet_size(); VF_ASSUME(r <= n && s[r] == 0); return r;
}
void *c_memchr(const void *s, int c, size_t n) {
  VF_ENSURES(n == 0 || __CPROVER_r_ok(s, n), "memchr reads its input");
  size_t k = nondet_size(); vf_q = n; if(k >= n) return NULL; vf_q = k; VF_ASSUME(((const char *) s)[k] == (char) c); return (char *) s + k;
}
ERROR_CODE c_set_path(struct handler_file_context_t *c, unsigned char *b, unsigned char *p, size_t n);
size_t vf_calls; unsigned char *vf_call_base; unsigned char vf_path_ok;
#define POST_PATH(c) ((c)->file_path_d[0] == 0 || vf_ok)

/* ---- _set_path_handler_file ---- */
void u_set_path(void) {
  struct handler_file_context_t *c = malloc(sizeof(*c)); vf_w = nondet_size();
  size_t bn = nondet_size(), n = nondet_size(); VF_REQUIRES(bn < VF_MAX && n < VIRIATUM_MAX_URL_SIZE);
  unsigned char *b = malloc(bn + 1), *p = malloc(n + 1); VF_REQUIRES(b[bn] == 0 && p[n] == 0);
  vf_s0 = (char *) b; vf_n0 = bn; vf_s1 = (char *) b; vf_n1 = bn; vf_ok = 0; size_t ubn;
  vf_ctx = c; c->url[5] = 'u'; c->base_path = b;
  ERROR_CODE r = _set_path_handler_file(c, b, p, n);
  if(r == 0) {
    VF_ENSURES(vf_ok && vf_ok_base == b && vf_ok_bn <= bn && vf_ok_n <= n, "the file path is set only after the containment test accepts it");
    VF_ENSURES(vf_ok_bn + vf_ok_n < VIRIATUM_MAX_PATH_SIZE && c->file_path_d[vf_ok_bn + vf_ok_n] == 0, "the file path fits and is terminated");
    VF_ENSURES(vf_w < vf_ok_bn + vf_ok_n ==> c->file_path_d[vf_w] == vf_ok_w, "the file path is the base path followed by the tested path");
    VF_REACH("path set");
  } else { VF_ENSURES(c->file_path_d[0] == 0, "no file path when refused"); VF_REACH("path refused"); }
  VF_ENSURES(c->url[5] == 'u' && c->base_path == b, "frame");
}
/* contract of _set_path_handler_file */
ERROR_CODE c_set_path(struct handler_file_context_t *c, unsigned char *b, unsigned char *p, size_t n) {
  VF_ENSURES(c == vf_ctx && n < VIRIATUM_MAX_URL_SIZE && __CPROVER_r_ok(p, n + 1) , "a terminated path that fits");
  VF_ENSURES(b == vf_ctx->file_path || b == (unsigned char *) vf_s0, "a terminated base path");
  if(b == vf_ctx->file_path) VF_ENSURES(b[vf_n1] == 0, "the base path is terminated"); 
  vf_calls++; vf_call_base = b; __CPROVER_havoc_slice(c->file_path_d, VIRIATUM_MAX_PATH_SIZE);
  vf_path_ok = nondet_u8() & 1;
  size_t k = nondet_size(); VF_ASSUME(k < VIRIATUM_MAX_PATH_SIZE && c->file_path_d[k] == 0 && (vf_path_ok || k == 0)); return vf_path_ok ? 0 : 1;
}
/* SPRINTF of the default base path (assumed contract of snprintf for "%s%s": bounded and terminated) */
size_t vf_base_n;
int c_snprintf(char *b, size_t size, const char *f, ...) {
  VF_ENSURES(size > 0 && __CPROVER_w_ok(b, size), "formatted write stays inside its buffer");
  __CPROVER_havoc_slice(b, size); vf_n1 = nondet_size(); VF_ASSUME(vf_n1 < size && b[vf_n1] == 0); return nondet_int();
}
/* memcpy (assumed): the destination is overwritten with the bytes of the source, here known at the witness offset only;
 * bytes of file_path_d outside the destination are kept, known at the witness offset only */
void *c_memcpy(void *d, const void *s, size_t n) {
  VF_ENSURES(n == 0 || __CPROVER_r_ok(s, n), "memcpy reads inside its source"); VF_ENSURES(n == 0 || __CPROVER_w_ok(d, n), "memcpy writes inside its destination");
  unsigned char x = 0, in_path = SAME(d, vf_ctx) && OFFS(d) >= OFFS(vf_ctx->file_path_d) && OFFS(d) < OFFS(vf_ctx->file_path_d) + VIRIATUM_MAX_PATH_SIZE;
  if(in_path) {
    size_t o = OFFS(d) - OFFS(vf_ctx->file_path_d); VF_ENSURES(o + n <= VIRIATUM_MAX_PATH_SIZE, "memcpy stays inside the file path");
    if(vf_w < VIRIATUM_MAX_PATH_SIZE) { x = vf_w >= o && vf_w - o < n ? ((const unsigned char *) s)[vf_w - o] : vf_ctx->file_path_d[vf_w]; }
    __CPROVER_havoc_slice(vf_ctx->file_path_d, VIRIATUM_MAX_PATH_SIZE);
    if(vf_w < VIRIATUM_MAX_PATH_SIZE) VF_ASSUME(vf_ctx->file_path_d[vf_w] == x);
    return d;
  }
  if(vf_w < n) x = ((const unsigned char *) s)[vf_w];
#ifdef U_PATHONLY
  VF_ENSURES(n == 0, "only the file path is written");
#else
  if(n > 0) __CPROVER_havoc_slice(d, n);
#endif
  if(vf_w < n) VF_ASSUME(((unsigned char *) d)[vf_w] == x);
  return d;
}
const char *c_method(enum http_method_e m) { return "GET"; }
static void terminated(struct handler_file_context_t *c, size_t n) {
  VF_ENSURES(c->url[0] == 0 || (n < VIRIATUM_MAX_URL_SIZE && c->url[n] == 0), "url is terminated");
  VF_ENSURES(c->file_path_d[0] == 0 || vf_path_ok, "a file path only from an accepted path");
}
/* ---- url, path and location callbacks ---- */
static void setup(struct http_parser_t *h) { vf_ctx = malloc(sizeof(*vf_ctx)); h->context = vf_ctx; vf_calls = 0; vf_path_ok = 0; vf_w = nondet_size(); }
void u_url(void) {
  struct http_parser_t h; setup(&h); size_t n = nondet_size(); VF_REQUIRES(n < VF_MAX); unsigned char *d = malloc(n);
  vf_ctx->flags = 9; vf_ctx->range[3] = 'r';
  ERROR_CODE r = url_callback_handler_file(&h, d, n);
  terminated(vf_ctx, vf_q); VF_ENSURES(r == 0 ==> vf_path_ok, "success only with an accepted path");
  VF_ENSURES(vf_calls > 0 ==> vf_call_base == vf_ctx->file_path, "default base path");
  VF_ENSURES(vf_ctx->flags == 9 && vf_ctx->range[3] == 'r', "frame"); if(r == 0) VF_REACH("url ok"); else VF_REACH("url refused");
}
void u_path(void) {
  struct http_parser_t h; setup(&h); size_t n = nondet_size(); VF_REQUIRES(n < VF_MAX); unsigned char *d = malloc(n); char *b = malloc(1); VF_REQUIRES(b[0] == 0);
  vf_s0 = b; vf_n0 = 0; vf_ctx->base_path = nondet_u8() ? (unsigned char *) b : NULL; vf_w = nondet_size(); unsigned char dw = 0; if(vf_w < n) dw = d[vf_w];
  ERROR_CODE r = path_callback_handler_file(&h, d, n);
  terminated(vf_ctx, n); VF_ENSURES(r == 0 ==> (vf_path_ok && n < VIRIATUM_MAX_URL_SIZE && vf_ctx->url[n] == 0), "success only with an accepted path");
  VF_ENSURES(r == 0 && vf_w < n ==> vf_ctx->url[vf_w] == dw, "the url is the given path");
  VF_ENSURES(vf_calls > 0 ==> vf_call_base == (vf_ctx->base_path ? vf_ctx->base_path : vf_ctx->file_path), "base path in use");
  if(r == 0) VF_REACH("path ok"); else VF_REACH("path refused");
}
void u_location(void) {
  struct http_parser_t h; setup(&h); size_t off = nondet_size(), idx = nondet_size(), cnt = nondet_size(), un = nondet_size(), pn = nondet_size(); VF_REQUIRES(idx < cnt && cnt < (1 << 20));
  struct connection_t cn; struct io_connection_t io; struct http_connection_t hc; struct http_handler_t hh; struct file_handler_t fh;
  h.parameters = &cn; cn.lower = &io; io.lower = &hc; hc.http_handler = &hh; hh.lower = &fh; fh.locations_count = cnt; fh.locations = malloc(cnt * sizeof(struct file_location_t));
  char *b = malloc(1); VF_REQUIRES(b[0] == 0); fh.locations[idx].base_path = nondet_u8() ? (unsigned char *) b : NULL;
  VF_REQUIRES(un < VIRIATUM_MAX_URL_SIZE && vf_ctx->url[un] == 0); VF_REQUIRES(pn < VIRIATUM_MAX_PATH_SIZE && vf_ctx->file_path_d[pn] == 0);
  vf_s0 = b; vf_n0 = 0; vf_s1 = (char *) vf_ctx->url; vf_n1 = un; vf_path_ok = vf_ctx->file_path_d[0] != 0; unsigned char before = vf_path_ok;
  ERROR_CODE r = location_callback_handler_file(&h, idx, off);
  VF_ENSURES(vf_ctx->base_path == fh.locations[idx].base_path && vf_ctx->auth_basic == fh.locations[idx].auth_basic && vf_ctx->auth_file == fh.locations[idx].auth_file, "the location configuration is taken over");
  terminated(vf_ctx, un); VF_ENSURES(vf_calls > 0 ==> vf_call_base == vf_ctx->base_path, "base path of the location");
  VF_ENSURES(vf_ctx->base_path != NULL && vf_ctx->url[0] != 0 ==> vf_calls == 1, "a location with a base path resolves the file again");
  if(vf_calls) VF_REACH("location resolved"); else VF_REACH("location kept");
}
/* ---- headers ---- */
void u_field(void) {
  struct http_parser_t h; setup(&h); size_t n = nondet_size(); VF_REQUIRES(n < VF_MAX); unsigned char *d = malloc(n); vf_ctx->next_header = UNDEFINED_HEADER;
  ERROR_CODE r = header_field_callback_handler_file(&h, d, n);
  enum http_header_e x = vf_ctx->next_header;
  VF_ENSURES(x == RANGE ==> (n == 5 && vf_ctx->range_status == 1), "range header"); VF_ENSURES(x == ETAG ==> (n == 13 && vf_ctx->etag_status == 1), "etag header");
  VF_ENSURES(x == AUTHORIZATION ==> (n == 13 && d[0] == 'A' && vf_ctx->authorization_status == 1), "authorization header"); VF_ENSURES(x == CACHE_CONTROL ==> (n == 13 && vf_ctx->cache_control_status == 1), "cache control header");
  VF_ENSURES(r == 0, "never refused"); VF_REACH("field");
}
void u_value(void) {
  struct http_parser_t h; setup(&h); size_t n = nondet_size(); VF_REQUIRES(n < VF_MAX); unsigned char *d = malloc(n); unsigned char dw = 0; if(vf_w < n) dw = d[vf_w];
  enum http_header_e x = vf_ctx->next_header; unsigned char rs = vf_ctx->range_status, es = vf_ctx->etag_status, as = vf_ctx->authorization_status; unsigned char *bp = vf_ctx->base_path, *ab = vf_ctx->auth_basic; unsigned char u0 = vf_ctx->url[0], p0 = vf_ctx->file_path_d[0];
  VF_REQUIRES(x == RANGE ==> rs == 1); VF_REQUIRES(x == ETAG ==> es == 1); VF_REQUIRES(x == AUTHORIZATION ==> as == 1);
  ERROR_CODE r = header_value_callback_handler_file(&h, d, n);
  VF_ENSURES(r == 0 && vf_ctx->next_header == UNDEFINED_HEADER, "the value belongs to one header only");
  VF_ENSURES(x == RANGE && vf_ctx->range_status == 2 ==> (n < 128 && vf_ctx->range[n] == 0 && (vf_w < n ==> vf_ctx->range[vf_w] == dw)), "a stored range is the complete header value");
  VF_ENSURES(x == AUTHORIZATION && vf_ctx->authorization_status == 2 ==> (n < 128 && vf_ctx->authorization[n] == 0 && (vf_w < n ==> vf_ctx->authorization[vf_w] == dw)), "stored credentials are the complete header value");
  VF_ENSURES(x == ETAG && vf_ctx->etag_status == 2 ==> (n >= 10 && vf_ctx->etag[10] == 0 && (vf_w < 10 ==> vf_ctx->etag[vf_w] == dw)), "a stored etag comes from the header value");
  VF_ENSURES(x == RANGE && n < 128 ==> vf_ctx->range_status == 2, "ranges that fit are stored"); VF_ENSURES(x == AUTHORIZATION && n < 128 ==> vf_ctx->authorization_status == 2, "credentials that fit are stored");
  VF_ENSURES(x != RANGE ==> vf_ctx->range_status == rs, "frame range"); VF_ENSURES(x != AUTHORIZATION ==> vf_ctx->authorization_status == as, "frame authorization"); VF_ENSURES(x != ETAG ==> vf_ctx->etag_status == es, "frame etag");
  VF_ENSURES(vf_ctx->base_path == bp && vf_ctx->auth_basic == ab && vf_ctx->url[0] == u0 && vf_ctx->file_path_d[0] == p0, "frame");
  VF_REACH("value");
}
