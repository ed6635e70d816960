#include "vf_proof.h"
#define VIRIATUM_CONTENTS_PATH vf_contents
#define VIRIATUM_RESOURCES_PATH vf_contents
extern char vf_contents[];
#include "vf_defaults.h"
#include "handlers/handler_file.c"
unsigned char *last_error_message; unsigned char last_error_message_b[ERROR_BUFFER_SIZE]; unsigned int last_error_code;
char vf_contents[8] = "/w";
void c_error(unsigned char *m) { last_error_message = m; }
struct handler_file_context_t *vf_ctx; struct connection_t vf_conn; struct io_connection_t vf_io; struct http_connection_t vf_hc; struct service_t *vf_service; struct http_parser_t vf_parser;
/* what was written to the connection, and what happened to the request */
size_t vf_writes, vf_w_size, vf_ends; const unsigned char *vf_w_data; connection_data_callback vf_w_cb; void *vf_w_param;
ERROR_CODE c_write(struct connection_t *c, unsigned char *d, unsigned int n, connection_data_callback cb, void *p) {
  VF_ENSURES(c == &vf_conn && (n == 0 || __CPROVER_r_ok(d, n)) && __CPROVER_POINTER_OFFSET(d) == 0, "the written bytes are a complete allocated buffer");
  vf_writes++; vf_w_size = n; vf_w_data = d; vf_w_cb = cb; vf_w_param = p; return 0;
}
/* ---- the file being sent: size vf_fsize, position vf_pos (assumed contracts of the C library) ---- */
char vf_file_o[8]; FILE *vf_file; size_t vf_fsize, vf_pos, vf_read_from, vf_read_n, vf_closed; unsigned char *vf_read_to; int vf_open;
ERROR_CODE c_open_file(char *path, char *mode, FILE **f) { VF_ENSURES((unsigned char *) path == vf_ctx->file_path_d && mode[0] == 'r', "the resolved file is opened for reading"); *f = vf_file; vf_open = 1; vf_pos = 0; return 0; }
int c_fseek(FILE *f, long o, int w) { VF_ENSURES(f == vf_file && vf_open, "open file"); VF_ENSURES(w == SEEK_SET || w == SEEK_END, "known seek"); vf_pos = w == SEEK_SET ? (size_t) o : vf_fsize + o; return 0; }
long c_ftell(FILE *f) { VF_ENSURES(f == vf_file && vf_open, "open file"); return (long) vf_pos; }
size_t c_fread(void *b, size_t s, size_t n, FILE *f) {
  VF_ENSURES(f == vf_file && vf_open && s == 1, "open file"); VF_ENSURES(n == 0 || __CPROVER_w_ok(b, n), "reading stays inside the buffer");
  size_t k = nondet_size(), left = vf_pos < vf_fsize ? vf_fsize - vf_pos : 0; VF_ASSUME(k <= n && k <= left && (k > 0 || n == 0 || left == 0));
  vf_read_from = vf_pos; vf_read_n = k; vf_read_to = b; vf_pos += k; return k;
}
int c_fclose(FILE *f) { VF_ENSURES(f == vf_file && vf_open, "open file"); vf_open = 0; vf_closed++; return 0; }
ERROR_CODE c_cleanup(struct connection_t *c, struct data_t *d, void *p) { VF_ENSURES(c == &vf_conn && p == vf_ctx && vf_ctx->file == NULL, "the request ends without an open file"); vf_ends++; return 0; }

void u_send(void) {
  vf_ctx = malloc(sizeof(*vf_ctx)); vf_file = (FILE *) vf_file_o; vf_fsize = nondet_size(); vf_pos = nondet_size(); VF_REQUIRES(vf_fsize < VF_MAX);
  size_t total = nondet_size(); VF_REQUIRES(total < VF_MAX); /* size of the file when the response was built */
  size_t a = vf_ctx->initial_byte, b = vf_ctx->final_byte;
  VF_REQUIRES(total == 0 ? (a == 0 && b == (size_t) -1) : (a <= b && b < total));
  int first = nondet_u8() & 1; if(first) { VF_REQUIRES(vf_ctx->file == NULL); } else { vf_ctx->file = vf_file; vf_open = 1; VF_REQUIRES(vf_pos >= a && vf_pos <= b + 1); }
  size_t from = first ? a : vf_pos;
  ERROR_CODE r = _send_chunk_handler_file(&vf_conn, NULL, vf_ctx);
  VF_ENSURES(r == 0 && vf_writes + vf_ends == 1, "either one chunk is written or the request ends");
  if(vf_writes) {
    VF_ENSURES(vf_w_data == vf_read_to && vf_w_size == vf_read_n && vf_read_n > 0, "the chunk is what was read");
    VF_ENSURES(vf_read_from == from && vf_pos == from + vf_read_n && vf_pos <= b + 1, "the chunk continues the requested range and never passes its end");
    VF_ENSURES(vf_w_cb == _send_chunk_handler_file && vf_w_param == vf_ctx && vf_ctx->file == vf_file && vf_open, "the next chunk follows");
    VF_REACH("chunk");
  } else {
    VF_ENSURES(vf_closed == 1 && !vf_open, "the file is closed");
    VF_ENSURES(vf_fsize >= total ==> from == b + 1, "the request ends only after the complete range");
    VF_REACH("end");
  }
  VF_ENSURES(vf_ctx->initial_byte == a && vf_ctx->final_byte == b, "the range is kept");
}

/* ---- message_complete_callback_handler_file: one response, chosen by the state of the request ---- */
unsigned char vf_isdir, vf_missing, vf_auth_called, vf_auth_r, vf_range_called; ERROR_CODE vf_range_r; size_t vf_size, vf_un, vf_dn, vf_hk, vf_acq, vf_status, vf_errors, vf_clen, vf_hdr_calls; char *vf_hdr;
size_t vf_ri, vf_rf; int vf_htext, vf_etag_eq, vf_hclose, vf_count_called;
char vf_tpl_o[2];
ERROR_CODE c_isdir(char *p, unsigned int *d) { VF_ENSURES((unsigned char *) p == vf_ctx->file_path_d, "the resolved path"); *d = vf_isdir; return 0; }
ERROR_CODE c_auth(char *f, char *a, unsigned char *r) {
  VF_ENSURES((unsigned char *) f == vf_ctx->auth_file && (unsigned char *) a == vf_ctx->authorization, "the credentials of the request are verified"); vf_auth_called = 1; *r = vf_auth_r; return nondet_u8() & 1;
}
size_t c_strlen(const char *s) {
  const unsigned char *u = (const unsigned char *) s; size_t n = u == vf_ctx->url ? vf_un : u == vf_ctx->url_d ? vf_dn : s == vf_hdr ? vf_hk : 0;
  VF_ENSURES(u == vf_ctx->url || u == vf_ctx->url_d || s == vf_hdr || s == vf_tpl_o, "a known string"); VF_ENSURES(s == vf_hdr ? vf_htext : s[n] == 0, "strlen is given a terminated string");
  size_t r = nondet_size(); VF_ASSUME(r <= n); return r;
}
void *c_memcpy(void *d, const void *s, size_t n) {
  VF_ENSURES(n == 0 || __CPROVER_r_ok(s, n), "memcpy reads inside its source"); VF_ENSURES(n == 0 || __CPROVER_w_ok(d, n), "memcpy writes inside its destination"); return d;
}
static size_t text(char *b, size_t size) { VF_ENSURES(size > 0 && size <= VIRIATUM_HTTP_SIZE && __CPROVER_w_ok(b, size), "formatted write stays inside its buffer"); size_t k = nondet_size(); VF_ASSUME(k < size); if(SAME(b, vf_hdr)) { vf_hk = (size_t) (b - vf_hdr) + k; vf_htext = 1; } return k; }
int c_snprintf(char *b, size_t size, const char *f, ...) { return (int) text(b, size); }
size_t c_headers(struct connection_t *c, char *b, size_t size, enum http_version_e v, int st, char *m, enum http_keep_alive_e k, char cl) {
  VF_ENSURES(c == &vf_conn && k == ((vf_parser.flags & FLAG_KEEP_ALIVE) ? KEEP_ALIVE : KEEP_CLOSE), "connection kept as requested"); vf_hdr = b; vf_hdr_calls++; vf_status = st; vf_hclose = cl; return text(b, size);
}
size_t c_headers_c(struct connection_t *c, char *b, size_t size, enum http_version_e v, int st, char *m, enum http_keep_alive_e k, size_t n, enum http_cache_e ca, int cl) { vf_clen = n; return c_headers(c, b, size, v, st, m, k, cl); }
static ERROR_CODE err(struct connection_t *c, char *b, size_t size, int st, connection_data_callback cb, void *p) { VF_ENSURES(c == &vf_conn && __CPROVER_w_ok(b, size), "error buffer"); vf_errors++; vf_status = st; vf_w_cb = cb; vf_w_param = p; return 0; }
ERROR_CODE c_err(struct connection_t *c, char *b, size_t size, enum http_version_e v, int code, char *m, char *d, enum http_keep_alive_e k, connection_data_callback cb, void *p) { return err(c, b, size, code, cb, p); }
ERROR_CODE c_err_a(struct connection_t *c, char *b, size_t size, enum http_version_e v, int code, char *m, char *d, char *realm, enum http_keep_alive_e k, connection_data_callback cb, void *p) { VF_ENSURES((unsigned char *) realm == vf_ctx->auth_basic, "realm of the location"); return err(c, b, size, code, cb, p); }
ERROR_CODE c_count(char *p, size_t *n) { VF_ENSURES((unsigned char *) p == vf_ctx->file_path_d, "the resolved path"); vf_count_called = 1; if(vf_missing) return 1; *n = vf_size; return 0; }
ERROR_CODE c_wtime(char *p, struct date_time_t *t) { *t = *(struct date_time_t *) malloc(sizeof *t); return 0; }
unsigned long c_crc(unsigned char *b, unsigned int n) { VF_ENSURES(__CPROVER_r_ok(b, n), "checksum input"); return nondet_ulong(); }
int c_strcmp(const char *a, const char *b) { VF_ENSURES((unsigned char *) b == vf_ctx->etag, "the etags are compared"); return !vf_etag_eq; }
ERROR_CODE c_limits(unsigned char *r, size_t *i, size_t *f, size_t size) { /* proved by range_safe */
  VF_ENSURES(r == vf_ctx->range && size == vf_size && i == &vf_ctx->initial_byte && f == &vf_ctx->final_byte, "the range of the request on the size of the file"); vf_range_called = 1;
  if(vf_range_r == 0) { *i = vf_ri; *f = vf_rf; } return vf_range_r;
}
char *c_ext(char *p) { return p; }
const char *c_mime(struct service_t *s, char *e) { return nondet_u8() ? "text/html" : NULL; }
ERROR_CODE c_acquire(struct http_connection_t *h) { vf_acq++; return 0; }
void c_create_list(struct linked_list_t **l) { *l = malloc(sizeof **l); }
ERROR_CODE c_list(char *p, struct linked_list_t *l) { VF_ENSURES((unsigned char *) p == vf_ctx->file_path_d, "the resolved path is listed"); return 0; }
ERROR_CODE c_map(struct linked_list_t *l, struct linked_list_t **m) { *m = malloc(sizeof **m); return 0; }
ERROR_CODE c_del_entries(struct linked_list_t *l) { return 0; }
void c_delete_list(struct linked_list_t *l) { free(l); }
void c_create_tpl(struct template_handler_t **t) { *t = malloc(sizeof **t); }
void c_assign_s(struct template_handler_t *t, unsigned char *n, char *v) { }
void c_assign_l(struct template_handler_t *t, unsigned char *n, struct linked_list_t *v) { }
void c_assign_i(struct template_handler_t *t, unsigned char *n, int v) { }
void c_process(struct template_handler_t *t, unsigned char *p) { vf_tpl_o[0] = 0; t->string_value = (unsigned char *) vf_tpl_o; }
void u_complete(void) {
  vf_ctx = malloc(sizeof(*vf_ctx)); vf_parser.context = vf_ctx; vf_parser.parameters = &vf_conn; vf_parser.flags = nondet_u8(); vf_conn.lower = &vf_io; vf_io.lower = &vf_hc; vf_hc.acquire = c_acquire; vf_service = malloc(sizeof *vf_service); vf_conn.service = vf_service; vf_service->get_mime_type = c_mime;
  vf_isdir = nondet_u8() & 1; vf_missing = nondet_u8() & 1; vf_auth_r = nondet_u8() & 1; vf_range_r = nondet_u8() & 1; vf_etag_eq = nondet_u8() & 1; vf_size = nondet_size(); VF_REQUIRES(vf_size < VF_MAX);
  vf_un = nondet_size(); vf_dn = nondet_size(); VF_REQUIRES(vf_un < sizeof vf_ctx->url && vf_dn < sizeof vf_ctx->url_d && vf_ctx->url[vf_un] == 0 && vf_ctx->url_d[vf_dn] == 0);
  vf_ri = nondet_size(); vf_rf = nondet_size(); VF_REQUIRES(vf_range_r == 0 ==> (vf_ri <= vf_rf && vf_rf < vf_size));
  unsigned char ab = vf_ctx->auth_basic != NULL, as = vf_ctx->authorization_status, rs = vf_ctx->range_status, es = vf_ctx->etag_status;
  ERROR_CODE r = message_complete_callback_handler_file(&vf_parser);
  VF_ENSURES(r == 0 && vf_acq == 1, "the connection is locked once for the response"); VF_ENSURES(vf_writes + vf_errors == 1, "exactly one response is written");
  VF_ENSURES(vf_w_param == vf_ctx && vf_ctx->flags == vf_parser.flags, "the response continues with this request");
  unsigned char granted = !ab || (as == 2 && vf_auth_called && vf_auth_r);
#ifdef U_AUTH
  VF_ENSURES(!granted ==> vf_errors == 1 && (vf_status == 401 || (vf_status == 404 && vf_missing)), "without verified credentials nothing but a refusal is sent");
  VF_ENSURES(!granted && (vf_isdir || !vf_missing) ==> vf_status == 401, "credentials are asked for");
  VF_ENSURES(vf_status == 401 ==> !granted, "verified credentials are never refused"); if(vf_status == 401) VF_REACH("refused"); if(granted && ab) VF_REACH("granted");
#else
  VF_ENSURES(vf_errors ==> (vf_w_cb == _cleanup_handler_file && (vf_status == 404 || vf_status == 401)), "errors end the request"); VF_ENSURES(vf_errors == 0 ==> (vf_w_data == (unsigned char *) vf_hdr && vf_hdr_calls == 1 && vf_w_size <= vf_hk), "the headers are written first");
  VF_ENSURES(vf_errors == 0 ==> (vf_w_cb == _send_chunk_handler_file) == (vf_status == 206 || (vf_status == 200 && !vf_isdir)), "file contents follow exactly the complete and partial responses");
  VF_ENSURES((vf_missing && !vf_isdir) ==> vf_status == 404, "a missing file is not found");
  if(!vf_isdir && !vf_missing && granted) {
    int cached = es == 2 && vf_etag_eq, partial = !cached && rs == 2 && vf_range_r == 0;
    VF_ENSURES(vf_status == (cached ? 304 : partial ? 206 : 200), "status of the response");
    VF_ENSURES(partial ==> (vf_ctx->initial_byte == vf_ri && vf_ctx->final_byte == vf_rf && vf_clen == vf_rf - vf_ri + 1), "a partial response announces exactly the bytes of the range");
    VF_ENSURES(vf_status == 200 ==> (vf_ctx->initial_byte == 0 && vf_ctx->final_byte == vf_size - 1 && vf_clen == vf_size), "a complete response announces exactly the file");
    VF_ENSURES(cached ==> (vf_clen == 0 && vf_w_cb == _cleanup_handler_file), "an unchanged file is not sent");
    if(cached) VF_REACH("304"); if(partial) VF_REACH("206"); if(vf_status == 200) VF_REACH("200");
  }
  if(vf_isdir && granted) { VF_ENSURES(vf_status == 200 ? (vf_w_cb == _send_data_handler_file && vf_ctx->flushed == 0) : (vf_status == 307 && vf_w_cb == _cleanup_handler_file), "directories are listed or redirected"); if(vf_status == 307) VF_REACH("redirect"); else VF_REACH("list"); }
#endif
}
