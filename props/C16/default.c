#include "vf_proof.h"
#define VIRIATUM_CONTENTS_PATH vf_contents
#define VIRIATUM_RESOURCES_PATH vf_contents
extern char vf_contents[];
#include "vf_defaults.h"
#if defined(VF_DISPATCH)
#include "handlers/handler_dispatch.c"
#define RESPONSE _send_response_handler_dispatch
#define DONE _send_response_callback_handler_dispatch
#elif defined(VF_FILE)
#include "handlers/handler_file.c"
#else
#include "handlers/handler_default.c"
#define RESPONSE _send_response_handler_default
#define DONE _send_response_callback_handler_default
#endif
unsigned char *last_error_message; unsigned char last_error_message_b[ERROR_BUFFER_SIZE]; unsigned int last_error_code; char vf_contents[8] = "/w";
struct connection_t vf_conn; struct io_connection_t vf_io; struct http_connection_t *vf_hc; struct http_handler_t vf_hh; struct http_parser_t *vf_parser; int vf_acq, vf_sent, vf_closed, vf_released, vf_unset; void *vf_p;
static ERROR_CODE s_acquire(struct http_connection_t *h) { VF_ENSURES(h == vf_hc && !vf_sent, "the connection is locked before the response is written"); vf_acq++; return 0; }
/* the connection may be gone after it was closed, and the next request handled when it was released */
static ERROR_CODE s_close(struct connection_t *c) { VF_ENSURES(c == &vf_conn && vf_hc->http_handler == NULL, "no handler is left"); vf_closed++; free(vf_hc); return 0; }
static ERROR_CODE s_release(struct http_connection_t *h) { VF_ENSURES(h == vf_hc && vf_hc->http_handler == NULL, "no handler is left"); vf_released++; free(vf_hc); return 0; }
static ERROR_CODE s_unset(struct http_connection_t *h) { VF_ENSURES(h == vf_hc && !vf_closed && !vf_released, "the handler is detached first"); vf_unset++; return 0; }
static void begin(void) { vf_hc = malloc(sizeof(*vf_hc)); vf_parser = malloc(sizeof(*vf_parser)); vf_conn.lower = &vf_io; vf_io.lower = vf_hc; vf_conn.close_connection = s_close; vf_hc->acquire = s_acquire; vf_hc->release = s_release; vf_hh.unset = s_unset; vf_parser->parameters = &vf_conn; }
#ifdef RESPONSE
static ERROR_CODE sent(struct connection_t *c, char *b, size_t size, enum http_version_e v, enum http_keep_alive_e k, connection_data_callback_hu cb, void *p) {
  VF_ENSURES(c == &vf_conn && b != NULL && __CPROVER_w_ok(b, size) && size >= 256 && v == HTTP11 && vf_acq == 1, "the response has a buffer"); VF_ENSURES(k == (vf_parser->flags & FLAG_KEEP_ALIVE ? KEEP_ALIVE : KEEP_CLOSE), "the response says what the request asked for"); VF_ENSURES(cb == (connection_data_callback_hu) DONE, "the request ends once the response was sent"); vf_sent++; vf_p = p; return 0;
}
ERROR_CODE c_message(struct connection_t *c, char *b, size_t size, enum http_version_e v, int code, char *m, char *t, enum http_keep_alive_e k, connection_data_callback_hu cb, void *p) { VF_ENSURES(code == 200, "success"); return sent(c, b, size, v, k, cb, p); }
ERROR_CODE c_err(struct connection_t *c, char *b, size_t size, enum http_version_e v, int code, char *m, char *d, enum http_keep_alive_e k, connection_data_callback_hu cb, void *p) { VF_ENSURES(code == 500, "internal error"); return sent(c, b, size, v, k, cb, p); }
void u_response(void) {
  begin(); unsigned char flags = vf_parser->flags; ERROR_CODE r = RESPONSE(vf_parser);
  VF_ENSURES(r == 0 && vf_sent == 1 && vf_acq == 1, "one response is sent"); VF_ENSURES((unsigned char) (size_t) vf_p == flags, "the flags of the request decide what happens to the connection"); VF_REACH("sent");
}
#endif
void u_done(void) {
  begin(); int had = nondet_u8() & 1; vf_hc->http_handler = had ? &vf_hh : NULL; unsigned char flags = nondet_u8();
#ifdef VF_FILE
  struct handler_file_context_t *ctx = malloc(sizeof(*ctx)); ctx->flags = flags; ERROR_CODE r = _cleanup_handler_file(&vf_conn, NULL, ctx);
#else
  ERROR_CODE r = DONE(&vf_conn, NULL, (void *) (size_t) flags);
#endif
  VF_ENSURES(r == 0 && vf_unset == had, "the handler is detached once"); VF_ENSURES(vf_closed == !(flags & FLAG_KEEP_ALIVE) && vf_released == !!(flags & FLAG_KEEP_ALIVE), "the connection is closed, or released for the next request, as the response said"); 
  if(vf_closed) VF_REACH("closed"); else VF_REACH("released");
}
