#include "vf_proof.h"
/* Contract of the socket read side: the bytes received (vf_recv in all) are given to the data handler in order, each once
 * (vf_deliv so far), before anything else happens to the connection. The byte at stream position vf_x has the value vf_b. */
size_t vf_recv, vf_deliv, vf_x; unsigned char vf_b; void *vf_fp[3]; int vf_closed, vf_eof, vf_invalid, vf_outst;
#define WIT(buf, from, to) ((vf_x >= (from) && vf_x < (to)) ==> (buf)[vf_x - (from)] == vf_b)
#define VF_GHOST_io_read
#define VF_LOOP_io_read ASSIGNS(number_bytes, buffer_pointer, buffer_size, total_bytes, error, connection->received, __CPROVER_object_whole(buffer), vf_recv, vf_deliv, vf_closed, vf_eof, vf_invalid, vf_outst, io_connection->connection, connection->status, connection->close_connection, connection->invalidate_read, connection->add_outstanding) \
  INV(!vf_closed && !vf_eof && vf_invalid == 0 && vf_outst == 0 && error == 0 && connection->status == STATUS_OPEN) INV((void *) connection->close_connection == vf_fp[0] && (void *) connection->invalidate_read == vf_fp[1] && (void *) connection->add_outstanding == vf_fp[2]) INV(buffer_size <= VIRIATUM_READB_SIZE && buffer_pointer == buffer + buffer_size) INV(vf_deliv <= vf_recv && vf_recv - vf_deliv == buffer_size && vf_recv < VF_MAX + total_bytes) \
  INV(total_bytes <= VIRIATUM_MAX_READ + VIRIATUM_READ_SIZE) INV(WIT(buffer, vf_deliv, vf_recv)) DECR(2 * VIRIATUM_MAX_READ - total_bytes)
#include "vf_defaults.h"
#include "stdafx.h"
#include "stream/stream_io.h"
/* the read function is proved for every buffer size that holds one read, in particular for the one in use */
enum { readb_size = VIRIATUM_READB_SIZE, read_size = VIRIATUM_READ_SIZE, max_read = VIRIATUM_MAX_READ };
size_t vf_readb;
#undef VIRIATUM_READB_SIZE
#define VIRIATUM_READB_SIZE vf_readb
#include "stream/stream_io.c"
struct connection_t *vf_c; struct io_connection_t *vf_io;
#define OPENED VF_ENSURES(!vf_closed, "the connection is not used after it was closed")
static int recv_stub(unsigned char *p, size_t n) {
  OPENED; VF_ENSURES(!vf_eof, "nothing is read after the end"); VF_ENSURES(n > 0 && __CPROVER_w_ok(p, n), "the data fits in the buffer"); int r = nondet_int(); VF_ASSUME(r >= -1 && r <= (int) n); if(r <= 0) { vf_eof = r == 0 ? 1 : 2; return r; }
  if(vf_x >= vf_recv && vf_x < vf_recv + r) p[vf_x - vf_recv] = vf_b; vf_recv += r; return r;
}
ssize_t c_recv(int s, void *b, size_t n, int f) { VF_ENSURES(vf_c->ssl_handle == NULL && s == vf_c->socket_handle, "socket"); return recv_stub(b, n); }
int c_sslread(SSL *s, void *b, int n) { VF_ENSURES(s == vf_c->ssl_handle && s != NULL, "secure socket"); return recv_stub(b, n); }
int c_sslerr(const SSL *s, int r) { return nondet_int(); }
static void shut(void) { vf_closed = 1; vf_c->status = STATUS_CLOSED; vf_c->close_connection = NULL; vf_c->invalidate_read = NULL; vf_c->add_outstanding = NULL; __CPROVER_deallocate(vf_io); }
ERROR_CODE c_close(struct connection_t *c) { OPENED; VF_ENSURES(c == vf_c && vf_eof && vf_deliv == vf_recv, "closed after everything was delivered"); shut(); return 0; }
ERROR_CODE c_invalid(struct connection_t *c) { OPENED; VF_ENSURES(c == vf_c && vf_eof == 2, "waits for more data"); vf_invalid++; return 0; }
ERROR_CODE c_outst(struct connection_t *c) { OPENED; VF_ENSURES(c == vf_c && !vf_eof, "the rest is read later"); vf_outst++; return 0; }
ERROR_CODE c_data(struct io_connection_t *io, unsigned char *b, size_t n) {
  OPENED; VF_ENSURES(io == vf_io && n > 0 && n == vf_recv - vf_deliv && __CPROVER_r_ok(b, n), "all the bytes not delivered yet"); VF_ENSURES(WIT(b, vf_deliv, vf_recv), "in the order received"); vf_deliv = vf_recv; if(nondet_u8() & 1) shut(); return 0;
}
static void a_conn(void) {
  vf_c = __CPROVER_allocate(sizeof(struct connection_t), 0); vf_io = __CPROVER_allocate(sizeof(struct io_connection_t), 0); vf_c->lower = vf_io; vf_io->connection = vf_c; vf_c->status = STATUS_OPEN; vf_closed = vf_eof = vf_invalid = vf_outst = 0; vf_c->received = 0;
  vf_fp[0] = (void *) c_close; vf_fp[1] = (void *) c_invalid; vf_fp[2] = (void *) c_outst; vf_c->close_connection = c_close; vf_c->invalidate_read = c_invalid; vf_c->add_outstanding = c_outst; vf_io->on_data = c_data; vf_c->ssl_handle = nondet_u8() & 1 ? NULL : __CPROVER_allocate(1, 0);
}
void u_read(void) {
  a_conn(); vf_recv = nondet_size(); vf_x = nondet_size(); vf_b = nondet_u8(); VF_REQUIRES(vf_recv < VF_MAX); vf_deliv = vf_recv; int w = VIRIATUM_NON_BLOCKING; VF_ENSURES(readb_size >= read_size && read_size > 0 && max_read > 0 && readb_size < (1 << 24), "the buffer holds one read"); vf_readb = nondet_size(); VF_REQUIRES(vf_readb >= read_size && vf_readb < (1 << 24));
  read_handler_stream_io(vf_c);
  VF_ENSURES(vf_deliv == vf_recv, "every received byte is delivered"); VF_ENSURES(vf_eof == 1 ==> vf_closed, "the end of the stream closes the connection"); VF_ENSURES(vf_eof == 0 && !vf_closed ==> vf_outst == 1 || !w, "a long stream is continued later"); VF_ENSURES(vf_eof == 2 ==> vf_closed || vf_invalid == 1, "waits for more or closes");
  if(vf_closed) VF_REACH("closed"); else if(vf_invalid) VF_REACH("waits"); else VF_REACH("continues");
}
/* ---- opening and closing the layer ---- */
int vf_opened; void *vf_freed;
ERROR_CODE c_open(struct io_connection_t *io) { VF_ENSURES(io == vf_c->lower && io->connection == vf_c, "opened"); vf_opened++; return 0; }
ERROR_CODE c_shut(struct io_connection_t *io) { VF_ENSURES(io == vf_io && vf_freed == NULL, "closed before it is released"); vf_opened++; return 0; }
void *c_malloc(size_t n) { VF_ENSURES(n == sizeof(struct io_connection_t), "io connection"); vf_io = __CPROVER_allocate(n, 0); return vf_io; }
void c_free(void *p) { VF_ENSURES(p == vf_io && vf_freed == NULL, "released once"); vf_freed = p; }
void u_open(void) {
  vf_c = __CPROVER_allocate(sizeof(struct connection_t), 0); struct custom_parameters_t par; par.on_data = c_data; par.on_open = c_open; par.on_close = c_shut; vf_c->parameters = &par; vf_opened = 0; vf_freed = NULL; open_handler_stream_io(vf_c);
  VF_ENSURES(vf_c->lower == vf_io && vf_io->connection == vf_c && vf_opened == 1, "the layer is opened once");
  if(vf_c->protocol == HTTP_PROTOCOL) { VF_ENSURES(vf_io->on_data == data_handler_stream_http && vf_io->on_close == close_handler_stream_http && vf_io->on_open == open_handler_stream_http, "HTTP connections are handled by the HTTP layer"); VF_REACH("http"); }
}
void u_close(void) { a_conn(); vf_io->on_close = c_shut; vf_opened = 0; vf_freed = NULL; close_handler_stream_io(vf_c); VF_ENSURES(vf_opened == 1 && vf_freed == vf_io, "the layer is closed and released once"); VF_REACH("closed"); }
ERROR_CODE c_hopen(struct io_connection_t *io) { return c_open(io); }
