#include "vf_proof.h"
/* Contract of the write queue: the blocks queued on a connection form one stream. vf_pos is the number of bytes of the
 * first block sent so far (vf_total its length), vf_live tells whether that block has been seen, vf_left bounds the blocks
 * behind it. Every sent range must start exactly where the one before ended. */
struct data_t; size_t vf_pos, vf_total, vf_left, vf_off; int vf_live, vf_popped, vf_called, vf_stop, vf_err, vf_empty, vf_closed, vf_unreg, vf_shut, vf_inv, vf_fb, vf_rel, vf_first; struct data_t *vf_d; unsigned char *vf_base; void *vf_par, *vf_fp[3];
#define FP ((void *) connection->unregister_write == vf_fp[0] && (void *) connection->close_connection == vf_fp[1] && (void *) connection->invalidate_write == vf_fp[2])
#define GH vf_pos, vf_total, vf_off, vf_live, vf_popped, vf_called, vf_stop, vf_err, vf_empty, vf_closed, vf_fb, vf_rel, vf_first, vf_d, vf_base, vf_par
#define VF_GHOST_io_write
#define VF_LOOP_io_write ASSIGNS(number_bytes, data, error, connection->sent, connection->status, connection->unregister_write, connection->close_connection, connection->invalidate_write, GH) \
  INV(!vf_closed && !vf_stop && !vf_empty && !vf_live && !vf_popped && vf_unreg + vf_shut + vf_inv == 0 && error == 0 && connection->status == STATUS_OPEN && FP)
#define VF_GHOST_connection_delete
#define VF_LOOP_connection_delete ASSIGNS(data, vf_left, GH) INV(!vf_live && !vf_popped && !vf_empty && !vf_closed) DECR(vf_left)
#include "vf_defaults.h"
#include "stdafx.h"
#ifdef VF_SERVICE
#include "system/service.c"
#else
#include "stream/stream_io.c"
#endif
struct connection_t *vf_c; struct linked_list_t *vf_q, *vf_rq;
#define OPENED VF_ENSURES(!vf_closed, "the connection is not used after it was closed")
ERROR_CODE c_sent(struct connection_t *c, struct data_t *d, void *p);
static void first(void) { /* the first block of the queue: only the one at the head may have been sent in part */
  struct data_t *d = malloc(sizeof(struct data_t)); vf_total = nondet_size(); vf_off = vf_pos = vf_first && (nondet_u8() & 1) ? nondet_size() : 0; vf_first = 0; vf_rel = nondet_u8() & 1; VF_ASSUME(vf_total < ((size_t) 1 << 31) && vf_pos <= vf_total);
  unsigned char *b = malloc(vf_total); d->data_base = b; d->data = b + vf_pos; d->size = vf_total - vf_pos; d->size_base = vf_total; d->release = vf_rel; vf_par = vf_rel ? b : NULL; d->callback_parameters = vf_par; d->callback = nondet_u8() & 1 ? c_sent : NULL; vf_d = d; vf_base = b; vf_live = 1; vf_popped = vf_called = vf_fb = 0;
}
void c_peek(struct linked_list_t *l, void **v) { OPENED; VF_ENSURES(l == vf_q && !vf_live, "the queue of the connection"); if(nondet_u8() & 1) { vf_empty = 1; *v = NULL; } else { first(); *v = vf_d; } }
#ifndef VF_SERVICE
static int send_stub(const unsigned char *p, size_t n) {
  OPENED; VF_ENSURES(vf_live && !vf_popped && !vf_stop, "the first block of the queue"); VF_ENSURES(p == vf_base + vf_pos && n == vf_total - vf_pos, "the bytes of the block not sent yet, in order"); int r = nondet_int(); VF_ASSUME(r >= -1 && r <= (int) n);
  if(r < 0) vf_stop = 2; else { vf_pos += r; if(vf_pos < vf_total) vf_stop = 1; } return r;
}
ssize_t c_send(int s, const void *b, size_t n, int f) { VF_ENSURES(vf_c->ssl_handle == NULL && s == vf_c->socket_handle, "socket"); return send_stub(b, n); }
int c_sslwrite(SSL *s, const void *b, int n) { VF_ENSURES(s == vf_c->ssl_handle && s != NULL && n >= 0, "secure socket"); return send_stub(b, n); }
int c_sslerr(const SSL *s, int r) { vf_err = nondet_int(); return vf_err; }
void c_pop(struct linked_list_t *l, void **v, char rel) { OPENED; VF_ENSURES(l == vf_q && vf_live && !vf_popped && rel, "the first block leaves the queue once"); VF_ENSURES(vf_pos == vf_total, "a block leaves the queue when it was sent completely"); vf_popped = 1; *v = vf_d; }
ERROR_CODE c_sent(struct connection_t *c, struct data_t *d, void *p) {
  OPENED; VF_ENSURES(c == vf_c && vf_live && vf_popped && d == vf_d && p == vf_par && !vf_called && vf_pos == vf_total, "the sender is told once, after the last byte"); VF_ENSURES(!vf_fb && d->data_base == vf_base && d->size_base == vf_total, "the block is still there"); vf_called = 1;
  if(nondet_u8() & 1) { vf_closed = 1; vf_c->status = STATUS_CLOSED; vf_c->close_connection = NULL; vf_c->unregister_write = NULL; vf_c->invalidate_write = NULL; } return 0;
}
/* contract of delete_data (unit delete_data) */
void c_delete(struct data_t *d) { VF_ENSURES(vf_live && vf_popped && d == vf_d, "released once, after it left the queue"); VF_ENSURES(d->callback == NULL || vf_called, "the sender was told"); vf_live = vf_popped = 0; if(vf_rel) __CPROVER_deallocate(vf_base); __CPROVER_deallocate(vf_d); }
ERROR_CODE c_unreg(struct connection_t *c) { OPENED; VF_ENSURES(c == vf_c && vf_empty && !vf_stop, "writing stops when the queue is empty"); vf_unreg++; return 0; }
ERROR_CODE c_shut(struct connection_t *c) { OPENED; VF_ENSURES(c == vf_c && vf_stop == 2, "closed after a socket error"); vf_shut++; vf_closed = 1; return 0; }
ERROR_CODE c_inv(struct connection_t *c) { OPENED; VF_ENSURES(c == vf_c && vf_stop, "waits for the socket"); vf_inv++; return 0; }
void u_write(void) {
  vf_c = __CPROVER_allocate(sizeof(struct connection_t), 0); vf_q = __CPROVER_allocate(sizeof(struct linked_list_t), 0); vf_c->write_queue = vf_q; vf_c->status = STATUS_OPEN; vf_live = vf_popped = vf_called = vf_stop = vf_err = vf_empty = vf_closed = vf_unreg = vf_shut = vf_inv = vf_fb = 0; vf_first = 1;
  vf_fp[0] = (void *) c_unreg; vf_fp[1] = (void *) c_shut; vf_fp[2] = (void *) c_inv; vf_c->unregister_write = c_unreg; vf_c->close_connection = c_shut; vf_c->invalidate_write = c_inv; vf_c->ssl_handle = nondet_u8() & 1 ? NULL : __CPROVER_allocate(1, 0);
  write_handler_stream_io(vf_c);
  if(vf_live) { VF_ENSURES(vf_stop && !vf_popped, "only a stopped write leaves a block"); VF_ENSURES(vf_d->data == vf_base + vf_pos && vf_d->size == vf_total - vf_pos && vf_d->data_base == vf_base && vf_d->size_base == vf_total && vf_d->release == vf_rel && vf_d->callback_parameters == vf_par, "the block keeps exactly the bytes not sent yet"); }
  VF_ENSURES(vf_empty || vf_stop || vf_closed, "everything is sent, or the socket is full"); VF_ENSURES(vf_empty && !vf_closed ==> vf_unreg == 1, "an empty queue stops writing"); VF_ENSURES(vf_stop == 1 ==> vf_inv == 1 && !vf_closed, "a partial write is continued"); VF_ENSURES(vf_stop == 2 ==> vf_shut + vf_inv == 1, "an error closes the connection or waits");
  if(vf_stop == 2 && vf_c->ssl_handle != NULL) VF_ENSURES((vf_err == SSL_ERROR_WANT_WRITE || vf_err == SOCKET_WOULDBLOCK) == (vf_inv == 1), "only a full socket keeps the connection");
  if(vf_stop == 1) VF_REACH("partial"); else if(vf_stop == 2) VF_REACH("error"); else if(vf_closed) VF_REACH("closed by the sender"); else VF_REACH("sent");
}
#else
ERROR_CODE c_sent(struct connection_t *c, struct data_t *d, void *p) { return 0; }
/* ---- queueing and releasing ---- */
int vf_apps, vf_regs, vf_lists; struct data_t *vf_app; void *vf_params;
void *c_malloc(size_t n) { VF_ENSURES(!vf_live && n == sizeof(struct data_t), "one block"); vf_d = __CPROVER_allocate(n, 0); vf_live = 1; return vf_d; }
void c_append(struct linked_list_t *l, void *v) { VF_ENSURES(l == vf_q && v == vf_d && vf_apps == 0, "appended once at the end of the queue"); vf_apps++; }
ERROR_CODE c_reg(struct connection_t *c) { VF_ENSURES(c == vf_c && vf_apps == 1 && vf_regs == 0, "writing is requested after the block is queued"); vf_regs++; return 0; }
static void a_conn(void) { vf_c = __CPROVER_allocate(sizeof(struct connection_t), 0); vf_q = __CPROVER_allocate(sizeof(struct linked_list_t), 0); vf_rq = __CPROVER_allocate(sizeof(struct linked_list_t), 0); vf_c->write_queue = vf_q; vf_c->read_queue = vf_rq; vf_live = vf_popped = vf_apps = vf_regs = vf_empty = vf_fb = vf_lists = vf_called = vf_first = vf_closed = 0; }
void u_queue(void) {
  a_conn(); unsigned n = nondet_uint(); vf_base = __CPROVER_allocate(n, 0); vf_par = __CPROVER_allocate(1, 0); int rel = nondet_u8() & 1; vf_c->register_write = c_reg; vf_rel = 1;
  if(rel) { vf_rel = nondet_u8() & 1; write_connection_c(vf_c, vf_base, n, c_sent, vf_par, vf_rel); } else write_connection(vf_c, vf_base, n, c_sent, vf_par);
  VF_ENSURES(vf_apps == 1 && vf_regs == 1 && vf_d->data == vf_base && vf_d->data_base == vf_base && vf_d->size == n && vf_d->size_base == n && vf_d->callback == c_sent && vf_d->callback_parameters == vf_par && vf_d->release == vf_rel, "the whole block is queued with its sender"); if(rel) VF_REACH("copy"); else VF_REACH("owned");
}
void c_free(void *p) {
  if(vf_live) { if(p == vf_base && p != (void *) vf_d) { VF_ENSURES(vf_rel && !vf_fb, "an owned buffer is released once"); vf_fb = 1; __CPROVER_deallocate(p); } else { VF_ENSURES(p == vf_d && vf_fb == vf_rel, "the block is released after its buffer"); vf_live = vf_popped = 0; __CPROVER_deallocate(p); } }
  else { VF_ENSURES(vf_empty, "every block is released first"); if(p == vf_params && p != NULL) { VF_ENSURES(vf_lists == 0, "parameters"); vf_params = NULL; } else { VF_ENSURES(p == vf_c && vf_lists == 3 && !vf_closed && vf_params == NULL, "the connection is released last"); vf_closed = 1; } }
}
void u_delete_data(void) { a_conn(); first(); delete_data(vf_d); VF_ENSURES(!vf_live, "released"); if(vf_rel) VF_REACH("owned"); else VF_REACH("shared"); }
void c_pop(struct linked_list_t *l, void **v, char rel) { VF_ENSURES(l == vf_q && !vf_live && rel, "queue"); if(vf_left == 0) { vf_empty = 1; *v = NULL; } else { vf_left--; first(); vf_popped = 1; *v = vf_d; } }
void c_dellist(struct linked_list_t *l) { VF_ENSURES(vf_empty && ((l == vf_q && !(vf_lists & 1)) || (l == vf_rq && !(vf_lists & 2))), "each list is released once"); vf_lists |= l == vf_q ? 1 : 2; }
void c_ddata(struct data_t *d) { VF_ENSURES(vf_live && vf_popped && d == vf_d, "each block is released once"); vf_live = vf_popped = 0; if(vf_rel) __CPROVER_deallocate(vf_base); __CPROVER_deallocate(vf_d); }
void u_delete(void) { a_conn(); vf_left = nondet_size(); vf_params = nondet_u8() & 1 ? __CPROVER_allocate(1, 0) : NULL; vf_c->parameters = vf_params; delete_connection(vf_c); VF_ENSURES(vf_closed && vf_left == 0, "everything is released"); VF_REACH("released"); }
/* ---- opening and closing ---- */
int vf_added, vf_removed, vf_on, vf_sck, vf_ssl; struct service_t *vf_s; struct polling_t *vf_p; SSL *vf_h;
void c_ladd(struct linked_list_t *l, void *v) { VF_ENSURES(l == vf_q && v == vf_c && vf_added == 0, "added once"); vf_added = 1; }
void c_lrem(struct linked_list_t *l, void *v, char rel) { VF_ENSURES(l == vf_q && v == vf_c && rel && vf_removed == 1, "removed once"); vf_removed = 2; }
ERROR_CODE c_preg(struct polling_t *p, struct connection_t *c) { VF_ENSURES(p == vf_p && c == vf_c && vf_added == 1 && vf_on == 0 && c->status == STATUS_OPEN, "polled before it is used"); vf_added = 2; return 0; }
ERROR_CODE c_punreg(struct polling_t *p, struct connection_t *c, unsigned char rm) { VF_ENSURES(p == vf_p && c == vf_c && rm && vf_removed == 0, "polling ends once and removes the connection"); VF_ENSURES(c->on_close == NULL || vf_on == 1, "the layers are closed first"); vf_removed = 1; return 0; }
ERROR_CODE c_on(struct connection_t *c) { VF_ENSURES(c == vf_c && vf_on == 0 && vf_sck == 0 && c->status == STATUS_OPEN, "called once, while the socket is open"); vf_on++; return 0; }
int c_closefd(int fd) { VF_ENSURES(fd == vf_c->socket_handle && vf_sck == 0 && vf_removed == 2, "the socket is closed once, after polling ended"); vf_sck++; return 0; }
int c_sslshut(SSL *s) { VF_ENSURES(s == vf_h && vf_ssl == 0 && vf_sck == 0, "secure end before the socket"); vf_ssl = 1; return 0; }
void c_sslfree(SSL *s) { VF_ENSURES(s == vf_h && vf_ssl == 1, "released once"); vf_ssl = 2; }
static void a_serv(void) { a_conn(); vf_added = vf_removed = vf_on = vf_sck = vf_ssl = 0; vf_s = __CPROVER_allocate(sizeof(struct service_t), 0); vf_p = __CPROVER_allocate(sizeof(struct polling_t), 0); vf_c->service = vf_s; vf_s->polling = vf_p; vf_s->connections_list = vf_q; vf_p->register_connection = c_preg; vf_p->unregister_connection = c_punreg; vf_h = nondet_u8() & 1 ? NULL : __CPROVER_allocate(1, 0); vf_c->ssl_handle = vf_h; }
void u_open(void) {
  a_serv(); int was = nondet_u8() & 1, h = nondet_u8() & 1; vf_c->status = was ? STATUS_OPEN : nondet_u8() & 1 ? STATUS_CLOSED : STATUS_HANDSHAKE; vf_c->on_open = h ? c_on : NULL; open_connection(vf_c);
  VF_ENSURES(vf_c->status == STATUS_OPEN && vf_added == (was ? 0 : 2) && vf_on == (h && !was), "an open connection is polled once"); if(was) VF_REACH("again"); else VF_REACH("opened");
}
void u_close(void) {
  a_serv(); int was = nondet_u8() & 1, h = nondet_u8() & 1; vf_c->status = was ? STATUS_CLOSED : STATUS_OPEN; vf_c->on_close = h ? c_on : NULL; close_connection(vf_c);
  VF_ENSURES(vf_c->status == STATUS_CLOSED && vf_removed == (was ? 0 : 2) && vf_on == (h && !was) && vf_sck == (was ? 0 : 1) && vf_ssl == (vf_h && !was ? 2 : 0), "a connection is closed once");
  if(!was) VF_ENSURES(vf_c->close_connection == NULL && vf_c->register_write == NULL && vf_c->unregister_write == NULL && vf_c->invalidate_write == NULL && vf_c->register_read == NULL && vf_c->unregister_read == NULL && vf_c->invalidate_read == NULL && vf_c->add_outstanding == NULL && vf_c->ssl_handle == NULL, "nothing of a closed connection is called"); if(was) VF_REACH("again"); else VF_REACH("closed");
}
/* ---- the flags seen by the polling ---- */
int vf_pr; ERROR_CODE c_pw(struct polling_t *p, struct connection_t *c) { VF_ENSURES(p == vf_p && c == vf_c && vf_pr == 0, "polling"); vf_pr = 1; return 0; } ERROR_CODE c_pu(struct polling_t *p, struct connection_t *c) { VF_ENSURES(p == vf_p && c == vf_c && vf_pr == 0, "polling"); vf_pr = 2; return 0; }
void u_reg(void) {
  a_serv(); vf_pr = 0; unsigned k = nondet_uint() % 6; vf_p->register_write = k == 0 ? c_pw : NULL; vf_p->unregister_write = k == 1 ? c_pu : NULL; vf_p->register_read = k == 2 ? c_pw : NULL; vf_p->unregister_read = k == 3 ? c_pu : NULL; vf_p->add_outstanding = k == 5 ? c_pw : NULL;
  if(k == 0) { register_write_connection(vf_c); VF_ENSURES(vf_pr == 1 && vf_c->write_registered, "writing is polled"); } else if(k == 1) { unregister_write_connection(vf_c); VF_ENSURES(vf_pr == 2 && !vf_c->write_registered, "writing is no longer polled"); }
  else if(k == 2) { register_read_connection(vf_c); VF_ENSURES(vf_pr == 1 && vf_c->read_registered, "reading is polled"); } else if(k == 3) { unregister_read_connection(vf_c); VF_ENSURES(vf_pr == 2 && !vf_c->read_registered, "reading is no longer polled"); }
  else if(k == 4) { invalidate_write_connection(vf_c); VF_ENSURES(!vf_c->write_valid, "the socket is full"); } else { add_outstanding_connection(vf_c); VF_ENSURES(vf_pr == 1, "continued later"); } VF_REACH("flags");
}
#endif
