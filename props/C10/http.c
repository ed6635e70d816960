#include "vf_proof.h"
/* Contract of the HTTP stream layer: the buffer of a connection always holds the last vf_off bytes of the received stream
 * (vf_base is the stream position of its first byte), and the parser is given exactly the bytes it has not processed yet,
 * once and in order. The byte at one arbitrary stream position vf_x has the value vf_b. The marks of the parser are
 * positions in the buffer (vf_fo, vf_vo, vf_uo; vf_fm.. tell whether they are set). */
struct http_connection_t; struct http_handler_t;
size_t vf_base, vf_total, vf_proc, vf_x, vf_fo, vf_vo, vf_uo, vf_in_n; unsigned char vf_b, vf_fm, vf_vm, vf_um; unsigned char *vf_buf, *vf_in; struct http_handler_t *vf_h; struct http_connection_t *vf_hc;
size_t vf_size, vf_proc0; int vf_lock0, vf_idle; int vf_done, vf_closed, vf_failed, vf_live, vf_grown, vf_calls, vf_last0;
#define MARK(set, off) ((set) ? vf_buf + (off) : (unsigned char *) NULL)
#define MARKS(P) ((P)->header_field_mark == MARK(vf_fm, vf_fo) && (P)->header_value_mark == MARK(vf_vm, vf_vo) && (P)->url_mark == MARK(vf_um, vf_uo))
#define WITNESS(buf, off) ((vf_x >= vf_base && vf_x < vf_base + (off)) ==> (buf)[vf_x - vf_base] == vf_b)
#define FRESH(P) ((P)->state == STATE_START_REQ && (P)->header_state == 0 && (P)->read_count == 0 && (P)->content_length == -1 && (P)->flags == 6 && (P)->upgrade == 0 && (P)->_content_length == 0 && (P)->header_field_mark == NULL && (P)->header_value_mark == NULL && (P)->url_mark == NULL)
#define HC http_connection
#define PS http_connection->http_parser
#define VF_GHOST_http_data
#define VF_LOOP_http_data ASSIGNS(processed_size, _read, _read_size, http_handler, HC->http_handler, HC->buffer, HC->buffer_size, HC->buffer_offset, HC->read_offset, HC->lock, *PS, vf_base, vf_proc, vf_fo, vf_vo, vf_uo, vf_fm, vf_vm, vf_um, vf_done, vf_closed, vf_failed, vf_live, vf_calls, vf_last0) \
  INV(!vf_closed && !vf_failed && !vf_last0 && HC->lock <= 1 && vf_fm <= 1 && vf_vm <= 1 && vf_um <= 1) INV(vf_live ? (HC->buffer == vf_buf && HC->buffer_size == vf_size && HC->read_offset <= HC->buffer_offset && HC->buffer_offset <= HC->buffer_size) : (HC->buffer == NULL && HC->buffer_size == 0 && HC->buffer_offset == 0 && HC->read_offset == 0)) \
  INV(vf_base + HC->buffer_offset == vf_total && vf_base + HC->read_offset == vf_proc && vf_base <= vf_total) INV(vf_live ? MARKS(PS) : FRESH(PS)) INV(vf_fo <= vf_size && vf_vo <= vf_size && vf_uo <= vf_size) INV(vf_done ==> FRESH(PS)) INV(vf_live ==> WITNESS(vf_buf, vf_total - vf_base)) INV(vf_calls > 0 || (vf_calls == 0 && HC->lock == vf_lock0 && vf_proc == vf_proc0)) INV(vf_lock0 ==> vf_calls == 0) INV(HC->http_handler == NULL || HC->http_handler == vf_h) DECR(vf_total - vf_proc)
#include "vf_defaults.h"
#include "stream/stream_http.c"
struct http_parser_t *vf_ps; struct connection_t *vf_c; struct io_connection_t *vf_io;
void *c_malloc(size_t n) { VF_ENSURES(!vf_live, "one buffer"); vf_buf = __CPROVER_allocate(n, 0); vf_live = 1; vf_size = n; return vf_buf; }
/* contract of the C library: the contents are kept, the address may change */
static void rewound(void);
void *c_realloc(void *p, size_t n) {
  rewound();
  VF_ENSURES(vf_live && p == vf_buf && !vf_grown, "the buffer is grown"); VF_ENSURES(n >= vf_size, "the buffer never shrinks"); vf_grown = 1; unsigned char *o = vf_buf, *q = __CPROVER_allocate(n, 0); size_t off = vf_hc->buffer_offset;
  if(vf_x >= vf_base && vf_x < vf_base + off) q[vf_x - vf_base] = o[vf_x - vf_base];
  vf_buf = q; vf_size = n; return q;
}
void c_free(void *p) { VF_ENSURES(vf_live && p == vf_buf, "the buffer is released once"); VF_ENSURES(vf_proc == vf_total, "no unprocessed byte is dropped"); vf_live = 0; vf_base = vf_total; }
/* the space of handled messages is used again: seen at the first use of the buffer */
static void rewound(void) { if(vf_idle) { VF_ENSURES(vf_hc->buffer_offset == 0 && vf_hc->read_offset == 0, "the space of handled messages is used again"); vf_idle = 0; vf_base = vf_total; vf_fm = vf_vm = vf_um = 0; } }
void *c_memcpy(void *d, const void *s, size_t n) {
  rewound(); size_t off = vf_hc->buffer_offset; VF_ENSURES(vf_live && d == vf_buf + off && s == vf_in && n == vf_in_n, "the data is appended"); VF_ENSURES(off <= vf_size && n <= vf_size - off, "the data fits in the buffer");
  if(vf_x >= vf_total && vf_x < vf_total + n) ((unsigned char *) d)[vf_x - vf_total] = ((const unsigned char *) s)[vf_x - vf_total];
  vf_total += n; return d;
}
/* contract of process_data_http_parser (C01): it refuses the data or processes part of it, its marks stay in the received data */
int c_process(struct http_parser_t *p, struct http_settings_t *s, unsigned char *data, size_t size) {
  VF_ENSURES(!vf_closed && !vf_failed && p == vf_ps, "the parser of an open connection"); VF_ENSURES(!vf_hc->lock, "a locked connection is not processed"); VF_ENSURES(vf_hc->http_handler == vf_h, "the handler is set first");
  VF_ENSURES(vf_live && size > 0 && data == vf_buf + (vf_proc - vf_base) && size == vf_total - vf_proc, "exactly the unprocessed bytes");
  VF_ENSURES((vf_x >= vf_proc && vf_x < vf_total) ==> data[vf_x - vf_proc] == vf_b, "the bytes received, in order"); VF_ENSURES(WITNESS(vf_buf, vf_total - vf_base), "the text before is still in place"); VF_ENSURES(MARKS(p), "the marks still point to the same text");
  VF_ENSURES(vf_done ==> FRESH(p), "every message starts with a fresh parser"); if(vf_calls < 2) vf_calls++;
  int r = nondet_int(); VF_ASSUME(r >= -1 && (r < 0 || (size_t) r <= size)); if(r < 0) { vf_failed = 1; return r; }
  vf_proc += r; vf_last0 = r == 0; vf_done = r > 0 && (nondet_u8() & 1);
  struct http_parser_t nd; nd.parameters = p->parameters; *p = nd; VF_ASSUME((p->state == STATE_START_RES) == vf_done); vf_hc->lock = nondet_u8() & 1; if(nondet_u8() & 1) vf_hc->http_handler = NULL;
  vf_fm = nondet_u8() & 1; vf_vm = nondet_u8() & 1; vf_um = nondet_u8() & 1; vf_fo = nondet_size(); vf_vo = nondet_size(); vf_uo = nondet_size(); VF_ASSUME(vf_fo <= vf_proc - vf_base && vf_vo <= vf_proc - vf_base && vf_uo <= vf_proc - vf_base);
  p->header_field_mark = MARK(vf_fm, vf_fo); p->header_value_mark = MARK(vf_vm, vf_vo); p->url_mark = MARK(vf_um, vf_uo);
  if(vf_done) { vf_fm = vf_vm = vf_um = 0; } /* the reset below clears them */
  return r;
}
ERROR_CODE c_set(struct http_connection_t *h) { VF_ENSURES(h == vf_hc && h->http_handler == NULL, "the base handler is set when there is none"); return 0; }
/* closing the connection releases the HTTP connection (close_handler_stream_http) */
ERROR_CODE c_close(struct connection_t *c) { VF_ENSURES(c == vf_c && vf_failed && !vf_closed, "the connection is closed once, after refused data"); vf_closed = 1; vf_io->lower = NULL; __CPROVER_deallocate(vf_hc); return 0; }
void u_data(void) {
  struct http_connection_t *h = __CPROVER_allocate(sizeof(struct http_connection_t), 0); struct http_parser_t ps; struct connection_t c; struct io_connection_t io; struct http_handler_t hd;
  vf_hc = h; vf_ps = &ps; vf_c = &c; vf_io = &io; vf_h = &hd; io.connection = &c; io.lower = h; c.close_connection = c_close; hd.set = c_set; h->http_parser = &ps; h->base_handler = &hd; h->io_connection = &io; h->http_handler = nondet_u8() & 1 ? &hd : NULL; h->lock = nondet_u8() & 1;
  vf_done = vf_closed = vf_failed = vf_grown = vf_calls = vf_last0 = 0; vf_live = nondet_u8() & 1; vf_base = nondet_size(); vf_x = nondet_size(); vf_b = nondet_u8(); VF_REQUIRES(vf_base < VF_MAX); vf_fm = nondet_u8() & 1; vf_vm = nondet_u8() & 1; vf_um = nondet_u8() & 1; vf_fo = nondet_size(); vf_vo = nondet_size(); vf_uo = nondet_size();
  if(vf_live) {
    h->buffer_size = nondet_size(); h->buffer_offset = nondet_size(); h->read_offset = nondet_size(); VF_REQUIRES(h->buffer_size < (VF_MAX >> 4) && h->buffer_offset <= h->buffer_size && h->read_offset <= h->buffer_offset); vf_size = h->buffer_size; vf_buf = __CPROVER_allocate(vf_size, 0); h->buffer = vf_buf;
    VF_REQUIRES(vf_fo <= h->read_offset && vf_vo <= h->read_offset && vf_uo <= h->read_offset); VF_REQUIRES(WITNESS(vf_buf, h->buffer_offset));
  } else { h->buffer = NULL; h->buffer_size = h->buffer_offset = h->read_offset = 0; vf_buf = NULL; vf_size = 0; vf_fm = vf_vm = vf_um = 0; vf_fo = vf_vo = vf_uo = 0; ps.state = STATE_START_REQ; ps.header_state = 0; ps.read_count = 0; ps.content_length = -1; ps.flags = 6; ps.upgrade = 0; ps._content_length = 0; }
  ps.header_field_mark = MARK(vf_fm, vf_fo); ps.header_value_mark = MARK(vf_vm, vf_vo); ps.url_mark = MARK(vf_um, vf_uo);
  vf_total = vf_base + h->buffer_offset; vf_proc = vf_base + h->read_offset;
  size_t n = nondet_size(), total0 = vf_total; VF_REQUIRES(n < (VF_MAX >> 4)); vf_in_n = n; vf_in = nondet_u8() & 1 ? __CPROVER_allocate(n, 0) : NULL; VF_REQUIRES(vf_in != NULL || n == 0); if(vf_x >= vf_total && vf_x < vf_total + n) VF_REQUIRES(vf_in[vf_x - vf_total] == vf_b);
  vf_lock0 = h->lock; vf_proc0 = vf_proc; int lock0 = h->lock, pending = vf_total + n > vf_proc;
  vf_idle = !vf_lock0 && ps.state == STATE_START_REQ && vf_proc == vf_total;
  data_handler_stream_http(&io, vf_in, n);
  VF_ENSURES(vf_total == total0 + n, "all the data is buffered"); VF_ENSURES(vf_closed == vf_failed, "refused data closes the connection"); VF_ENSURES(lock0 ==> vf_calls == 0, "a locked connection only buffers");
  VF_ENSURES(!lock0 && pending ==> vf_calls > 0, "data is processed as soon as it is received");
  if(!vf_closed) {
    VF_ENSURES(vf_base + h->buffer_offset == vf_total && vf_base + h->read_offset == vf_proc && h->read_offset <= h->buffer_offset && h->buffer_offset <= h->buffer_size, "buffer and stream agree"); VF_ENSURES(h->buffer == (vf_live ? vf_buf : NULL) && h->buffer_size == (vf_live ? vf_size : 0), "buffer");
    VF_ENSURES(h->lock || vf_proc == vf_total || vf_last0, "everything is processed unless the connection is locked"); VF_ENSURES(vf_live ==> WITNESS(vf_buf, h->buffer_offset), "the buffered text is the stream"); VF_ENSURES(vf_live ? MARKS(&ps) : FRESH(&ps), "parser state");
    VF_REACH("data");
  } else VF_REACH("closed");
}
ERROR_CODE c_ondata(struct io_connection_t *io, unsigned char *b, size_t n) { VF_ENSURES(io == vf_io && b == NULL && n == 0 && vf_hc->lock == 0, "processing resumes"); vf_calls++; return 0; }
void u_lock(void) {
  struct http_connection_t h; struct io_connection_t io; vf_hc = &h; vf_io = &io; h.io_connection = &io; io.on_data = c_ondata; h.lock = nondet_u8() & 1; vf_calls = 0; int l = h.lock; unsigned char *b = h.buffer; size_t s = h.buffer_size, o = h.buffer_offset, r = h.read_offset;
  if(nondet_u8() & 1) { acquire_http_connection(&h); VF_ENSURES(h.lock == 1 && vf_calls == 0, "locked"); VF_REACH("acquired"); } else { release_http_connection(&h); VF_ENSURES(h.lock == 0 && vf_calls == l, "pending messages are processed when the lock is released"); VF_REACH("released"); }
  VF_ENSURES(h.buffer == b && h.buffer_size == s && h.buffer_offset == o && h.read_offset == r, "frame");
}
