/* One connection of the real service (system/service.c, stream_io.c) over a scripted socket; polling is recorded. */
#include "vf_driver.h"
#include <errno.h>
#include "stdafx.h"
#include "http/http.h"
#include "stream/stream.h"
#include "system/system.h"
static struct service_t io_service; static struct polling_t io_polling; static struct connection_t *io_c;
static int io_open, io_unreg, io_wreg, io_outstanding, io_fail, io_sslmode;
static const uint8_t *io_rx; static size_t io_rxn, io_rxi, io_avail, io_chunk; static int io_eof;
static uint8_t *io_tx; static size_t io_txn, io_txcap, io_room, io_txchunk;
ssize_t vf_recv(int fd, void *b, size_t n, int f) {
    CHECK(io_c->status == STATUS_OPEN && fd == -1, "only an open connection is read"); CHECK(n > 0, "read size");
    size_t k = io_rxn - io_rxi; if(k == 0 && io_eof) return 0; if(io_fail) { errno = ECONNRESET; return -1; } if(k > io_avail) k = io_avail; if(k > io_chunk) k = io_chunk; if(k > n) k = n; if(k == 0) { errno = EWOULDBLOCK; return -1; }
    memcpy(b, io_rx + io_rxi, k); io_rxi += k; io_avail -= k; return k;
}
ssize_t vf_send(int fd, const void *b, size_t n, int f) {
    CHECK(io_c->status == STATUS_OPEN && fd == -1, "only an open connection is written");
    if(io_fail) { errno = EPIPE; return -1; } size_t k = n < io_room ? n : io_room; if(k > io_txchunk) k = io_txchunk; if(k == 0 && n > 0) { errno = EWOULDBLOCK; return -1; }
    if(io_txn + k > io_txcap) io_tx = realloc(io_tx, io_txcap = (io_txn + k) * 2 + 64); memcpy(io_tx + io_txn, b, k); io_txn += k; io_room -= k; return k;
}
static ERROR_CODE io_reg(struct polling_t *p, struct connection_t *c) { CHECK(p == &io_polling && c == io_c, "registered"); io_open++; return 0; }
static ERROR_CODE io_unregister(struct polling_t *p, struct connection_t *c, unsigned char remove) { CHECK(c == io_c && remove == TRUE && io_unreg == 0, "removed once"); io_unreg++; return 0; }
static ERROR_CODE io_nop(struct polling_t *p, struct connection_t *c) { CHECK(c == io_c && !io_unreg, "open"); return 0; }
static ERROR_CODE io_wr(struct polling_t *p, struct connection_t *c) { CHECK(c == io_c && !io_unreg, "open"); io_wreg = 1; return 0; }
static ERROR_CODE io_unwr(struct polling_t *p, struct connection_t *c) { CHECK(c == io_c && !io_unreg, "open"); io_wreg = 0; return 0; }
static ERROR_CODE io_outst(struct polling_t *p, struct connection_t *c) { CHECK(c == io_c && !io_unreg, "open"); io_outstanding = 1; return 0; }
static void io_start(void) {
    memset(&io_service, 0, sizeof(io_service)); memset(&io_polling, 0, sizeof(io_polling)); io_open = io_unreg = io_wreg = io_outstanding = io_fail = io_eof = 0; io_rxi = io_rxn = io_avail = io_txn = 0; io_chunk = io_room = io_txchunk = (size_t) -1;
    io_polling.register_connection = io_reg; io_polling.unregister_connection = io_unregister; io_polling.register_read = io_polling.unregister_read = io_nop; io_polling.register_write = io_wr; io_polling.unregister_write = io_unwr; io_polling.add_outstanding = io_outst;
    io_service.polling = &io_polling; create_linked_list(&io_service.connections_list); create_connection(&io_c, -1); struct connection_t *c = io_c; c->service = &io_service;
    c->open_connection = open_connection; c->close_connection = close_connection; c->write_connection = write_connection; c->register_read = register_read_connection; c->unregister_read = unregister_read_connection; c->register_write = register_write_connection; c->unregister_write = unregister_write_connection;
    c->invalidate_read = invalidate_read_connection; c->invalidate_write = invalidate_write_connection; c->add_outstanding = add_outstanding_connection;
    c->on_read = read_handler_stream_io; c->on_write = write_handler_stream_io; c->on_error = error_handler_stream_io; c->on_open = open_handler_stream_io; c->on_close = close_handler_stream_io;
}
static void io_stop(void) { close_connection(io_c); CHECK(io_unreg == 1 && io_service.connections_list->size == 0, "removed from the service"); close_connection(io_c); CHECK(io_unreg == 1, "closed once"); delete_connection(io_c); delete_linked_list(io_service.connections_list); }
