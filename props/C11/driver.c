#include "io_drive.h"
/* blocks of random sizes are queued at random times over a socket that takes a random part of them */
struct blk { size_t at, n; int told, own; unsigned k; }; static struct blk *B[400]; static unsigned nb, told, seed; static uint8_t *exp_; static size_t en, ecap; static int more, closing, dead; static vf_in *I;
static uint8_t shared[5000];
static ERROR_CODE sent(struct connection_t *c, struct data_t *d, void *p);
static void queue(unsigned b) {
    static const size_t sz[8] = {0, 1, 2, 50, 700, 4096, 5000, 70000}; if(nb == 400) return; struct blk *k = malloc(sizeof(struct blk)); k->at = en; k->n = sz[b & 7]; k->told = 0; k->k = nb; k->own = !(b & 8) || k->n > sizeof(shared); size_t i; uint8_t *p;
    if(k->own) { void *q; io_c->alloc_data(io_c, k->n, &q); p = q; for(i = 0; i < k->n; i++) p[i] = seed * 31 + i * 7 + (i >> 8); seed++; } else p = shared;
    if(en + k->n > ecap) exp_ = realloc(exp_, ecap = (en + k->n) * 2 + 64); memcpy(exp_ + en, p, k->n); en += k->n; B[nb++] = k;
    connection_data_callback cb = b & 16 ? NULL : sent; if(cb == NULL) k->told = 1; if(k->own) io_c->write_connection(io_c, p, k->n, cb, k); else write_connection_c(io_c, p, k->n, cb, k, FALSE); CHECK(io_wreg, "queued data is written");
}
static ERROR_CODE sent(struct connection_t *c, struct data_t *d, void *p) {
    struct blk *k = p; unsigned i; CHECK(c == io_c && c->status == STATUS_OPEN && !k->told, "the sender is told once"); CHECK(io_txn == k->at + k->n, "after the last byte of its block"); CHECK(d->callback_parameters == p && d->size_base == k->n && (k->n == 0 || memcmp(d->data_base, exp_ + k->at, k->n) == 0), "the block"); k->told = 1; for(i = 0; i < k->k; i++) CHECK(B[i]->told, "in the order queued");
    if(more) { more--; queue(vf_left(I) ? vf_byte(I) : 3); } if(closing && --closing == 0) { c->close_connection(c); } return 0;
}
static void writable(void) { if(io_c->status != STATUS_OPEN || !io_c->write_registered) return; CHECK(io_wreg, "polled"); io_c->on_write(io_c); }
static void drive(vf_in *in) {
    unsigned i, m = vf_byte(in); I = in; nb = en = seed = more = closing = 0; dead = 0; io_start(); for(i = 0; i < sizeof(shared); i++) shared[i] = i * 13 + (i >> 7); io_c->open_connection(io_c); if(m & 1) closing = 1 + (m >> 1) % 4;
    while(vf_left(in) > 0 && io_c->status == STATUS_OPEN) { unsigned b = vf_byte(in); static const size_t rm[8] = {0, 1, 40, 699, 4096, 9000, 70000, 300000};
        switch(b & 3) { case 0: queue(b >> 2); break; case 1: if(b & 4) more = 1 + (b >> 6); queue(b >> 3); break; case 2: io_room = rm[(b >> 2) & 7]; io_txchunk = b & 64 ? 33 : (size_t) -1; writable(); break; default: io_room = rm[(b >> 2) & 7]; writable(); }
        CHECK(io_txn <= en && (io_txn == 0 || memcmp(io_tx, exp_, io_txn) == 0), "the bytes sent are the bytes queued"); for(i = 0; i < nb; i++) CHECK((B[i]->at + B[i]->n > io_txn) || B[i]->told || io_c->status == STATUS_CLOSED || B[i]->n == 0 || io_wreg, "told"); }
    if((m & 0xe0) == 0xe0 && io_c->status == STATUS_OPEN && nb && io_wreg) { io_fail = 1; writable(); CHECK(io_c->status == STATUS_CLOSED, "an error closes the connection"); io_fail = 0; }
    else if((m & 0xe0) != 0xc0) { unsigned g = 0; io_room = io_txchunk = (size_t) -1; if(vf_left(in) == 0) more = 0; while(io_c->status == STATUS_OPEN && io_wreg && g++ < 1000) writable(); if(io_c->status == STATUS_OPEN) { CHECK(io_txn == en, "everything queued is sent"); for(i = 0; i < nb; i++) CHECK(B[i]->told, "every sender is told"); CHECK(io_c->write_queue->size == 0 && !io_c->write_registered, "idle"); } }
    CHECK(io_txn <= en && (io_txn == 0 || memcmp(io_tx, exp_, io_txn) == 0), "the bytes sent are the bytes queued"); io_stop(); for(i = 0; i < nb; i++) free(B[i]); NONTRIVIAL();
}
void vf_scenario(vf_in *in) { drive(in); }
void vf_fixed(void) { unsigned m, s; uint8_t b[64]; for(m = 0; m < 256; m++) for(s = 0; s < 40; s++) { unsigned i; for(i = 0; i < 64; i++) b[i] = (uint8_t) (i * (s * 2 + 1) * 37 + s * 11 + (i >> 2) * m); b[0] = m; vf_in in = {b, s < 20 ? 16 : 64, 0}; drive(&in); } }
