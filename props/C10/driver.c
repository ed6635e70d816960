#include "io_drive.h"
/* the requests sent and the requests seen, as text */
static char *exp_, *got; static size_t en, gn, ecap, gcap; static int locked, hset, want_lock, begun, bodyopen;
static void put(char **p, size_t *n, size_t *cap, const void *d, size_t k) { if(*n + k > *cap) *p = realloc(*p, *cap = (*n + k) * 2 + 64); memcpy(*p + *n, d, k); *n += k; }
#define EXP(d, k) put(&exp_, &en, &ecap, d, k)
#define GOT(d, k) put(&got, &gn, &gcap, d, k)
static void used(struct http_parser_t *p) { CHECK(!locked, "a locked connection handles no message"); CHECK(p->parameters == io_c && io_c->status == STATUS_OPEN, "open connection"); CHECK(hset, "the handler is set"); }
static ERROR_CODE on_begin(struct http_parser_t *p) { used(p); GOT("[", 1); bodyopen = 0; return 0; }
static ERROR_CODE on_url(struct http_parser_t *p, const unsigned char *d, size_t n) { used(p); GOT("U", 1); GOT(d, n); return 0; }
static ERROR_CODE on_field(struct http_parser_t *p, const unsigned char *d, size_t n) { used(p); GOT("F", 1); GOT(d, n); return 0; }
static ERROR_CODE on_value(struct http_parser_t *p, const unsigned char *d, size_t n) { used(p); GOT("V", 1); GOT(d, n); return 0; }
static ERROR_CODE on_body(struct http_parser_t *p, const unsigned char *d, size_t n) { used(p); if(!bodyopen) GOT("B", 1); bodyopen = 1; GOT(d, n); return 0; }
static ERROR_CODE on_end(struct http_parser_t *p) { used(p); GOT("]", 1); struct http_connection_t *h = ((struct io_connection_t *) io_c->lower)->lower; if(want_lock) { h->acquire(h); locked = 1; } return 0; }
static ERROR_CODE h_set(struct http_connection_t *h) {
    CHECK(!hset, "set once"); hset = 1; struct http_settings_t *s = h->http_settings; s->on_message_begin = on_begin; s->on_url = on_url; s->on_header_field = on_field; s->on_header_value = on_value; s->on_body = on_body; s->on_message_complete = on_end; return 0; }
static ERROR_CODE h_unset(struct http_connection_t *h) { hset = 0; return 0; }
static struct http_handler_t handler;
static char *T; static size_t Tn, Tcap;
#define TX(d, k) put(&T, &Tn, &Tcap, d, k)
static void fill(char *b, size_t n, unsigned s) { size_t i; for(i = 0; i < n; i++) b[i] = 'a' + (s + i * 7 + i / 26) % 26; }
static const size_t lens[8] = {1, 2, 7, 60, 300, 4090, 9000, 17000};
static void request(vf_in *in, unsigned seed) {
    static char b[20000]; unsigned f = vf_byte(in), k, hs = vf_byte(in) % 6; char num[80]; size_t n = lens[f & 7];
    const char *m = f & 8 ? "POST" : "GET"; int chunked = (f & 8) && (f & 16); if(f & 32) { TX("\r\n", 2); }
    b[0] = '/'; fill(b + 1, n, seed); TX(m, strlen(m)); TX(" ", 1); TX(b, n + 1); TX(" HTTP/1.1\r\n", 11); EXP("[U", 2); EXP(b, n + 1);
    for(k = 0; k < hs; k++) { unsigned l = vf_byte(in); size_t fl = 1 + l % 12, vl = lens[l >> 5]; b[0] = 'X'; fill(b + 1, fl, seed + k); TX(b, fl + 1); TX(": ", 2); EXP("F", 1); EXP(b, fl + 1); fill(b, vl, l); TX(b, vl); TX("\r\n", 2); EXP("V", 1); EXP(b, vl); }
    if(f & 8) { unsigned l = vf_byte(in); size_t bl = l & 128 ? lens[l & 7] : l & 63;
        if(chunked) { TX("Transfer-Encoding: chunked\r\n\r\n", 30); EXP("FTransfer-EncodingVchunked", 26); size_t at = 0, c = 1 + (l >> 3) * 37; fill(b, bl, l); if(bl) EXP("B", 1); EXP(b, bl);
            while(at < bl) { size_t q = bl - at < c ? bl - at : c; sprintf(num, "%zx\r\n", q); TX(num, strlen(num)); TX(b + at, q); TX("\r\n", 2); at += q; } TX("0\r\n\r\n", 5); }
        else { sprintf(num, "Content-Length: %zu\r\n\r\n", bl); TX(num, strlen(num)); sprintf(num, "FContent-LengthV%zu", bl); EXP(num, strlen(num)); fill(b, bl, l); TX(b, bl); if(bl) EXP("B", 1); EXP(b, bl); } }
    else TX("\r\n", 2);
    EXP("]", 1);
}
static void unlock(void) { if(!locked || io_c->status != STATUS_OPEN) return; struct http_connection_t *h = ((struct io_connection_t *) io_c->lower)->lower; locked = 0; h->release(h); }
static void readable(void) { if(io_c->status != STATUS_OPEN) return; do { io_outstanding = 0; io_c->on_read(io_c); } while(io_outstanding && io_c->status == STATUS_OPEN); }
static void drive(vf_in *in, unsigned mode) {
    io_start(); memset(&handler, 0, sizeof(handler)); handler.set = h_set; handler.unset = h_unset; io_service.http_handler = &handler; gn = en = Tn = 0; locked = hset = 0; want_lock = mode & 1;
    unsigned k, nreq = 1 + (mode >> 1) % 4; for(k = 0; k < nreq; k++) request(in, k * 5 + mode); int bad = (mode & 0xe0) == 0xe0; if(bad) { TX("?? \x01/bad\r\n\r\n", 12); }
    io_rx = (uint8_t *) T; io_rxn = Tn; io_c->open_connection(io_c); CHECK(io_open == 1 && io_c->status == STATUS_OPEN, "open");
    while(vf_left(in) > 0 && io_c->status == STATUS_OPEN) { unsigned b = vf_byte(in); if((b & 3) == 3) unlock(); else { static const size_t sz[8] = {1, 3, 17, 200, 1500, 4096, 9000, 40000}; io_avail = sz[b >> 5]; io_chunk = b & 4 ? (b & 8 ? 5000 : 7) : (size_t) -1; readable(); if(io_c->status == STATUS_OPEN && !locked) { struct http_connection_t *h = ((struct io_connection_t *) io_c->lower)->lower; CHECK(h->read_offset == h->buffer_offset, "everything received is processed"); } } }
    io_chunk = (size_t) -1; if(mode & 16) io_eof = 1;
    for(k = 0; k < nreq + 3; k++) { io_avail = (size_t) -1; readable(); if(io_c->status == STATUS_OPEN && !locked) { struct http_connection_t *h = ((struct io_connection_t *) io_c->lower)->lower; CHECK(h->buffer == NULL || h->buffer_size < (1u << 26), "buffer"); } if(!io_eof) unlock(); else break; }
    if(bad && !io_eof) CHECK(io_c->status == STATUS_CLOSED, "refused data closes the connection");
    if(io_eof) { CHECK(io_c->status == STATUS_CLOSED, "the end of the stream closes the connection"); CHECK(bad || io_rxi == io_rxn, "all received"); }
    if(!bad && !(io_eof && want_lock)) { CHECK(gn == en && memcmp(got, exp_, en) == 0, "the requests handled are the requests sent"); if(io_c->status == STATUS_OPEN) { struct http_connection_t *h = ((struct io_connection_t *) io_c->lower)->lower; CHECK(h->buffer_size <= Tn + (3u << 20), "the buffer does not outgrow the requests"); if(!locked) { h->io_connection->on_data(h->io_connection, NULL, 0); CHECK(h->buffer_offset == 0 && h->read_offset == 0, "the space of handled messages is used again"); } } }
    else { size_t n = gn < en ? gn : en; CHECK(memcmp(got, exp_, n) == 0, "the requests handled are the first ones sent"); if(bad && !io_eof) CHECK(gn >= en, "every request before the refused data is handled"); }
    io_stop(); NONTRIVIAL();
}
void vf_scenario(vf_in *in) { unsigned m = vf_byte(in); drive(in, m); }
void vf_fixed(void) { unsigned m, s; uint8_t b[64]; for(m = 0; m < 256; m++) for(s = 0; s < 24; s++) { unsigned i; for(i = 0; i < 64; i++) b[i] = (uint8_t) (i * (s * 2 + 1) * 41 + s * 19 + (i >> 2) * m); vf_in in = {b, s < 12 ? 20 : 64, 0}; drive(&in, m); } }
