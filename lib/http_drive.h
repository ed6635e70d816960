/* driver for the HTTP parser: feeds text in segments the way the server does (contiguous buffer,
 * what a call leaves unprocessed is given again) and records the events */
#include "vf_driver.h"
#include "stdafx.h"
#include "http/http_parser.h"
typedef struct { char *b; size_t n, cap; } sb;
static void sb_add(sb *s, const void *p, size_t n) { if(s->n + n + 1 > s->cap) { s->cap = (s->n + n + 64) * 2; s->b = realloc(s->b, s->cap); } memcpy(s->b + s->n, p, n); s->n += n; s->b[s->n] = 0; }
static void sb_str(sb *s, const char *p) { sb_add(s, p, strlen(p)); }
static struct { sb log; char last; const uint8_t *buf; size_t total, pos, seg, body, done, began; unsigned answer; int in_call; size_t call_body; size_t call_done; } H;
static void ev(char k, const void *p, size_t n) {
    if(k == 'B' && H.last == 'B') { sb_add(&H.log, p, n); return; }
    char h[2] = { '\n', k }; sb_add(&H.log, h, 2); if(n) sb_add(&H.log, p, n); H.last = k;
}
static void span(const unsigned char *at, size_t n) { CHECK(at >= H.buf && n <= H.total && (size_t) (at - H.buf) <= H.pos + H.seg && (size_t) (at - H.buf) + n <= H.pos + H.seg, "callback span outside the received data"); }
static ERROR_CODE d_begin(struct http_parser_t *p) { H.began++; ev('M', "", 0); return 0; }
static ERROR_CODE d_line(struct http_parser_t *p) { ev('L', "", 0); return 0; }
static ERROR_CODE d_done(struct http_parser_t *p) { char t[64]; sprintf(t, "%d.%d m%d s%d", p->http_major, p->http_minor, p->method, p->status_code); H.done++; H.call_done++; CHECK(H.call_done <= 1, "two messages end in one call"); ev('D', t, strlen(t)); return 0; }
static ERROR_CODE d_headers(struct http_parser_t *p) { ev('H', "", 0); return H.answer; }
static ERROR_CODE d_url(struct http_parser_t *p, const unsigned char *a, size_t n) { span(a, n); ev('U', a, n); return 0; }
static ERROR_CODE d_field(struct http_parser_t *p, const unsigned char *a, size_t n) { span(a, n); ev('F', a, n); return 0; }
static ERROR_CODE d_value(struct http_parser_t *p, const unsigned char *a, size_t n) { span(a, n); ev('V', a, n); return 0; }
static ERROR_CODE d_body(struct http_parser_t *p, const unsigned char *a, size_t n) { span(a, n); CHECK(a >= H.buf + H.pos, "body outside the segment"); H.body += n; H.call_body += n; ev('B', a, n); return 0; }
/* returns -1 when the parser refuses, otherwise the number of bytes processed; the log is in H.log */
static int feed(const uint8_t *text, size_t n, int request, unsigned answer, const size_t *cuts, size_t nc) {
    struct http_parser_t *p; struct http_settings_t *s; size_t pos = 0, c = 0; int r = 0;
    create_http_parser(&p, (char) request); create_http_settings(&s); p->index = 0;
    s->on_message_begin = d_begin; s->on_url = d_url; s->on_line = d_line; s->on_header_field = d_field; s->on_header_value = d_value; s->on_headers_complete = d_headers; s->on_body = d_body; s->on_message_complete = d_done;
    memset(&H, 0, sizeof(H)); uint8_t *b = malloc(n ? n : 1); memcpy(b, text, n); H.buf = b; H.total = n; H.answer = answer; sb_str(&H.log, "");
    while(pos < n) {
        while(c < nc && cuts[c] <= pos) c++;
        size_t end = c < nc && cuts[c] < n ? cuts[c] : n; H.pos = pos; H.seg = end - pos; H.call_body = H.call_done = 0;
        r = process_data_http_parser(p, s, b + pos, end - pos);
        CHECK(r == -1 || (r >= 0 && (size_t) r <= end - pos), "processed size outside the segment");
        if(r < 0) break;
        CHECK(H.call_body <= (size_t) r, "more body than data");
        CHECK(memcmp(b, text, n) == 0, "received data modified");
        if(r == 0) { CHECK(answer > 1, "the parser makes no progress"); break; }
        pos += (size_t) r;
    }
    delete_http_parser(p); delete_http_settings(s); free(b);
    return r < 0 ? -1 : (int) pos;
}
/* random message text */
static void num(sb *s, size_t v, int hex, int up) { char t[40]; sprintf(t, hex ? (up ? "%lX" : "%lx") : "%lu", (unsigned long) v); sb_str(s, t); }
static void cased(sb *s, vf_in *in, const char *t) { unsigned m = vf_u32(in); size_t k; for(k = 0; t[k]; k++) { char c = t[k]; if(((m >> (k % 31)) & 1) && c >= 'a' && c <= 'z') c -= 32; sb_add(s, &c, 1); } }
static void evs(sb *s, char k, const char *p, size_t n) { char h[2] = { '\n', k }; sb_add(s, h, 2); sb_add(s, p, n); }
static const char *METHODS[] = { "DELETE", "GET", "HEAD", "POST", "PUT", "OPTIONS", "TRACE", "COPY", "LOCK", "MKCOL", "MOVE", "PROPFIND", "PROPPATCH", "UNLOCK", "REPORT", "MKACTIVITY", "CHECKOUT", "MERGE", "M-SEARCH", "NOTIFY", "SUBSCRIBE", "UNSUBSCRIBE" };
static const int METHOD_ID[] = { HTTP_DELETE, HTTP_GET, HTTP_HEAD, HTTP_POST, HTTP_PUT, HTTP_OPTIONS, HTTP_TRACE, HTTP_COPY, HTTP_LOCK, HTTP_MKCOL, HTTP_MOVE, HTTP_PROPFIND, HTTP_PROPPATCH, HTTP_UNLOCK, HTTP_REPORT, HTTP_MKACTIVITY, HTTP_CHECKOUT, HTTP_MERGE, HTTP_MSEARCH, HTTP_NOTIFY, HTTP_SUBSCRIBE, HTTP_UNSUBSCRIBE };
static const char *NAMES[] = { "host", "accept", "content-lengt", "content-lengths", "content-type", "connections", "transfer-encodin", "transfer-encoding2", "trailer", "cookie", "c", "co", "con", "cont", "pragma", "proxy", "x-a", "range", "upgrad", "t", "u" };
static const char *VALUES[] = { "a", "chunked, gzip", "chunke", "chunkedx", "text/html; q=1", "7", "closed", "keep-aliv", "a b  c", "\"x:y\"", "1,2", "x" };
static void one_message(vf_in *in, sb *t, sb *e, int request) {
    unsigned k, nh = vf_pick(in, 5), framing = vf_pick(in, 4); int major = 1, minor = vf_pick(in, 2), m = vf_pick(in, 22), status = 100 + vf_pick(in, 500); char num_[64]; sb ex = { 0 };
    evs(e, 'M', "", 0);
    if(request) {
        static const char *U[] = { "/", "/a", "/index.html?x=1", "/?q", "/a#frag", "/x/y/z.png?a=b&c=%20#f?g", "/p?", "/~u/..", "http://host/", "http://h.o:80/a?b" }; const char *u = U[vf_pick(in, 10)];
        sb_str(t, METHODS[m]); sb_str(t, " "); sb_str(t, u); sprintf(num_, " HTTP/%d.%d\r\n", major, minor); sb_str(t, num_);
        evs(e, 'U', u, strlen(u)); evs(e, 'L', "", 0);
    } else { sprintf(num_, "HTTP/%d.%d %d OK thing\r\n", major, minor, status); sb_str(t, num_); evs(e, 'L', "", 0); if(framing == 0) framing = 1; }
    unsigned where = nh ? vf_pick(in, nh + 1) : 0; size_t len = framing ? vf_pick(in, 4) == 0 ? vf_u16(in) % 700 : vf_pick(in, 40) : 0;
    for(k = 0; k <= nh; k++) {
        if(k == where && framing == 1) { size_t a = t->n; cased(t, in, "content-length"); evs(e, 'F', t->b + a, t->n - a); sb_str(t, ":"); unsigned sp = vf_pick(in, 3); while(sp--) sb_str(t, " "); a = t->n; num(t, len, 0, 0); evs(e, 'V', t->b + a, t->n - a); sb_str(t, "\r\n"); }
        if(k == where && framing >= 2) { size_t a = t->n; cased(t, in, "transfer-encoding"); evs(e, 'F', t->b + a, t->n - a); sb_str(t, ": "); a = t->n; cased(t, in, "chunked"); evs(e, 'V', t->b + a, t->n - a); sb_str(t, "\r\n"); }
        if(k < nh) { size_t a = t->n; cased(t, in, NAMES[vf_pick(in, sizeof(NAMES) / sizeof(*NAMES))]); evs(e, 'F', t->b + a, t->n - a); sb_str(t, ": "); const char *v = VALUES[vf_pick(in, sizeof(VALUES) / sizeof(*VALUES))]; evs(e, 'V', v, strlen(v)); sb_str(t, v); sb_str(t, "\r\n"); }
        if(k == where && framing == 3) { /* announced length is ignored when chunked */ sb_str(t, "Content-Length: 3\r\n"); evs(e, 'F', "Content-Length", 14); evs(e, 'V', "3", 1); }
    }
    sb_str(t, "\r\n"); evs(e, 'H', "", 0);
    if(framing == 1 && len) { evs(e, 'B', "", 0); for(; len; len--) { char c = (char) vf_byte(in); if(vf_left(in) == 0) c = "GET / HTTP/1.1\r\n\r\n"[len % 18]; sb_add(t, &c, 1); sb_add(e, &c, 1); } }
    if(framing >= 2) {
        int first = 1; unsigned nchunk = vf_pick(in, 4);
        for(k = 0; k < nchunk; k++) {
            size_t n = 1 + vf_pick(in, vf_pick(in, 3) ? 20 : 300); if(vf_pick(in, 4) == 0) sb_str(t, "0"); num(t, n, 1, (int) vf_pick(in, 2)); if(vf_pick(in, 3) == 0) sb_str(t, ";ext=1"); sb_str(t, "\r\n");
            if(first) evs(e, 'B', "", 0); first = 0;
            for(; n; n--) { char c = (char) vf_byte(in); if(vf_left(in) == 0) c = "\r\n0\r\n\r\n"[n % 7]; sb_add(t, &c, 1); sb_add(e, &c, 1); }
            sb_str(t, "\r\n");
        }
        sb_str(t, "0\r\n"); evs(e, 'L', "", 0);
        if(vf_pick(in, 3) == 0) { sb_str(t, "X-Trailer: v\r\n"); evs(e, 'F', "X-Trailer", 9); evs(e, 'V', "v", 1); }
        sb_str(t, "\r\n");
    }
    sprintf(num_, "%d.%d m%d s%d", major, minor, request ? METHOD_ID[m] : 0, request ? 0 : status); evs(e, 'D', num_, strlen(num_)); free(ex.b);
}
static size_t cuts_of(vf_in *in, size_t *cuts, size_t max, size_t n) {
    size_t k, nc = vf_pick(in, max), at = 0;
    for(k = 0; k < nc && at < n; k++) { at += 1 + (vf_pick(in, 3) ? vf_pick(in, 8) : vf_pick(in, 200)); cuts[k] = at; }
    return k;
}
