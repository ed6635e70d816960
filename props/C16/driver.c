#include "../../lib/file_drive.h"
/* ---- a response read strictly: status line, headers, one empty line, exactly the announced body ---- */
typedef struct { char version[9]; int code, nconn, nlen, nserver, nauth, keep; char reason[128], realm[300]; size_t len, body; } resp;
static void parse(resp *r) {
    const char *p = (char *) vf_out.p, *end = p + vf_out.n; memset(r, 0, sizeof *r); CHECK(vf_out.n > 14, "a response is sent");
    const char *e = memmem(p, vf_out.n, "\r\n", 2); CHECK(e && e - p > 13 && e - p < 120 && memcmp(p, "HTTP/", 5) == 0 && p[8] == ' ' && p[12] == ' ', "status line"); memcpy(r->version, p, 8); r->code = atoi(p + 9); memcpy(r->reason, p + 13, e - p - 13); p = e + 2;
    for(;;) {
        e = memmem(p, end - p, "\r\n", 2); CHECK(e, "the head ends with an empty line"); if(e == p) { p += 2; break; }
        const char *c = memchr(p, ':', e - p); CHECK(c && c > p && c[1] == ' ', "header with name and value"); size_t n = c - p, l = e - c - 2; CHECK(!memchr(p, '\n', e - p) && !memchr(p, 0, e - p), "one line per header");
        if(n == 10 && !memcmp(p, "Connection", n)) { r->nconn++; CHECK((l == 10 && !memcmp(c + 2, "keep-alive", l)) || (l == 5 && !memcmp(c + 2, "close", l)), "known connection value"); r->keep = l == 10; }
        if(n == 14 && !memcmp(p, "Content-Length", n)) { r->nlen++; size_t i; CHECK(l > 0, "length"); for(i = 0; i < l; i++) { CHECK(c[2 + i] >= '0' && c[2 + i] <= '9', "length in digits"); r->len = r->len * 10 + c[2 + i] - '0'; } }
        if(n == 6 && !memcmp(p, "Server", n)) { r->nserver++; CHECK(l == strlen((char *) fd_service->description) && !memcmp(c + 2, fd_service->description, l), "server"); }
        if(n == 16 && !memcmp(p, "WWW-Authenticate", n)) { r->nauth++; CHECK(l < 300, "realm"); memcpy(r->realm, c + 2, l); }
        p = e + 2;
    }
    r->body = p - (char *) vf_out.p; CHECK(r->nconn == 1 && r->nlen == 1 && r->nserver == 1, "connection, server and length are announced once"); CHECK(r->len == vf_out.n - r->body, "the announced length is that of the body");
}
static void finish(fd_req *q, int keep, resp *r) {
    CHECK(vf_out.acquired == 1, "connection acquired"); int k = 0; while(vf_out.pending) { CHECK(!vf_out.released && !vf_out.closed, "nothing is written after the end"); CHECK(k++ < 10000, "response never ends"); connection_data_callback cb = vf_out.cb; vf_out.pending = 0; if(cb) cb(&q->c, NULL, vf_out.param); }
    CHECK(vf_out.closed == !keep && vf_out.released == !!keep, "the connection is closed unless kept alive"); CHECK(q->h.http_handler == NULL, "handler detached"); parse(r); CHECK(r->keep == !!keep, "the response says what happens to the connection"); CHECK(strcmp(r->version, "HTTP/1.1") == 0, "version");
}
static int ready; static char pf[1200]; static uint8_t big[70000];
static void init(void) {
    if(ready) return; ready = 1; fd_init(); size_t i; for(i = 0; i < sizeof big; i++) big[i] = (uint8_t) (i * 7); fd_put("www/a.txt", "hello", 5); fd_put("www/empty", "", 0); fd_put("www/big", big, sizeof big); fd_dir("www/d"); fd_put("www/d/x", "x", 1);
    const char *t = "<error ${out value=error_code /} ${out value=error_message /}>\n"; fd_put("res/templates/error.html.tpl", t, strlen(t)); snprintf(pf, sizeof pf, "%s/passwd", vf_root); fd_put("passwd", "a:p\n", 4);
}
/* kind of response: 0 file, 1 empty, 2 large, 3 missing, 4 listing, 5 redirect, 6 refused, 7 range, 8 default handler, 9 dispatch failure */
static const char *urls[] = { "/a.txt", "/empty", "/big", "/none", "/d/", "/d", "/a.txt", "/big", "/", "/" };
static const int codes[] = { 200, 200, 200, 404, 200, 307, 401, 206, 200, 500 };
static void content(int kind, resp *r) {
    static const char *reasons[] = { "OK", "OK", "OK", "Not Found", "OK", "Temporary Redirect", "Unauthorized", "Partial content", "OK", "Internal Server Error" }; const uint8_t *b = vf_out.p + r->body; char x[300];
    CHECK(r->code == codes[kind] && strcmp(r->reason, reasons[kind]) == 0, "status"); CHECK(r->nauth == (kind == 6), "a realm is named exactly when the request is refused"); if(kind == 6) CHECK(strcmp(r->realm, "Basic realm=\"the realm\"") == 0, "realm");
    switch(kind) {
        case 0: CHECK(r->len == 5 && !memcmp(b, "hello", 5), "body"); break; case 1: case 5: CHECK(r->len == 0, "no body"); break; case 2: CHECK(r->len == sizeof big && !memcmp(b, big, sizeof big), "body"); break;
        case 7: CHECK(r->len == 100 && !memcmp(b, big + 50, 100), "body"); break; case 8: CHECK(r->len == 14 && !memcmp(b, "Hello Viriatum", 14), "body"); break; case 4: CHECK(r->len >= 8 && !memcmp(b, "listing ", 8), "body"); break;
        default: if(fd_options.use_template) snprintf(x, sizeof x, "<error %d %s>\n", r->code, r->reason); else snprintf(x, sizeof x, "%d - %s - %s", r->code, r->reason, fd_service->description); CHECK(r->len == strlen(x) && !memcmp(b, x, r->len), "body");
    }
}
static void handler(fd_req *q, int kind) {
    memset(&q->s, 0, sizeof q->s);
    if(kind < 8) { q->h.http_handler = &fd_hh; set_handler_file(&q->h); fd_loc[0].base_path = NULL; fd_loc[0].auth_basic = kind == 6 ? (unsigned char *) "the realm" : NULL; fd_loc[0].auth_file = kind == 6 ? (unsigned char *) pf : NULL; fd_hh.unset = unset_handler_file; }
    else { q->h.http_handler = NULL; q->s.on_message_complete = kind == 8 ? message_complete_callback_handler_default : message_complete_callback_handler_dispatch; }
}
static void ask(int kind, int keep, int tpl, int k2) {
    init(); fd_options.use_template = tpl; fd_req *q = fd_begin(); q->h.http_handler->unset(&q->h); resp r; int i;
    for(i = 0; i < 2; i++) { /* two requests on the same connection */
        free(vf_out.p); memset(&vf_out, 0, sizeof vf_out); handler(q, kind); static const char *ks[] = { "", "Connection: close\r\n", "Connection: keep-alive\r\n", "Connection: Keep-Alive\r\n", "Connection: other\r\n", "connection: keep-alivex\r\n" };
        char t[600]; size_t n = snprintf(t, sizeof t, "GET %s HTTP/1.1\r\nHost: x\r\n%s%s\r\n", urls[kind], ks[keep], kind == 7 ? "Range: bytes=50-149\r\n" : ""); uint8_t *x = malloc(n); memcpy(x, t, n);
        if(kind < 8 && kind == 6 && q->s.on_location) q->s.on_location(q->p, 0, 0);
        int done = process_data_http_parser(q->p, &q->s, x, n); CHECK(done == (int) n, "the request is read"); free(x);
        finish(q, keep == 2 || keep == 3, &r); content(kind, &r); NONTRIVIAL(); keep = k2;
    }
    delete_http_parser(q->p); free(q);
}
/* the writers of heads with any arguments against the same text formatted here */
static void heads(unsigned w, unsigned v, int code, const char *m, unsigned ka, size_t len, unsigned ca, const char *realm, unsigned cl, size_t pad) {
    init(); struct connection_t c; memset(&c, 0, sizeof c); c.service = fd_service; static const char *vs[] = { "HTTP/0.9", "HTTP/1.0", "HTTP/1.1" }, *ks[] = { "close", "keep-alive" }, *cs[] = { "no-cache, must-revalidate", "max-age=604800" }; char x[3000]; size_t n, r;
    n = sprintf(x, "%s %d %s\r\nConnection: %s\r\nServer: %s\r\n", vs[v], code, m, ks[ka], fd_service->description); if(w) n += sprintf(x + n, "Content-Length: %lu\r\nCache-Control: %s\r\n", (unsigned long) len, cs[ca]); if(w == 2) n += sprintf(x + n, "WWW-Authenticate: Basic realm=\"%s\"\r\n", realm); if(cl) n += sprintf(x + n, "\r\n");
    char *b = malloc(n + 1 + pad);
    r = w == 0 ? write_http_headers(&c, b, n + 1 + pad, v + 1, code, (char *) m, ka + 1, cl) : w == 1 ? write_http_headers_c(&c, b, n + 1 + pad, v + 1, code, (char *) m, ka + 1, len, ca + 1, cl) : write_http_headers_a(&c, b, n + 1 + pad, v + 1, code, (char *) m, ka + 1, len, ca + 1, (char *) realm, cl);
    CHECK(r == n && memcmp(b, x, n) == 0 && b[n] == 0, "the head is the expected text"); free(b); NONTRIVIAL();
}
static void respond(unsigned how, const char *text, int given, int tpl) {
    init(); fd_options.use_template = tpl; struct connection_t c; memset(&c, 0, sizeof c); c.service = fd_service; free(vf_out.p); memset(&vf_out, 0, sizeof vf_out); size_t l = strlen(text); char *b = given ? malloc(l + 4000) : NULL; resp r; connection_data_callback_hu cb = (connection_data_callback_hu) fd_close; 
    if(how == 0) write_http_message(&c, b, b ? l + 4000 : 0, HTTP10, 203, "Some Thing", (char *) text, KEEP_ALIVE, cb, b); else if(how == 1) write_http_error(&c, b, b ? l + 4000 : 0, HTTP10, 503, "Some Thing", (char *) text, KEEP_CLOSE, cb, b); else write_http_error_a(&c, b, b ? l + 4000 : 0, HTTP10, 401, "Some Thing", (char *) text, "r s", KEEP_CLOSE, cb, b);
    CHECK(vf_out.pending && vf_out.cb == (connection_data_callback) cb && vf_out.param == b, "one response is sent"); parse(&r); CHECK(strcmp(r.version, "HTTP/1.0") == 0 && r.code == (how == 0 ? 203 : how == 1 ? 503 : 401) && strcmp(r.reason, "Some Thing") == 0 && r.keep == (how == 0), "head"); if(how == 0) CHECK(r.len == l && !memcmp(vf_out.p + r.body, text, l), "the message is the body");
    CHECK(r.nauth == (how == 2) && (how != 2 || strcmp(r.realm, "Basic realm=\"r s\"") == 0), "the realm is named"); if(how && !tpl) { char x[2000]; snprintf(x, 1024, "%d - Some Thing - %s", r.code, fd_service->description); CHECK(r.len == strlen(x) && !memcmp(vf_out.p + r.body, x, r.len), "the description is the body"); } NONTRIVIAL();
}
/* string buffers: the concatenation of their pieces */
static void pieces(vf_in *in) {
    struct string_buffer_t *s; create_string_buffer(&s); char x[4000]; size_t n = 0, k = vf_byte(in) % 12; unsigned char *r, *keep[12]; size_t nk = 0;
    while(k--) { unsigned t = vf_byte(in); size_t l = (t >> 2) % 40, i; unsigned char *p = malloc(l + 1); for(i = 0; i < l; i++) { p[i] = vf_byte(in); if(!p[i] && (t & 1) == 0) p[i] = 'z'; } p[l] = 0; memcpy(x + n, p, l); n += l; struct string_t st; st.buffer = p; st.length = l;
        switch(t & 3) { case 0: append_string_buffer(s, p); keep[nk++] = p; break; case 1: if(t & 128) { append_string_t_buffer(s, &st); keep[nk++] = p; } else _append_string_t_buffer(s, &st); break; case 2: _append_string_buffer(s, p); break; default: if(t & 128) { append_string_l_buffer(s, p, l); keep[nk++] = p; } else _append_string_l_buffer(s, p, l); } }
    CHECK(s->string_length == n, "total length"); join_string_buffer(s, &r); CHECK(memcmp(r, x, n) == 0 && r[n] == 0, "the pieces in order"); free(r); join_string_buffer(s, &r); CHECK(memcmp(r, x, n) == 0 && r[n] == 0, "the pieces again"); free(r); delete_string_buffer(s); while(nk) free(keep[--nk]); NONTRIVIAL();
}
void vf_scenario(vf_in *in) {
    unsigned k = vf_byte(in), a = vf_byte(in), b = vf_byte(in); static const char *ms[] = { "OK", "", "Not Found", "A very long reason phrase, indeed" };
    switch(k % 4) {
        case 0: ask(a % 10, b % 6, (a >> 7) && a % 10 != 4, (b / 6) % 6); break;
        case 1: heads(a % 3, b % 3, (int) vf_u16(in) - 100, ms[(a >> 2) & 3], (a >> 4) & 1, (size_t) vf_u32(in) << (b >> 5), (a >> 5) & 1, ms[(b >> 2) & 3], (a >> 6) & 1, vf_byte(in) % 50); break;
        case 2: { char t[2500]; size_t l = (a | b << 8) % 2500, i; for(i = 0; i < l; i++) t[i] = 1 + vf_byte(in) % 255; t[l ? l - 1 : 0] = 0; respond(k / 4 % 3, t, k >> 5 & 1, k >> 6 & 1); break; }
        default: pieces(in);
    }
}
void vf_fixed(void) {
    int k, a, b, t; for(k = 0; k < 10; k++) for(a = 0; a < 6; a++) for(t = 0; t < 2; t++) ask(k, a, t, (a + 1 + t) % 6);
    for(k = 0; k < 3; k++) for(a = 0; a < 3; a++) for(b = 0; b < 8; b++) heads(k, a, b == 3 ? 1234567 : 404, b & 1 ? "Not Found" : "", b & 1, b == 5 ? (size_t) -1 : b * 999, (b >> 1) & 1, "a realm", (b >> 2) & 1, b % 3 * 7);
    for(k = 0; k < 3; k++) for(a = 0; a < 2; a++) for(t = 0; t < 2; t++) { respond(k, "text", a, t); respond(k, "", a, t); }
}
