#include "../../lib/file_drive.h"
static size_t sizes[] = { 0, 1, 2, 5, 100, 262143, 262144, 262145, 600000 }; static uint8_t *data; static int ready;
#define NS (sizeof sizes / sizeof *sizes)
static void init(void) { if(ready) return; ready = 1; fd_init(); size_t i; data = malloc(700000); for(i = 0; i < 700000; i++) data[i] = (uint8_t) (i * 31 + (i >> 8) * 7 + (i >> 16)); for(i = 0; i < NS; i++) { char n[40]; snprintf(n, sizeof n, "www/f%zu", i); fd_put(n, data, sizes[i]); } }
static int num(const char *s, size_t n, unsigned long long *v) { size_t i; *v = 0; if(n == 0 || n > 18) return 0; for(i = 0; i < n; i++) { if(s[i] < '0' || s[i] > '9') return 0; *v = *v * 10 + (s[i] - '0'); } return 1; }
static char etag[64];
/* range: NULL for none. form: header is "<unit>=a-b" exactly, so that the answer is determined */
static void get(unsigned f, const char *range, const char *inm, int determined, unsigned flags) {
    init(); f %= NS; size_t size = sizes[f], n; char u[40]; snprintf(u, sizeof u, "/f%u", f);
    fd_req *r = fd_begin(); fd_url(r, u, strlen(u)); r->p->flags = flags & 1 ? FLAG_KEEP_ALIVE : 0; int close = !(flags & 1);
    if(range) fd_header(r, "Range", range, strlen(range)); if(inm) fd_header(r, "If-None-Match", inm, strlen(inm));
    if(close) { r->s.on_message_complete(r->p); int k = 0; while(vf_out.pending) { CHECK(k++ < 10000, "response never ends"); connection_data_callback cb = vf_out.cb; vf_out.pending = 0; if(cb) cb(&r->c, NULL, vf_out.param); } CHECK(vf_out.closed == 1 && vf_out.released == 0, "connection closed at the end"); delete_http_parser(r->p); free(r); }
    else fd_finish(r);
    int s = fd_status(); uint8_t *b = fd_body(&n); const char *v;
    v = fd_find("Content-Length"); CHECK(v && strtoull(v, NULL, 10) == n, "content length announces the body");
    if(inm && etag[0] && strcmp(inm, etag) == 0) { CHECK(s == 304 && n == 0, "unchanged file"); NONTRIVIAL(); return; }
    CHECK(s == 200 || s == 206, "status");
    if(s == 200) { CHECK(n == size && memcmp(b, data, n) == 0, "complete response is the file"); v = fd_find("ETag"); CHECK(v && strlen(v) == 10, "etag"); if(f == 4) strcpy(etag, v); }
    else {
        unsigned long long i, l, t; v = fd_find("Content-Range"); CHECK(v && sscanf(v, "bytes %llu-%llu/%llu", &i, &l, &t) == 3, "content range present");
        CHECK(range && t == size && i <= l && l < size, "content range inside the file"); CHECK(n == l - i + 1 && memcmp(b, data + i, n) == 0, "partial response is the announced range");
    }
    if(!range) CHECK(s == 200, "no range, complete response");
    if(range && determined && strlen(range) < 128) {
        const char *p = strchr(range, '=') + 1, *d = strchr(p, '-'), *e = d ? d + 1 + strcspn(d + 1, ",") : NULL; unsigned long long a, z, i, l; int ok = 0, ha, hb;
        if(d) { ha = num(p, d - p, &a); hb = num(d + 1, e - d - 1, &z);
            if(ha && hb) { ok = a < size && a <= z; i = a; l = z < size ? z : size - 1; }
            else if(ha && e == d + 1) { ok = a < size; i = a; l = size - 1; }
            else if(hb && p == d) { ok = z > 0 && size > 0; i = z < size ? size - z : 0; l = size - 1; } }
        if(!ok) CHECK(s == 200, "a range that cannot be satisfied is ignored"); else { CHECK(s == 206 && n == l - i + 1 && memcmp(b, data + i, n) == 0, "exactly the requested range is sent"); }
    }
    NONTRIVIAL();
}
void vf_scenario(vf_in *in) {
    unsigned f = vf_byte(in), k = vf_byte(in), m = vf_byte(in); char r[300]; size_t n = sizes[f % NS];
    unsigned long long a = vf_u16(in), b = vf_u16(in); if(k & 1) a = a * 9; if(k & 2) b = b * 9; if(k & 4) a = n - a % 9; if(k & 8) b = n - b % 9;
    switch(m % 6) {
        case 0: get(f, NULL, NULL, 0, k >> 4); break;
        case 1: snprintf(r, sizeof r, "bytes=%llu-%llu", a, b); get(f, r, NULL, a < 1000000000 && b < 1000000000, k >> 4); break;
        case 2: snprintf(r, sizeof r, "bytes=%llu-", a); get(f, r, NULL, a < 1000000000, k >> 4); break;
        case 3: snprintf(r, sizeof r, "bytes=-%llu", b); get(f, r, NULL, b < 1000000000, k >> 4); break;
        case 4: { size_t i, l = k % 140; for(i = 0; i < l; i++) { r[i] = "bytes=-,0123456789 =-,"[vf_byte(in) % 22]; if(i % 7 == 6) r[i] = vf_byte(in) | 1; } r[i] = 0; get(f, r, NULL, 0, 1); break; }
        case 5: snprintf(r, sizeof r, "bytes=%llu-%llu,%llu-", a, b, a); get(f, r, k & 32 ? etag : "\"12345678\"", a < 1000000000 && b < 1000000000, 1); break;
    }
}
void vf_fixed(void) {
    static const char *rs[] = { "bytes=0-0", "bytes=0-", "bytes=-1", "bytes=1-0", "bytes=-0", "bytes=-", "bytes=4-4", "bytes=5-5", "bytes=99-100", "bytes=262143-262144", "bytes=100-599999", "bytes=300000-", "bytes=-300000", "bytes=0-262143", "bytes=0-262144", "bytes=a-b", "bytes=1-b", "bytes=--1", "bytes=1-2-3", "bytes=18446744073709551615-", "bytes=0-18446744073709551615" };
    unsigned f, i; init(); get(4, NULL, NULL, 0, 1); CHECK(etag[0], "etag"); get(4, NULL, etag, 0, 1); get(4, "bytes=0-1", etag, 0, 0);
    for(f = 0; f < NS; f++) { get(f, NULL, NULL, 0, 1); get(f, NULL, NULL, 0, 0); for(i = 0; i < sizeof rs / sizeof *rs; i++) get(f, rs[i], NULL, i != 15 && i != 18 && i < 19 && i != 17 && i != 16, i & 1); }
}
