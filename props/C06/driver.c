#include "../../lib/file_drive.h"
static int ready;
static void init(void) {
    if(ready) return; ready = 1; fd_init();
    fd_dir("www/dir"); fd_dir("www/..."); fd_dir("loc"); fd_dir("locx"); fd_dir("www-secret"); fd_dir("loc/sub"); fd_dir("www/dir/..d");
    fd_put("www/a.txt", "OPEN a", 6); fd_put("www/dir/b.txt", "OPEN b", 6); fd_put("www/sp ace.txt", "OPEN s", 6); fd_put("www/.../c.txt", "OPEN c", 6); fd_put("www/..f", "OPEN f", 6); fd_put("www/dir/..d/e", "OPEN e", 6); fd_put("www/p%41", "OPEN p", 6);
    fd_put("secret.txt", "SECRET", 6); fd_put("www-secret/a.txt", "SECRET", 6); fd_put("locx/no.txt", "SECRET", 6); fd_put("loc/l.txt", "OPEN l", 6); fd_put("loc/sub/m.txt", "OPEN m", 6); fd_put("loc-secret", "SECRET", 6);
}
static int hv(int c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
/* decoded text, or -1 */
static long dec(const uint8_t *x, size_t n, uint8_t *o) { size_t k, e = 0; for(k = 0; k < n; k++) { if(x[k] == '%') { if(n - k > 2 && hv(x[k+1]) >= 0 && hv(x[k+2]) >= 0) { o[e++] = hv(x[k+1]) * 16 + hv(x[k+2]); k += 2; } else return -1; } else o[e++] = x[k] == '+' ? ' ' : x[k]; } o[e] = 0; return e; }
static int unsafe(const uint8_t *p, size_t n) { size_t i, m = 0; if(memchr(p, 0, n)) return 1; for(i = 0; i <= n; i++) if(i == n || p[i] == '/' || p[i] == '\\') { if(i - m == 2 && p[m] == '.' && p[m+1] == '.') return 1; m = i + 1; } return 0; }
/* loc < 0: default base path; otherwise a location with base path loc/ that matched the first off characters */
static void request(const uint8_t *u, size_t n, int loc, size_t off, const char *hdr, const uint8_t *hv_, size_t hn) {
    init(); fd_req *r = fd_begin(); static uint8_t d[70000]; char base[1024], full[80000]; struct stat st;
    const uint8_t *q = memchr(u, '?', n); size_t pn = q ? (size_t) (q - u) : n;
    fd_url(r, u, n);
    snprintf(base, sizeof base, "%s/loc%s", vf_root, loc == 1 ? "/" : ""); fd_loc[0].base_path = (unsigned char *) base; fd_loc[1].base_path = NULL;
    if(off > pn) off = pn;
    if(loc >= 0) r->s.on_location(r->p, loc == 2 ? 1 : 0, off);
    if(hdr) fd_header(r, hdr, hv_, hn);
   
    fd_finish(r);
    CHECK(memmem(vf_out.p, vf_out.n, "SECRET", 6) == NULL, "a file outside the base path was served");
    const char *b = loc == 0 || loc == 1 ? base : vf_contents; const uint8_t *x = loc == 0 || loc == 1 ? u + off : u; size_t xn = loc == 0 || loc == 1 ? pn - off : pn;
    int s = fd_status(); long e = pn >= 4096 || (x == u && dec(u, pn, d) < 0) ? -1 : dec(x, xn, d);
    int bad = e < 0 || unsafe(d, e) || (e > 0 && d[0] != '/' && b[strlen(b) - 1] != '/') || strlen(b) + e >= 1024 || pn == 0;
    if(bad) { if(pn > 0 || loc < 0) CHECK(s == 404 || (pn == 0 && s == 307), "a path that is not contained is not found"); }
    else { snprintf(full, sizeof full, "%s%s", b, d);
        if(stat(full, &st) != 0) CHECK(s == 404, "a missing file is not found");
        else if(S_ISDIR(st.st_mode)) { if(s != (u[pn-1] == 47 ? 200 : 307)) {  fprintf(stderr, "[%s][%s] url %.*s loc %d off %zu status %d\n%.300s\n", vf_contents, full, (int) n, u, loc, off, s, vf_out.p); } CHECK(s == (u[pn - 1] == '/' ? 200 : 307), "directories are listed or redirected"); }
        else if(hdr == NULL) { size_t bn; uint8_t *bd = fd_body(&bn); FILE *f = fopen(full, "rb"); char c[64]; size_t cn = fread(c, 1, 64, f); fclose(f); CHECK(s == 200 && bn == cn && memcmp(bd, c, cn) == 0, "a contained file is served"); } }
    NONTRIVIAL();
}
static const char *tok[] = { "/", "..", ".", "a.txt", "dir", "b.txt", "%2e", "%2E%2e", "%2f", "..%2f", "\\", "-secret", "sp%20ace.txt", "sp+ace.txt", "%00", "%", "+", "www", "secret.txt", "...", "c.txt", "..f", "..d", "e", "?", "?x=/..", "p%2541", "l.txt", "sub", "m.txt", "x/no.txt", "%5c", "/../", "//" };
static const char *hd[] = { "Range", "If-None-Match", "Cache-Control", "Authorization", "Host" };
void vf_scenario(vf_in *in) {
    static uint8_t u[60000]; size_t n = 0; int loc = (int) vf_pick(in, 5) - 1; if(loc == 3) loc = -1; size_t off = vf_byte(in) % 12; unsigned k = vf_byte(in) % 24, h = vf_byte(in); size_t i;
    u[n++] = '/';
    for(; k && n < 5000; k--) { unsigned t = vf_byte(in); if(t < 200) { const char *s = tok[t % (sizeof tok / sizeof *tok)]; memcpy(u + n, s, strlen(s)); n += strlen(s); }
        else if(t < 240) u[n++] = vf_byte(in) | 1; else { size_t m = vf_u16(in) % 4500; memset(u + n, "/a%2"[t & 3], m); n += m; } }
    for(i = 0; i < n; i++) if(u[i] <= ' ' || u[i] == 127) u[i] = '_'; /* the parser delivers no such bytes */
    static uint8_t v[6000]; size_t vn = vf_u16(in) % 40; if(h & 8) vn = vf_u16(in) % 600; for(i = 0; i < vn; i++) v[i] = vf_byte(in) | 1;
    request(u, n, loc, off, h & 1 ? hd[h % 5] : NULL, v, vn);
}
void vf_fixed(void) {
    size_t a, b, c; char s[400]; uint8_t z[5000];
    for(a = 0; a < sizeof tok / sizeof *tok; a++) for(b = 0; b < sizeof tok / sizeof *tok; b++) { snprintf(s, sizeof s, "/%s%s", tok[a], tok[b]); request((uint8_t *) s, strlen(s), -1, 0, NULL, z, 0); snprintf(s, sizeof s, "/%s/%s", tok[a], tok[b]); request((uint8_t *) s, strlen(s), -1, 0, NULL, z, 0);
        for(c = 0; c < 2; c++) { snprintf(s, sizeof s, "/st%s%s", tok[a], tok[b]); request((uint8_t *) s, strlen(s), c, 3, NULL, z, 0); } }
    memset(z, 'a', sizeof z); z[0] = '/'; for(a = 800; a < 4300; a += (a > 1100 && a < 4000) ? 97 : 1) { request(z, a, -1, 0, NULL, z, 0); if(a % 16 == 0) request(z, a, 0, a / 2, NULL, z, 0); }
    for(a = 0; a < 5; a++) for(b = 0; b < 300; b++) request((uint8_t *) "/a.txt", 6, -1, 0, hd[a], z, b);
    /* directory reached by a long encoded url */
    for(a = 0; a < 1300; a++) { memcpy(z + 3 * a, "%2F", 3); } z[0] = '/'; memcpy(z + 1, "dir", 3); for(a = 4; a < 3000; a += 3) memcpy(z + a, "%2f", 3);
    for(a = 1000; a < 3000; a += 111) request(z, a - (a - 4) % 3, -1, 0, NULL, z, 0);
}
