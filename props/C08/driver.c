#include "../../lib/file_drive.h"
static int ready; static char pf[1200];
static void init(void) { if(ready) return; ready = 1; fd_init(); fd_put("www/a.txt", "PROTECTED", 9); fd_dir("www/d"); fd_put("www/d/PROTECTED", "x", 1); snprintf(pf, sizeof pf, "%s/passwd", vf_root); }
/* reference reading of a passwd file: the password of the last complete line for the user */
static int lookup(const uint8_t *f, size_t n, const uint8_t *u, size_t un, const uint8_t **p, size_t *pn) {
    size_t i = 0; int r = 0;
    while(i < n) { size_t e = i; while(e < n && f[e] != '\n') e++; size_t c = i; while(c < e && f[c] != ':') c++;
        if(c < e) { size_t z = c + 1; while(z < e && f[z] != ':') z++; if(c - i == un && memcmp(f + i, u, un) == 0) { *p = f + c + 1; *pn = z - c - 1; r = 1; } }
        i = e + 1; }
    return r;
}
/* header: complete authorization value given by the client (NULL for none); cred: decoded text in it when well formed */
static void ask(const uint8_t *file, size_t fn, const char *header, const uint8_t *cred, size_t cn, int dflt, int dir) {
    init(); if(file) fd_put("passwd", file, fn); else remove(pf);
    fd_req *r = fd_begin(); const char *u = dir == 1 ? "/d/" : dir == 2 ? "/d" : dir == 3 ? "/none" : "/a.txt"; fd_url(r, u, strlen(u));
    fd_loc[0].base_path = NULL; fd_loc[0].auth_basic = (unsigned char *) "realm"; fd_loc[0].auth_file = (unsigned char *) (dflt ? "$default" : pf); r->s.on_location(r->p, 0, 0);
    if(header) fd_header(r, "Authorization", header, strlen(header));
    fd_finish(r); int s = fd_status(), ok = 0;
    if(header && strlen(header) < 128) {
        if(dflt) ok = strcmp(header, "Basic cm9vdDpyb290") == 0;
        else if(cred && file) { const uint8_t *c = memchr(cred, ':', cn), *p; size_t pn; if(c && !memchr(cred, 0, cn) && lookup(file, fn, cred, c - cred, &p, &pn)) ok = pn == cn - (c - cred) - 1 && memcmp(p, c + 1, pn) == 0; }
    }
    if(ok) CHECK(s == (dir == 2 ? 307 : dir == 3 ? 404 : 200), "the right credentials are granted");
    else { CHECK(s == (dir == 3 ? 404 : 401), "anything but the right credentials is refused"); CHECK(memmem(vf_out.p, vf_out.n, "PROTECTED", 9) == NULL, "nothing is sent without credentials"); }
    NONTRIVIAL();
}
static size_t b64(const uint8_t *d, size_t n, char *o) { static const char t[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"; size_t i, k = 0; for(i = 0; i < n; i += 3) { unsigned v = d[i] << 16 | (i + 1 < n ? d[i + 1] << 8 : 0) | (i + 2 < n ? d[i + 2] : 0); o[k++] = t[v >> 18]; o[k++] = t[v >> 12 & 63]; o[k++] = i + 1 < n ? t[v >> 6 & 63] : '='; o[k++] = i + 2 < n ? t[v & 63] : '='; } o[k] = 0; return k; }
void vf_scenario(vf_in *in) {
    static const char *us[] = { "a", "root", "admin", "", "ab", "a b", "u\xc3\xa9", "x123456789012345678901234567890" }; static const char *ps[] = { "p", "", "root", "pass word", "$1$x", "p\r" };
    uint8_t f[600], c[400]; size_t fn = 0, cn = 0, i, k = vf_byte(in) % 5; unsigned m = vf_byte(in), q = vf_byte(in); char h[700];
    while(k--) { unsigned t = vf_byte(in); const char *u = us[t % 8], *p = ps[(t >> 3) % 6]; fn += sprintf((char *) f + fn, "%s%s%s%s%s", u, t & 64 ? ":" : "::" + (vf_byte(in) & 1), p, t & 128 ? ":comment:x" : "", k || (m & 1) ? "\n" : ""); if(t == 255) { size_t l = vf_byte(in) % 60; while(l--) { f[fn] = vf_byte(in); if(!f[fn]) f[fn] = 1; fn++; } } }
    if(m & 2) { cn = sprintf((char *) c, "%s:%s", us[q % 8], ps[(q >> 3) % 6]); if(q >= 192) { size_t l = vf_byte(in) % 8; while(l--) c[cn++] = vf_byte(in); } } else { size_t l = vf_byte(in) % 200; if(l > 100) l = l % 40; while(l--) c[cn++] = vf_byte(in); }
    size_t hn = 0; int wf = 1;
    switch((m >> 2) % 8) { case 0: hn = sprintf(h, "Basic"); wf = 0; break; case 1: hn = sprintf(h, "%s", (char *) "Bearer "); break; case 2: h[0] = 0; wf = 0; break; default: hn = sprintf(h, "Basic "); }
    hn += b64(c, cn, h + hn); if((m >> 2) % 8 == 3 && hn > 7) { h[hn - 1] = 0; wf = 0; } if((m >> 2) % 8 == 2 && !strchr(h, ' ')) wf = 0;
    ask((m >> 5) % 4 ? f : NULL, fn, (m >> 2) % 8 == 4 ? NULL : h, wf ? c : NULL, cn, (m >> 7) && (q & 1), (q >> 1) % 4);
}
void vf_fixed(void) {
    static const char *fs[] = { "", "a:p\n", "a:p", "a:p:c\nb:q\n", "a\na:p\n", ":p\n", "a:\n", "a:p\nx", "long12345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890:z\na:p" }; static const char *cs[] = { "a:p", "b:q", "a:", ":p", ":", "a", "", "x:", "a:pp", "a:p:c" }; size_t i, j; char h[200]; int d;
    for(i = 0; i < sizeof fs / sizeof *fs; i++) for(j = 0; j < sizeof cs / sizeof *cs; j++) { size_t k = sprintf(h, "Basic "); b64((uint8_t *) cs[j], strlen(cs[j]), h + k); ask((uint8_t *) fs[i], strlen(fs[i]), h, (uint8_t *) cs[j], strlen(cs[j]), 0, 0); }
    for(d = 0; d < 4; d++) { ask((uint8_t *) "a:p", 3, NULL, NULL, 0, 0, d); ask((uint8_t *) "a:p", 3, "Basic YTpw", (uint8_t *) "a:p", 3, 0, d); ask(NULL, 0, "Basic YTpw", (uint8_t *) "a:p", 3, 0, d); ask((uint8_t *) "a:p", 3, "Basic", NULL, 0, 0, d); ask((uint8_t *) "a:p", 3, "", NULL, 0, 0, d); ask((uint8_t *) "a:p", 3, "Basic YTp", NULL, 0, 0, d); ask(NULL, 0, "Basic cm9vdDpyb290", NULL, 0, 1, d); ask(NULL, 0, "Basic cm9vdDpyb290x", NULL, 0, 1, d); }
    for(i = 0; i < 140; i++) { char l[400]; uint8_t c[200]; memset(c, 'a', sizeof c); c[i] = ':'; size_t k = sprintf(l, "Basic "); b64(c, i + 1 + i % 3, l + k); uint8_t f[300]; memcpy(f, c, i + 1); f[i + 1] = 'a'; f[i + 2] = '\n'; ask(f, i + 3, l, c, i + 1 + i % 3, 0, 0); }
}
