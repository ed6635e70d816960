#include "vf_driver.h"
#include "stdafx.h"
#include "encoding/base_64.h"
static const char T[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
static int val(int c) { const char *p = c ? strchr(T, c) : NULL; return p ? (int) (p - T) : 0; }
static uint8_t *exact(const uint8_t *x, size_t n) { uint8_t *b = malloc(n); if(n) memcpy(b, x, n); return b; }
static void try_bytes(const uint8_t *x, size_t n) {
    uint8_t *b = exact(x, n), *exp = malloc(n / 3 * 4 + 8), *o = NULL, *d = NULL; size_t e = 0, k, l = 99, dl = 99;
    for(k = 0; k < n; k += 3) { unsigned a = x[k], c1 = k + 1 < n ? x[k+1] : 0, c2 = k + 2 < n ? x[k+2] : 0, v = a << 16 | c1 << 8 | c2;
        exp[e++] = T[v >> 18]; exp[e++] = T[v >> 12 & 63]; exp[e++] = k + 1 < n ? T[v >> 6 & 63] : '='; exp[e++] = k + 2 < n ? T[v & 63] : '='; }
    CHECK(encode_base64(b, n, &o, &l) == 0, "encode fails");
    CHECK(l == e && memcmp(o, exp, e) == 0, "encoded text");
    CHECK(memcmp(b, x, n) == 0, "input modified by encode");
    CHECK(decode_base64(o, l, &d, &dl) == 0, "decode of an encoding fails");
    CHECK(dl == n && memcmp(d, x, n) == 0, "round trip");
    CHECK(memcmp(o, exp, e) == 0, "input modified by decode");
    free(d); free(o); d = NULL; dl = 99;
    /* arbitrary text */
    int pad = 0; while(pad < 3 && (size_t) pad < n && x[n - 1 - pad] == '=') pad++;
    unsigned r = decode_base64(b, n, &d, &dl);
    CHECK((r != 0) == (n % 4 != 0 || pad > 2), "refused texts");
    if(r == 0) {
        CHECK(dl == n / 4 * 3 - pad, "decoded length");
        for(k = 0; k < dl; k++) { const uint8_t *g = x + k / 3 * 4; unsigned v = val(g[0]) << 18 | val(g[1]) << 12 | val(g[2]) << 6 | val(g[3]); CHECK(d[k] == (uint8_t) (v >> (16 - 8 * (k % 3))), "decoded byte"); }
        free(d);
    }
    CHECK(memcmp(b, x, n) == 0, "input modified by decode");
    for(k = 0; k < n && k < 8; k++) CHECK(_lookup_base64(x[k]) == val(x[k]) && _lookup_fast_base64(x[k]) == val(x[k]), "character value");
    free(exp); free(b); NONTRIVIAL();
}
void vf_scenario(vf_in *in) {
    if(vf_byte(in) & 1) { /* texts over the alphabet */
        size_t n = vf_left(in), k; uint8_t *b = malloc(n + 1); for(k = 0; k < n; k++) { unsigned c = vf_byte(in); b[k] = c < 240 ? T[c & 63] : '='; } try_bytes(b, n); free(b);
    } else try_bytes(in->p + in->i, vf_left(in));
}
void vf_fixed(void) {
    unsigned a, b; uint8_t t[8];
    try_bytes((const uint8_t *) "", 0);
    for(a = 0; a < 256; a++) for(b = 0; b < 256; b++) { t[0] = a; t[1] = b; t[2] = a ^ 0x5a; t[3] = b; try_bytes(t, 1); try_bytes(t, 2); try_bytes(t, 3); try_bytes(t, 4); t[2] = t[3] = '='; try_bytes(t, 4); t[1] = t[3]; try_bytes(t, 4); }
    static uint8_t big[100001]; for(a = 0; a < sizeof(big); a++) big[a] = a * 31 + (a >> 8); for(a = 0; a < 5; a++) try_bytes(big, sizeof(big) - a);
    uint8_t eq[9]; memset(eq, '=', 9); for(a = 0; a < 9; a++) try_bytes(eq, a);
}
