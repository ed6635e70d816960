#include "vf_driver.h"
#include "stdafx.h"
#include "encoding/percent.h"
static int un(unsigned c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9') || c == '-' || c == '_' || c == '.' || c == '~'; }
static int hv(int c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
static void try_bytes(const uint8_t *x, size_t n) {
    uint8_t *b = malloc(n + 1); memcpy(b, x, n); b = realloc(b, n ? n : 1);
    uint8_t *exp = malloc(3 * n + 1); size_t e = 0, k;
    for(k = 0; k < n; k++) { unsigned c = x[k]; if(un(c)) exp[e++] = c; else if(c == ' ') exp[e++] = '+'; else { exp[e++] = '%'; exp[e++] = "0123456789abcdef"[c >> 4]; exp[e++] = "0123456789abcdef"[c & 15]; } }
    unsigned char *o = NULL; size_t l = 12345;
    CHECK(url_encode(b, n, &o, &l) == 0, "encode fails");
    CHECK(l == e && memcmp(o, exp, e) == 0 && o[l] == 0, "encoded text");
    CHECK(memcmp(b, x, n) == 0, "input modified by encode");
    uint8_t *enc = malloc(l ? l : 1); memcpy(enc, o, l);
    unsigned char *d = NULL; size_t dl = 777;
    CHECK(url_decode(enc, l, &d, &dl) == 0, "decode of an encoding fails");
    CHECK(dl == n && memcmp(d, x, n) == 0 && d[dl] == 0, "round trip");
    free(d); free(o); free(enc);
    /* decode of the raw bytes */
    e = 0; int bad = 0;
    for(k = 0; k < n; k++) { if(x[k] == '%') { if(n - k > 2 && hv(x[k+1]) >= 0 && hv(x[k+2]) >= 0) { exp[e++] = hv(x[k+1]) * 16 + hv(x[k+2]); k += 2; } else { bad = 1; break; } } else if(x[k] == '+') exp[e++] = ' '; else exp[e++] = x[k]; }
    d = NULL; dl = 777;
    unsigned r = url_decode(b, n, &d, &dl);
    CHECK((r != 0) == bad, "malformed escapes and only those are refused");
    if(!bad) CHECK(dl == e && memcmp(d, exp, e) == 0 && d[dl] == 0, "decoded text");
    CHECK(memcmp(b, x, n) == 0, "input modified by decode");
    free(d); free(exp); free(b); NONTRIVIAL();
}
void vf_scenario(vf_in *in) { try_bytes(in->p, in->n); }
void vf_fixed(void) {
    unsigned a, b; uint8_t t[6];
    for(a = 0; a < 256; a++) { t[0] = a; try_bytes(t, 1); t[0] = 'q'; t[1] = a; try_bytes(t, 2); for(b = 0; b < 256; b++) { t[0] = '%'; t[1] = a; t[2] = b; t[3] = 'z'; try_bytes(t, 3); try_bytes(t, 4); t[0] = a; t[1] = b; try_bytes(t, 2); } }
    try_bytes((const uint8_t *) "", 0);
    static uint8_t big[70000]; for(a = 0; a < sizeof(big); a++) big[a] = a * 7 + (a >> 8); try_bytes(big, sizeof(big));
}
