#include "vf_driver.h"
#include <math.h>
#include <sys/mman.h>
#include "stdafx.h"
#include "checksum/crc_32.h"
#include "checksum/md5.h"
#include "checksum/sha1.h"
#undef F
#undef G
#undef H
#undef I
/* the standards, written out without the tricks of the code under test */
static uint32_t rot(uint32_t x, int n) { return x << n | x >> (32 - n); }
static uint8_t *pad(const uint8_t *p, size_t n, size_t *t, int big) { int i; *t = (n + 8) / 64 * 64 + 64; uint8_t *r = calloc(1, *t); memcpy(r, p, n); r[n] = 0x80; for(i = 0; i < 8; i++) r[*t - 8 + i] = (uint8_t) ((uint64_t) n * 8 >> (big ? 56 - 8 * i : 8 * i)); return r; }
static void ref_md5(const uint8_t *p, size_t n, uint8_t *r) {
    static uint32_t K[64]; static const int S[4][4] = {{7, 12, 17, 22}, {5, 9, 14, 20}, {4, 11, 16, 23}, {6, 10, 15, 21}}; size_t t, o; int i; uint32_t h[4] = {0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476}; if(!K[0]) for(i = 0; i < 64; i++) K[i] = (uint32_t) (int64_t) floor(fabs(sin(i + 1.0)) * 4294967296.0);
    uint8_t *m = pad(p, n, &t, 0); for(o = 0; o < t; o += 64) { uint32_t a = h[0], b = h[1], c = h[2], d = h[3]; for(i = 0; i < 64; i++) { uint32_t f; int g; switch(i / 16) { case 0: f = (b & c) | (~b & d); g = i; break; case 1: f = (b & d) | (c & ~d); g = (5 * i + 1) % 16; break; case 2: f = b ^ c ^ d; g = (3 * i + 5) % 16; break; default: f = c ^ (b | ~d); g = 7 * i % 16; }
            uint8_t *w = m + o + g * 4; f += a + K[i] + (w[0] | w[1] << 8 | w[2] << 16 | (uint32_t) w[3] << 24); a = d; d = c; c = b; b += rot(f, S[i / 16][i % 4]); } h[0] += a; h[1] += b; h[2] += c; h[3] += d; }
    free(m); for(i = 0; i < 16; i++) r[i] = h[i / 4] >> (i % 4 * 8);
}
static void ref_sha1(const uint8_t *p, size_t n, uint8_t *r) {
    size_t t, o; int i; uint32_t h[5] = {0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476, 0xc3d2e1f0}; uint8_t *m = pad(p, n, &t, 1);
    for(o = 0; o < t; o += 64) { uint32_t w[80], a = h[0], b = h[1], c = h[2], d = h[3], e = h[4]; for(i = 0; i < 80; i++) { uint8_t *q = m + o + i * 4; w[i] = i < 16 ? (uint32_t) q[0] << 24 | q[1] << 16 | q[2] << 8 | q[3] : rot(w[i - 3] ^ w[i - 8] ^ w[i - 14] ^ w[i - 16], 1); }
        for(i = 0; i < 80; i++) { uint32_t f = i < 20 ? ((b & c) ^ (~b & d)) + 0x5a827999 : i < 40 ? (b ^ c ^ d) + 0x6ed9eba1 : i < 60 ? ((b & c) ^ (b & d) ^ (c & d)) + 0x8f1bbcdc : (b ^ c ^ d) + 0xca62c1d6; f += rot(a, 5) + e + w[i]; e = d; d = c; c = rot(b, 30); b = a; a = f; } h[0] += a; h[1] += b; h[2] += c; h[3] += d; h[4] += e; }
    free(m); for(i = 0; i < 20; i++) r[i] = h[i / 4] >> (24 - i % 4 * 8);
}
static uint32_t ref_crc(const uint8_t *p, size_t n) { uint32_t c = ~0u; size_t i; int k; for(i = 0; i < n; i++) { c ^= p[i]; for(k = 0; k < 8; k++) c = c >> 1 ^ (c & 1 ? 0xedb88320u : 0); } return ~c; }
static void compare(const uint8_t *p, size_t n, vf_in *in) {
    uint8_t a[32], b[32], g[32]; size_t i, k; uint8_t *c = malloc(n), *d = malloc(n); memcpy(c, p, n); memcpy(d, p, n); memset(g, 0xa5, 32); memset(a, 0xa5, 32); memset(b, 0xa5, 32);
    CHECK(crc_32(c, n) == ref_crc(p, n), "CRC-32"); md5(c, n, a); ref_md5(p, n, b); CHECK(memcmp(a, b, 32) == 0, "MD5"); memcpy(a, g, 32); memcpy(b, g, 32); sha1(c, n, a); ref_sha1(p, n, b); CHECK(memcmp(a, b, 32) == 0, "SHA-1"); CHECK(memcmp(c, d, n) == 0, "the data is not changed");
    struct md5_context_t *m = malloc(sizeof(*m)); struct sha1_context_t *s = malloc(sizeof(*s)); memset(m, 0x5a, sizeof(*m)); memset(s, 0x5a, sizeof(*s)); init_md5(m); init_sha1(s);
    for(i = 0; i < n; i += k) { static const unsigned q[8] = {1, 63, 64, 65, 0, 128, 9, 200}; unsigned x = vf_byte(in); k = x & 128 ? x & 127 : q[x & 7]; if(x == 0 && vf_left(in) == 0) k = n - i; if(k > n - i) k = n - i; uint8_t *e = malloc(k); memcpy(e, p + i, k); update_md5(m, e, k); update_sha1(s, e, k); CHECK(memcmp(e, p + i, k) == 0, "the data is not changed"); free(e); }
    uint8_t *r = malloc(20); final_sha1(s, r); CHECK(memcmp(r, b, 20) == 0, "SHA-1 in parts"); free(r); r = malloc(16); ref_md5(p, n, b); final_md5(m, r); CHECK(memcmp(r, b, 16) == 0, "MD5 in parts"); free(r); free(m); free(s); free(c); free(d); NONTRIVIAL();
}
void vf_scenario(vf_in *in) {
    unsigned m = vf_byte(in); size_t n, i; uint8_t *p; if(m & 1) { n = vf_left(in); if(n > 400) n = 400; p = vf_take(in, n); } else { n = (m >> 1) * 5 + vf_byte(in); unsigned s = vf_byte(in); p = malloc(n ? n : 1); for(i = 0; i < n; i++) p[i] = (uint8_t) (i * s + (i * i >> 3) * (s >> 4) + s); } compare(p, n, in); free(p);
}
/* all the bytes at once, as many as no counter of 32 bits takes */
static void huge(void) {
    size_t n = ((size_t) 1 << 29) + 61, i; uint8_t a[20], b[20], *z = mmap(NULL, n, PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if(z == MAP_FAILED) return; struct md5_context_t m; struct sha1_context_t s; init_sha1(&s); update_sha1(&s, z, n); final_sha1(&s, a); init_sha1(&s); for(i = 0; i < n; i += 61 * 64) update_sha1(&s, z, n - i < 61 * 64 ? n - i : 61 * 64); final_sha1(&s, b); CHECK(memcmp(a, b, 20) == 0, "SHA-1 in parts");
    init_md5(&m); update_md5(&m, z, n); final_md5(&m, a); init_md5(&m); for(i = 0; i < n; i += 61 * 64) update_md5(&m, z, n - i < 61 * 64 ? n - i : 61 * 64); final_md5(&m, b); CHECK(memcmp(a, b, 16) == 0, "MD5 in parts"); munmap(z, n);
}
void vf_fixed(void) {
    unsigned n, k; uint8_t b[700], q[64]; for(k = 0; k < 64; k++) q[k] = (uint8_t) (k * 37 + (k * k >> 2)); for(n = 0; n < 700; n++) b[n] = (uint8_t) (n * 59 + (n * n >> 4)); for(n = 0; n <= 640; n++) for(k = 0; k < 12; k++) { vf_in in = {q + k * 5, k ? 64 - k * 5 : 0, 0}; compare(b + k, n, &in); }
    for(n = 0; n < 256; n++) { uint8_t v[3] = {(uint8_t) n, 0, (uint8_t) n}; vf_in in = {q, 0, 0}; compare(v, 1, &in); compare(v, 3, &in); } if(vf_is_thorough) huge();
}
