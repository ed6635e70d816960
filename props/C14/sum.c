#include "vf_proof.h"
/* Contracts of the checksums. The block functions are compared with the standard, written out step by step in rfc1321.h and
 * fips180.h, for every state and every block. Updating and finishing are specified over the stream of bytes hashed so far:
 * L bytes so far, of which A were given to the block function in blocks of 64; byte number X of the (padded) stream is V,
 * for arbitrary X, so it stands for all of them. */
typedef unsigned int w32; unsigned long vf_L, vf_A, vf_X, vf_n, vf_pos, vf_i; unsigned char vf_V, *vf_base; w32 vf_s[5], vf_g[4], vf_crc; unsigned char vf_w[64]; int vf_k; void *vf_ctx;
#define ROT(x, n) (((x) << (n)) | ((x) >> (32 - (n))))
/* bitwise division by the reflected polynomial of CRC-32 */
#define C1(c) (((c) >> 1) ^ (((c) & 1) ? 0xedb88320u : 0u))
static w32 crc8(w32 c) { c = C1(c); c = C1(c); c = C1(c); c = C1(c); c = C1(c); c = C1(c); c = C1(c); return C1(c); }
/* the table is constant: its contract, proved for every entry by the unit table, is assumed at the entry used */
#define TABLE(i) VF_ASSUME(crc32_table[i] == crc8(i));
#define VF_LOOP_crc_32 ASSIGNS(index, crc32_value, vf_i, vf_crc) INV(index <= buffer_length && vf_i == index && crc32_value == vf_crc) DECR(buffer_length - index)
#define VF_GHOST_crc_32 TABLE((vf_crc ^ vf_base[vf_i]) & 0xff) vf_crc = crc8(vf_crc ^ vf_base[vf_i]); vf_i++;
/* one block of MD5 after RFC 1321 */
static void spec_md5(w32 *g, const unsigned char *p) {
  w32 a = g[0], b = g[1], c = g[2], d = g[3], t;
#define SF(x, y, z) ((z) ^ ((x) & ((y) ^ (z))))
#define SG(x, y, z) ((y) ^ ((z) & ((x) ^ (y))))
#define SH(x, y, z) ((x) ^ (y) ^ (z))
#define SI(x, y, z) ((y) ^ ((x) | ~(z)))
#define Q(f, k, s, T) t = a + S##f(b, c, d) + *(const w32 *) &p[(k) * 4] + T; t = ROT(t, s) + b; a = d; d = c; c = b; b = t;
#include "rfc1321.h"
#undef Q
  g[0] += a; g[1] += b; g[2] += c; g[3] += d;
}
#ifdef WINDOW /* what each block does: the block to be read is any 64 bytes, kept in vf_w (the unit md5_place shows which they are) */
#define VF_LOOP_md5 ASSIGNS(a, b, c, d, saved_a, saved_b, saved_c, saved_d, pointer, size, vf_pos, OBJ(vf_g), OBJ(vf_w)) \
  INV(vf_pos < vf_n && vf_pos % 64 == 0 && size == vf_n - vf_pos && a == vf_g[0] && b == vf_g[1] && c == vf_g[2] && d == vf_g[3]) DECR(size)
#define VF_GHOST_md5 VF_ENSURES(a == vf_g[0] && b == vf_g[1] && c == vf_g[2] && d == vf_g[3], "the state of the blocks before"); pointer = vf_w; vf_g[0] = a; vf_g[1] = b; vf_g[2] = c; vf_g[3] = d; spec_md5(vf_g, vf_w); vf_pos += 64;
#else
#define VF_LOOP_md5 ASSIGNS(a, b, c, d, saved_a, saved_b, saved_c, saved_d, pointer, size, vf_pos) \
  INV(vf_pos < vf_n && vf_pos % 64 == 0 && size == vf_n - vf_pos && (void *) pointer == (void *) (vf_base + vf_pos)) DECR(size)
#define VF_GHOST_md5 VF_ENSURES(pointer == vf_base + vf_pos, "the blocks in order"); vf_pos += 64;
#endif
#define MIN(a, b) ((a) < (b) ? (a) : (b))
#define VF_LOOP_sha1_update ASSIGNS(i, OBJ(vf_s), context->state[0], context->state[1], context->state[2], context->state[3], context->state[4], vf_A) INV(i >= 64 - j && i <= size && vf_A == vf_L + i && vf_A % 64 == 0 && SAME_ST(context->state)) DECR(size - i)
#define VF_GHOST_sha1_update
#define SAME_ST(s) ((s)[0] == vf_s[0] && (s)[1] == vf_s[1] && (s)[2] == vf_s[2] && (s)[3] == vf_s[3] && (s)[4] == vf_s[4])
#define VF_LOOP_sha1_pad ASSIGNS(OBJ(context), OBJ(vf_s), vf_A, vf_L) INV(CONS1(context) && vf_L > vf_n && (vf_L - 1) / 64 <= (vf_n + 8) / 64 && (vf_L % 64 <= 56 || vf_n % 64 >= 56) && vf_L <= T(vf_n) - 8)  DECR(T(vf_n) - 8 - vf_L)
#define VF_GHOST_sha1_pad
#define T(n) (((n) + 8) / 64 * 64 + 64)
#define TRACK(c) ((vf_A <= vf_X && vf_X < vf_L) ? (c)->buffer[vf_X - vf_A] == vf_V : 1)
#define CONS1(c) ((c)->count[0] == (w32) (vf_L << 3) && (c)->count[1] == (w32) (vf_L >> 29) && vf_A == vf_L - vf_L % 64 && SAME_ST((c)->state) && TRACK(c))
#define SAME_M(x) ((x)->a == vf_s[0] && (x)->b == vf_s[1] && (x)->c == vf_s[2] && (x)->d == vf_s[3])
#define CONSM(c) ((c)->low == (w32) (vf_L & 0x1fffffff) && (c)->high == (w32) (vf_L >> 29) && vf_A == vf_L - vf_L % 64 && SAME_M(c) && TRACK(c))
#include "vf_defaults.h"
#include "stdafx.h"
#include "checksum/crc_32.c"
#include "checksum/md5.c"
#include "checksum/sha1.c"
#define BIG ((unsigned long) 1 << 40)
#define START vf_L = nondet_ulong(); vf_A = vf_L - vf_L % 64; vf_X = nondet_ulong(); vf_V = nondet_u8(); vf_n = nondet_size(); VF_ASSUME(vf_L <= BIG && vf_n <= BIG && vf_X <= 4 * BIG);
#define ST vf_s[0] = nondet_uint(); vf_s[1] = nondet_uint(); vf_s[2] = nondet_uint(); vf_s[3] = nondet_uint(); vf_s[4] = nondet_uint();
void u_crc(void) { unsigned n = nondet_uint(); vf_base = malloc(n); vf_i = 0; vf_crc = 0xffffffffu; unsigned long r = crc_32(vf_base, n); VF_ENSURES(vf_i == n, "all the bytes, in order"); VF_ENSURES(r == (unsigned long) (vf_crc ^ 0xffffffffu), "the CRC-32 of the bytes"); VF_REACH("crc"); }
void u_table(void) { unsigned i = nondet_uint(); VF_ASSUME(i < 256); VF_ENSURES(sizeof(crc32_table) == 256 * sizeof(crc32_table[0]), "256 entries"); VF_ENSURES(crc32_table[i] == crc8(i), "the entry is the remainder of its index"); VF_REACH("table"); }
void u_md5_body(void) {
  struct md5_context_t c; vf_n = nondet_size(); VF_ASSUME(vf_n > 0 && vf_n % 64 == 0 && vf_n <= BIG); vf_base = malloc(vf_n); vf_pos = 0; vf_g[0] = c.a; vf_g[1] = c.b; vf_g[2] = c.c; vf_g[3] = c.d; w32 lo = c.low, hi = c.high; vf_i = nondet_size() % 64; vf_V = c.buffer[vf_i];
#ifdef WINDOW
  _body_md5(&c, vf_base, vf_n); VF_ENSURES(c.a == vf_g[0] && c.b == vf_g[1] && c.c == vf_g[2] && c.d == vf_g[3], "the MD5 of the blocks");
#else
  void *r = _body_md5(&c, vf_base, vf_n); VF_ENSURES(vf_pos == vf_n && r == vf_base + vf_n, "all the blocks, in order"); VF_ENSURES(c.low == lo && c.high == hi && c.buffer[vf_i] == vf_V, "nothing else changes");
#endif
  VF_REACH("md5 blocks");
}
/* one block of SHA-1 after FIPS 180-4 */
static void spec_sha1(w32 *h, const unsigned char *p) {
  w32 a = h[0], b = h[1], c = h[2], d = h[3], e = h[4], t, w[16];
#define BE(x) ((ROT(x, 24) & 0xff00ff00u) | (ROT(x, 8) & 0x00ff00ffu))
#define SCH(x, y, z) (((x) & ((y) ^ (z))) ^ (z))
#define SPA(x, y, z) ((x) ^ (y) ^ (z))
#define SMA(x, y, z) ((((x) | (y)) & (z)) | ((x) & (y)))
#define QA(f, i, k) w[i] = BE(*(const w32 *) &p[(i) * 4]); QC(f, i, k)
#define QB(f, i, k) t = w[((i) + 13) & 15] ^ w[((i) + 8) & 15] ^ w[((i) + 2) & 15] ^ w[(i) & 15]; w[(i) & 15] = ROT(t, 1); QC(f, i, k)
#define QC(f, i, k) t = e + S##f(b, c, d) + w[(i) & 15] + k + ROT(a, 5); e = d; d = c; c = ROT(b, 30); b = a; a = t;
#include "fips180.h"
  h[0] += a; h[1] += b; h[2] += c; h[3] += d; h[4] += e;
}
void u_sha1_block(void) {
  w32 s[5], g[5]; unsigned char b[64], o[64]; g[0] = s[0]; g[1] = s[1]; g[2] = s[2]; g[3] = s[3]; g[4] = s[4]; vf_i = nondet_size() % 64; vf_V = b[vf_i]; spec_sha1(g, b); _transform_sha1(s, b);
  VF_ENSURES(s[0] == g[0] && s[1] == g[1] && s[2] == g[2] && s[3] == g[3] && s[4] == g[4], "the SHA-1 of the block"); VF_ENSURES(b[vf_i] == vf_V, "the data is not changed"); VF_REACH("sha1 block");
}
/* the forms used above are those of the standards */
void u_forms(void) {
  w32 x = nondet_uint(), y = nondet_uint(), z = nondet_uint(); unsigned char p[4];
  VF_ENSURES(SF(x, y, z) == ((x & y) | (~x & z)) && SG(x, y, z) == ((x & z) | (y & ~z)), "F and G of RFC 1321"); VF_ENSURES(SCH(x, y, z) == ((x & y) ^ (~x & z)) && SMA(x, y, z) == ((x & y) ^ (x & z) ^ (y & z)), "Ch and Maj of FIPS 180-4");
  w32 l = *(w32 *) p; VF_ENSURES(l == (p[0] | (w32) p[1] << 8 | (w32) p[2] << 16 | (w32) p[3] << 24), "little endian words"); VF_ENSURES(BE(l) == (p[3] | (w32) p[2] << 8 | (w32) p[1] << 16 | (w32) p[0] << 24), "big endian words"); VF_REACH("forms");
}
/* the block functions as contracts: the blocks come in order, whole, and nobody else changes the state */
static void track(const unsigned char *p, unsigned long n) { if(vf_X >= vf_A && vf_X - vf_A < n) VF_ENSURES(p[vf_X - vf_A] == vf_V, "the bytes of the stream, in order"); vf_A += n; }
void *c_body(struct md5_context_t *c, void *d, unsigned long n) { VF_ENSURES(n > 0 && n % 64 == 0, "whole blocks"); VF_ENSURES(SAME_M(c), "the state of the blocks before"); track(d, n); ST c->a = vf_s[0]; c->b = vf_s[1]; c->c = vf_s[2]; c->d = vf_s[3]; return (unsigned char *) d + n; }
void c_transform(unsigned int *s, const unsigned char *p) { VF_ENSURES(SAME_ST(s), "the state of the blocks before"); track(p, 64); ST s[0] = vf_s[0]; s[1] = vf_s[1]; s[2] = vf_s[2]; s[3] = vf_s[3]; s[4] = vf_s[4]; }
#define DATA unsigned char *d = malloc(vf_n); vf_base = d; VF_ASSUME(vf_L <= vf_X && vf_X < vf_L + vf_n ? d[vf_X - vf_L] == vf_V : 1);
void u_md5_update(void) { struct md5_context_t c; START ST VF_ASSUME(CONSM(&c)); DATA update_md5(&c, d, vf_n); vf_L += vf_n; VF_ENSURES(CONSM(&c), "the context stands for the bytes so far"); VF_REACH("md5 update"); }
void u_sha1_update(void) { struct sha1_context_t c; START ST VF_ASSUME(CONS1(&c)); DATA vf_i = vf_L; update_sha1(&c, d, vf_n); vf_L += vf_n; VF_ENSURES(CONS1(&c), "the context stands for the bytes so far"); VF_REACH("sha1 update"); }
/* copying, followed for the tracked byte only */
void *c_memcpy(void *d, const void *s, size_t n) { unsigned char *p = d; const unsigned char *q = s; VF_ENSURES(n == 0 || (__CPROVER_w_ok(p, n) && __CPROVER_r_ok(q, n)), "copied inside the buffers"); unsigned char v = 0; int in = SAME(q, vf_base) && vf_X >= vf_L && vf_X - vf_L < vf_n && vf_X - vf_L >= OFFS(q) && vf_X - vf_L - OFFS(q) < n; if(n > 0) __CPROVER_havoc_slice(p, n); if(in) p[vf_X - vf_L - OFFS(q)] = vf_V; return d; }
/* the padding: 0x80, zeros up to eight bytes before the end of a block, the length in bits */
#define PADBYTE(len) (vf_X < vf_L || vf_V == (vf_X == vf_L ? 0x80 : vf_X < T(vf_L) - 8 ? 0 : (unsigned char) ((vf_L * 8) >> (len))))
void u_md5_final(void) {
  struct md5_context_t c; unsigned char r[16]; START ST VF_ASSUME(CONSM(&c) && vf_X < T(vf_L) && PADBYTE(8 * (vf_X % 8))); unsigned k = nondet_u8() % 16;
  final_md5(&c, r); VF_ENSURES(vf_A == T(vf_L), "the padded stream"); VF_ENSURES(r[k] == (unsigned char) (vf_s[k / 4] >> (8 * (k % 4))), "the digest is the state"); VF_REACH("md5 final");
}
/* updating as a contract (proved by u_sha1_update) */
void c_update(struct sha1_context_t *c, const unsigned char *d, const size_t n) {
  unsigned long i; VF_ENSURES(CONS1(c), "the context stands for the bytes so far"); if(vf_X >= vf_L && vf_X - vf_L < n) VF_ENSURES(d[vf_X - vf_L] == vf_V, "the padding");
  vf_L += n; if(vf_L - vf_L % 64 != vf_A) { ST vf_A = vf_L - vf_L % 64; } w32 *s = c->state; s[0] = vf_s[0]; s[1] = vf_s[1]; s[2] = vf_s[2]; s[3] = vf_s[3]; s[4] = vf_s[4]; c->count[0] = (w32) (vf_L << 3); c->count[1] = (w32) (vf_L >> 29);
  __CPROVER_havoc_slice(c->buffer, 64); VF_ASSUME(TRACK(c));
}
void u_sha1_final(void) {
  struct sha1_context_t c; unsigned char r[20]; START ST VF_ASSUME(CONS1(&c)); unsigned long m = vf_L; vf_n = m; VF_ASSUME(vf_X < T(m) && PADBYTE(56 - 8 * (vf_X % 8))); unsigned k = nondet_u8() % 20;
  final_sha1(&c, r); VF_ENSURES(vf_L == T(m) && vf_A == T(m), "the padded stream"); VF_ENSURES(r[k] == (unsigned char) (vf_s[k / 4] >> (24 - 8 * (k % 4))), "the digest is the state"); VF_REACH("sha1 final");
}
void u_init(void) {
  struct md5_context_t m; struct sha1_context_t c; vf_L = vf_A = 0; vf_X = nondet_ulong(); init_md5(&m); vf_s[0] = 0x67452301; vf_s[1] = 0xefcdab89; vf_s[2] = 0x98badcfe; vf_s[3] = 0x10325476; vf_s[4] = 0xc3d2e1f0; VF_ENSURES(CONSM(&m), "MD5 starts empty, at the state of RFC 1321"); init_sha1(&c); VF_ENSURES(CONS1(&c), "SHA-1 starts empty, at the state of FIPS 180-4"); VF_REACH("init");
}
/* the one call forms: start, all the bytes, finish */
void cs_init(void *c) { VF_ENSURES(vf_k == 0, "start first"); vf_ctx = c; vf_k = 1; }
void cs_update(void *c, const unsigned char *d, size_t n) { VF_ENSURES(vf_k == 1 && c == vf_ctx && d == vf_base && n == vf_n, "all the bytes"); vf_k = 2; }
void cs_final(void *c, unsigned char *r) { VF_ENSURES(vf_k == 2 && c == vf_ctx && r == vf_w, "finish"); vf_k = 3; }
void ci_md5(struct md5_context_t *c) { cs_init(c); } void cu_md5(struct md5_context_t *c, void *d, unsigned long n) { cs_update(c, d, n); } void cf_md5(struct md5_context_t *c, unsigned char *r) { cs_final(c, r); }
void ci_sha1(struct sha1_context_t *c) { cs_init(c); } void cu_sha1(struct sha1_context_t *c, const unsigned char *d, const size_t n) { cs_update(c, d, n); } void cf_sha1(struct sha1_context_t *c, unsigned char *r) { cs_final(c, r); }
void u_whole(void) { unsigned n = nondet_uint(); vf_n = n; vf_base = malloc(n); vf_k = 0; if(nondet_u8() & 1) md5(vf_base, n, vf_w); else sha1(vf_base, n, vf_w); VF_ENSURES(vf_k == 3, "finished"); VF_REACH("whole"); }
