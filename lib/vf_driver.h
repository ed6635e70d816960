/* Native driver vocabulary: a driver decodes a byte string to one scenario, runs
 * the real code on it and compares with an oracle written from the property.
 * The same file is used for the counterexample search, for the labelled
 * bounded stand-ins and to replay a stored failing input. */
#ifndef VF_DRIVER_H
#define VF_DRIVER_H
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
typedef struct { const uint8_t *p; size_t n, i; } vf_in;
static inline unsigned vf_byte(vf_in *in) { return in->i < in->n ? in->p[in->i++] : 0; }
static inline unsigned vf_u16(vf_in *in) { unsigned a = vf_byte(in); return a | vf_byte(in) << 8; }
static inline uint32_t vf_u32(vf_in *in) { uint32_t a = vf_u16(in); return a | (uint32_t) vf_u16(in) << 16; }
static inline size_t vf_left(vf_in *in) { return in->n - in->i; }
/* value in [0, n) */
static inline size_t vf_pick(vf_in *in, size_t n) { return n <= 1 ? 0 : (n <= 256 ? vf_byte(in) % n : vf_u16(in) % n); }
/* exact-size heap copy of the next n bytes (out of bounds reads are caught) */
static inline uint8_t *vf_take(vf_in *in, size_t n) {
    uint8_t *r = (uint8_t *) malloc(n ? n : 1); size_t k;
    if(n == 0) { free(r); r = (uint8_t *) malloc(1); uint8_t *q = (uint8_t *) realloc(r, 1); return q; }
    for(k = 0; k < n; k++) r[k] = (uint8_t) vf_byte(in);
    return r;
}
extern const char *vf_msg;
#define CHECK(c, msg) do { if(!(c)) { fprintf(stderr, "VF-FAIL %s (%s:%d: %s)\n", msg, __FILE__, __LINE__, #c); fflush(stderr); abort(); } } while(0)
/* one scenario; provided by the driver */
void vf_scenario(vf_in *in);
/* fixed part: edge cases / exhaustive small inputs; provided by the driver */
void vf_fixed(void);
extern unsigned long vf_count, vf_nontrivial;
extern int vf_is_thorough;
#define NONTRIVIAL() (vf_nontrivial++)
#endif
