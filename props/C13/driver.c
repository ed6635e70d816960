#include "vf_driver.h"
#include "stdafx.h"
#include "sorting/quicksort.h"
#include "structures/linked_list.h"
/* sorting against counting: values are (key, serial) pairs, compared by key only */
static int mode; static size_t calls; struct rec { int key; unsigned id; };
static int cmp(void *a, void *b) { struct rec *x = a, *y = b; calls++; int r = x->key < y->key ? -1 : x->key > y->key; return mode & 1 ? -r : r * (1 + (int) (calls % 3)); }
static void drive(vf_in *in) {
    static struct rec R[4096]; static void *S[4200]; static unsigned char seen[4096]; mode = vf_byte(in); size_t i, n = 0, beg, end, m = vf_left(in), rep = mode & 2 ? 1 : 1 + (mode >> 5);
    for(; n < 2048 && n < m * rep; n++) { R[n].key = (mode & 4 ? (in->p + n % m < in->p + in->n ? in->p[n % m] & 3 : 0) : mode & 8 ? (int) n : mode & 16 ? -(int) n : (int) (in->p[n % m] * 7 + n / m) % 97); R[n].id = n; }
    for(i = 0; i < 64; i++) S[i] = S[64 + n + i] = (void *) (size_t) (i * 3 + 1); for(i = 0; i < n; i++) S[64 + i] = &R[i];
    beg = n && (mode & 64) ? mode % n : 0; end = n - (n && (mode & 128) ? (mode >> 1) % (n - beg ? n - beg : 1) : 0); calls = 0; sort_quicksort(S + 64, beg, end, cmp); memset(seen, 0, sizeof(seen));
    for(i = 0; i < 64; i++) CHECK(S[i] == (void *) (size_t) (i * 3 + 1) && S[64 + n + i] == S[i], "outside the sequence"); for(i = 0; i < n; i++) if(i < beg || i >= end) CHECK(S[64 + i] == &R[i], "outside the range");
    for(i = beg; i < end; i++) { struct rec *r = S[64 + i]; CHECK(r >= R + beg && r < R + end && !seen[r - R], "every value once"); seen[r - R] = 1; if(i > beg) { int k = ((struct rec *) S[64 + i - 1])->key; CHECK(mode & 1 ? k >= r->key : k <= r->key, "in order"); } }
    struct linked_list_t *l; struct linked_list_node_t *x; create_linked_list(&l); for(i = 0; i < n && i < 300; i++) append_value_linked_list(l, &R[i]); m = i; sort_linked_list(l, cmp); memset(seen, 0, sizeof(seen)); CHECK(l->size == m, "size");
    for(i = 0, x = l->first; i < m; i++, x = x->next) { CHECK(x != NULL, "links"); struct rec *r = x->value; CHECK(r >= R && r < R + m && !seen[r - R], "every value once"); seen[r - R] = 1; if(i) { int k = ((struct rec *) x->previous->value)->key; CHECK(mode & 1 ? k >= r->key : k <= r->key, "in order"); } } CHECK(x == NULL, "end"); delete_linked_list(l); NONTRIVIAL();
}
void vf_scenario(vf_in *in) { drive(in); }
void vf_fixed(void) { unsigned s, m; uint8_t b[160]; for(m = 0; m < 256; m++) for(s = 0; s < 40; s++) { unsigned i; for(i = 0; i < 160; i++) b[i] = (uint8_t) ((i * (s * 2 + 1) * 37 + s * 11 + (i * i >> 3)) >> (s & 3)); b[0] = m; vf_in in = {b, 1 + s * 3, 0}; drive(&in); } }
