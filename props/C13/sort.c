#include "vf_proof.h"
/* Contract of the sort: on return the range is sorted, its values are those it held before (rearranged) and nothing outside changed.
 * Quantified facts are followed through arbitrary fixed points: vf_p < vf_q are two positions of the result, vf_a and vf_b the
 * positions their values had after the partition (chosen beforehand), vf_k1 and vf_k2 two values of the input followed to their
 * places vf_t1 and vf_t2, vf_o a position outside the range. Values are compared by an arbitrary total preorder. */
#include <stdint.h>
void **vf_s; size_t vf_n, vf_beg, vf_end, vf_p, vf_q, vf_a, vf_b, vf_t1, vf_t2, vf_o; void *vf_v1, *vf_v2, *vf_ov; int vf_recs;
#define KEY(v) ((uintptr_t) (v) >> 2)
#define PART(x) (((x) >= beginning && (x) < left ==> KEY(vf_s[x]) <= KEY(pivot)) && ((x) >= right && (x) < end ==> KEY(vf_s[x]) > KEY(pivot)))
#define KEPT (vf_t1 >= beginning && vf_t1 < end && vf_s[vf_t1] == vf_v1 && vf_t2 >= beginning && vf_t2 < end && vf_s[vf_t2] == vf_v2 && vf_t1 != vf_t2 && vf_s[vf_o] == vf_ov)
#ifdef VF_ENTRY
#include "stdafx.h"
#include "sorting/quicksort.h"
int c_cmp(void *a, void *b);
extern void **vf_s;
#else
#define VF_LOOP_quicksort ASSIGNS(left, right, __CPROVER_object_whole(vf_s), vf_t1, vf_t2) INV(beginning < left && left <= right && right <= end && vf_s[beginning] == pivot) \
  INV(PART(vf_a) && PART(vf_b) && PART(vf_p) && PART(vf_q) && PART(left - 1)) INV(KEPT) DECR(right - left)
#include "vf_defaults.h"
#include "sorting/quicksort.c"
int c_cmp(void *a, void *b) { int r = nondet_int(); VF_ASSUME(KEY(a) < KEY(b) ? r < 0 : KEY(a) > KEY(b) ? r > 0 : r == 0); return r; }
/* contract of _swap_quicksort (unit swap), with the places of the followed values */
void c_swap(void **f, void **g) {
  size_t i = f - vf_s, j = g - vf_s; VF_ENSURES(i >= vf_beg && i < vf_end && j >= vf_beg && j < vf_end && f == &vf_s[i] && g == &vf_s[j], "inside the range"); void *x = vf_s[i]; vf_s[i] = vf_s[j]; vf_s[j] = x;
  vf_t1 = vf_t1 == i ? j : vf_t1 == j ? i : vf_t1; vf_t2 = vf_t2 == i ? j : vf_t2 == j ? i : vf_t2;
}
/* contract of the recursive calls, on smaller ranges inside the range */
void c_sort(void **s, size_t b, size_t e, comparator c) {
  VF_ENSURES(s == vf_s && c == c_cmp && b >= vf_beg && e <= vf_end && (e <= b || e - b < vf_end - vf_beg), "a smaller range inside the range"); vf_recs++; if(e <= b) return; 
  void *pa = vf_s[vf_a], *pb = vf_s[vf_b], *p = vf_s[vf_p], *q = vf_s[vf_q], *o = vf_s[vf_o]; size_t t1 = vf_t1, t2 = vf_t2;
#define IN(x) ((x) >= b && (x) < e)
  __CPROVER_havoc_object(vf_s); if(!IN(vf_p)) VF_ASSUME(vf_s[vf_p] == p); else { VF_ASSUME(IN(vf_a) && vf_s[vf_p] == pa); } if(!IN(vf_q)) VF_ASSUME(vf_s[vf_q] == q); else { VF_ASSUME(IN(vf_b) && vf_s[vf_q] == pb); }
  if(!IN(vf_a)) VF_ASSUME(vf_s[vf_a] == pa); if(!IN(vf_b)) VF_ASSUME(vf_s[vf_b] == pb); VF_ASSUME(vf_s[vf_o] == o);
  if(IN(vf_p) && IN(vf_q)) VF_ASSUME(KEY(vf_s[vf_p]) <= KEY(vf_s[vf_q]));
  if(IN(t1)) { vf_t1 = nondet_size(); VF_ASSUME(IN(vf_t1)); } if(IN(t2)) { vf_t2 = nondet_size(); VF_ASSUME(IN(vf_t2)); } VF_ASSUME(vf_t1 != vf_t2 && vf_s[vf_t1] == vf_v1 && vf_s[vf_t2] == vf_v2);
}
#endif
