#define VF_ENTRY
#include "sort.c"
static void a_range(void) {
  vf_n = nondet_size(); vf_beg = nondet_size(); vf_end = nondet_size(); VF_REQUIRES(vf_n < ((size_t) 1 << 40) && vf_end < vf_n && vf_beg < vf_end); vf_s = __CPROVER_allocate(vf_n * sizeof(void *), 0); vf_p = nondet_size(); vf_q = nondet_size(); vf_a = nondet_size(); vf_b = nondet_size(); vf_t1 = nondet_size(); vf_t2 = nondet_size(); vf_o = nondet_size(); vf_recs = 0;
}
void u_sort(void) {
  a_range(); VF_REQUIRES(vf_end - vf_beg >= 2 && vf_beg <= vf_p && vf_p < vf_q && vf_q < vf_end && vf_a >= vf_beg && vf_a < vf_end && vf_b >= vf_beg && vf_b < vf_end && vf_t1 >= vf_beg && vf_t1 < vf_end && vf_t2 >= vf_beg && vf_t2 < vf_end && vf_t1 != vf_t2 && vf_o < vf_n && (vf_o < vf_beg || vf_o >= vf_end));
  vf_v1 = vf_s[vf_t1]; vf_v2 = vf_s[vf_t2]; vf_ov = vf_s[vf_o]; size_t beginning = vf_beg, end = vf_end; sort_quicksort(vf_s, vf_beg, vf_end, c_cmp);
  VF_ENSURES(KEY(vf_s[vf_p]) <= KEY(vf_s[vf_q]), "the values are in order"); VF_ENSURES(KEPT, "every value of the range is still there, and everything outside is kept"); VF_REACH("sorted");
}
void u_small(void) { a_range(); VF_REQUIRES(vf_o < vf_n); size_t b = nondet_size(), e = nondet_size(); VF_REQUIRES(b < vf_n && (e <= b || e - b < 2)); vf_ov = vf_s[vf_o]; sort_quicksort(vf_s, b, e, c_cmp); VF_ENSURES(vf_recs == 0 && vf_s[vf_o] == vf_ov, "a range of one value is sorted"); VF_REACH("small"); }
void u_swap(void) { void *x = nondet_ptr(), *y = nondet_ptr(), *a = x, *b = y; _swap_quicksort(&x, &y); VF_ENSURES(x == b && y == a, "exchanged"); _swap_quicksort(&x, &x); VF_ENSURES(x == b, "kept"); VF_REACH("swapped"); }
