#include "vf_proof.h"
/* A range header of the form  <unit>=<first>-<last>[,...]  : the separators are at vf_e, vf_s and vf_c (the comma or the
 * end of the string); no other separator comes before vf_c, a precondition used at the position the loop reads. */
size_t vf_e, vf_s, vf_c, vf_n; unsigned char *vf_r; unsigned long long vf_a, vf_b;
#ifdef U_FORM
#define VF_GHOST_range_limits VF_ASSUME(index >= vf_c || ((range[index] == '=') == (index == vf_e) && (range[index] == '-') == (index == vf_s) && range[index] != ','));
#define VF_LOOP_range_limits \
  ASSIGNS(index, mark, range_s, byte, is_valid, has_separator, has_initial, initial_byte_v) \
  INV(index <= vf_c + (vf_c < vf_n) && index <= vf_n && range_s == (index > vf_c ? vf_c : vf_n)) \
  INV(mark == (index <= vf_e ? 0 : index <= vf_s ? vf_e + 1 : vf_s + 1)) \
  INV(has_separator == (index > vf_s)) \
  INV(has_initial == (index > vf_s && vf_s > vf_e + 1)) \
  INV(initial_byte_v == (has_initial ? vf_a : 0)) \
  INV(is_valid == (has_initial == 0 || (range[vf_e + 1] >= '0' && range[vf_e + 1] <= '9'))) \
  DECR(vf_n + 1 - index)
#else
#define VF_LOOP_range_limits \
  ASSIGNS(index, mark, range_s, byte, is_valid, has_separator, has_initial, initial_byte_v) \
  INV(range_s <= vf_n && index <= range_s + 1 && mark <= index && mark <= vf_n) \
  INV(has_initial ==> has_separator) INV(has_separator <= 1 && has_initial <= 1) \
  DECR(range_s + 1 - index)
#endif
#include "vf_defaults.h"
#include "http/http_util.c"
void c_error(unsigned char *m) { }
size_t c_strlen(const char *s) { VF_ENSURES((unsigned char *) s == vf_r, "length of the range"); return vf_n; }
unsigned long long c_strtoull(const char *s, char **e, int base) {
  VF_ENSURES(SAME(s, vf_r) && OFFS(s) <= vf_n && base == 10 && e == NULL, "decimal number inside the range");
#ifdef U_FORM
  return OFFS(s) == vf_e + 1 ? vf_a : vf_b;
#else
  return nondet_ulong();
#endif
}
void u_safe(void) {
  vf_n = nondet_size(); VF_REQUIRES(vf_n < VF_MAX); vf_r = malloc(vf_n + 1); VF_REQUIRES(vf_r[vf_n] == 0);
  size_t i = 77, f = 78, size = nondet_size();
  ERROR_CODE r = get_http_range_limits(vf_r, &i, &f, size);
  if(r == 0) { VF_ENSURES(i <= f && f < size, "an accepted range is not empty and inside the contents"); VF_REACH("range accepted"); }
  else { VF_ENSURES(i == 77 && f == 78, "a refused range changes nothing"); VF_REACH("range refused"); }
}
#define DIG(p) (vf_r[p] >= '0' && vf_r[p] <= '9')
void u_form(void) {
  vf_n = nondet_size(); vf_e = nondet_size(); vf_s = nondet_size(); vf_c = nondet_size(); vf_a = nondet_ulong(); vf_b = nondet_ulong();
  VF_REQUIRES(vf_n < VF_MAX && vf_e < vf_s && vf_s < vf_c && vf_c <= vf_n); vf_r = malloc(vf_n + 1); VF_REQUIRES(vf_r[vf_n] == 0);
  VF_REQUIRES(vf_r[vf_e] == '=' && vf_r[vf_s] == '-' && vf_r[vf_e + 1] != '='); VF_REQUIRES(vf_c < vf_n ==> vf_r[vf_c] == ',');
  size_t i = 77, f = 78, size = nondet_size();
  ERROR_CODE r = get_http_range_limits(vf_r, &i, &f, size);
  int hasa = vf_s > vf_e + 1, hasb = vf_c > vf_s + 1;
  if(hasa && hasb && DIG(vf_e + 1) && DIG(vf_s + 1)) {
    VF_ENSURES((r == 0) == (vf_a < size && vf_a <= vf_b), "a first-last range is accepted when it can be satisfied");
    VF_ENSURES(r == 0 ==> (i == vf_a && f == (vf_b < size ? vf_b : size - 1)), "first-last range"); if(r == 0) VF_REACH("first-last");
  } else if(hasa && !hasb && DIG(vf_e + 1)) {
    VF_ENSURES((r == 0) == (vf_a < size), "an open range is accepted when it can be satisfied");
    VF_ENSURES(r == 0 ==> (i == vf_a && f == size - 1), "open range"); if(r == 0) VF_REACH("open");
  } else if(!hasa && hasb && DIG(vf_s + 1)) {
    VF_ENSURES((r == 0) == (vf_b > 0 && size > 0), "a suffix range is accepted when it can be satisfied");
    VF_ENSURES(r == 0 ==> (i == (vf_b < size ? size - vf_b : 0) && f == size - 1), "suffix range"); if(r == 0) VF_REACH("suffix");
  } else { VF_ENSURES(r != 0, "ranges without numbers are refused"); VF_REACH("no numbers"); }
}
