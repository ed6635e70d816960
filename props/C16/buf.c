#include "vf_proof.h"
struct vf_ghost { size_t i, n, pos, total, copies; unsigned char *s; size_t l; int si, li, out; } vf_g;
#define VF_LOOP_string_join ASSIGNS(partial_value, partial_value_length, pointer, vf_g.i, vf_g.pos, vf_g.s, vf_g.l, vf_g.out) \
  INV(vf_g.i <= vf_g.n && vf_g.pos <= vf_g.total && (vf_g.i == vf_g.n ==> vf_g.pos == vf_g.total) && SAME(pointer, string_value) && OFFS(pointer) == vf_g.pos && vf_g.out == 0) DECR(vf_g.n - vf_g.i)
#define VF_LOOP_string_release ASSIGNS(string_value, vf_g.i, vf_g.out, vf_g.s) INV(vf_g.i <= vf_g.n && vf_g.out == 0) DECR(vf_g.n - vf_g.i)
#include "structures/string_buffer.c"
struct string_buffer_t *vf_b; struct linked_list_t *vf_sl, *vf_ll, *vf_rl; struct iterator_t *vf_is, *vf_il; unsigned char *vf_value; unsigned char vf_o[2]; int vf_ds, vf_dl;
static void begin(void) {
  vf_b = malloc(sizeof(*vf_b)); vf_sl = malloc(1); vf_ll = malloc(1); vf_rl = malloc(1); vf_is = malloc(1); vf_il = malloc(1); vf_b->string_list = vf_sl; vf_b->length_list = vf_ll; vf_b->release_list = vf_rl;
  vf_g.i = 0; vf_g.pos = 0; vf_g.out = 0; vf_g.n = nondet_size(); vf_g.total = nondet_size(); vf_g.si = vf_g.li = 0; vf_ds = vf_dl = 0; VF_REQUIRES(vf_g.n < VF_MAX && vf_g.total < VF_MAX && (vf_g.n == 0 ==> vf_g.total == 0)); vf_b->string_length = vf_g.total;
}
/* ---- join: the strings are the pieces 0 to n - 1, their lengths add up to the total length ---- */
void c_iter(struct linked_list_t *l, struct iterator_t **i) { if(l == vf_sl) { vf_g.si++; *i = vf_is; } else { VF_ENSURES(l == vf_ll, "the strings and their lengths are followed"); vf_g.li++; *i = vf_il; } }
void c_diter(struct linked_list_t *l, struct iterator_t *i) { VF_ENSURES((l == vf_sl && i == vf_is) || (l == vf_ll && i == vf_il), "each iterator is released with its list"); if(i == vf_is) vf_ds++; else vf_dl++; }
/* vf_g.out: bit 1 the string of the piece was given, bit 2 its length */
void c_next(struct iterator_t *i, void **v) {
  if(i == vf_is) { VF_ENSURES(!(vf_g.out & 1), "strings and lengths advance together"); if(vf_g.i < vf_g.n) { vf_g.s = vf_o + (nondet_u8() & 1); *v = vf_g.s; } else *v = NULL; vf_g.out |= 1; }
  else {
    VF_ENSURES(i == vf_il && !(vf_g.out & 2), "strings and lengths advance together"); if(vf_g.i < vf_g.n) { vf_g.l = nondet_size(); VF_ASSUME(vf_g.l <= vf_g.total - vf_g.pos && (vf_g.i + 1 == vf_g.n ==> vf_g.l == vf_g.total - vf_g.pos)); *v = (void *) vf_g.l; } else *v = NULL; vf_g.out |= 2; }
}
int vf_on;
void *c_malloc(size_t n) { if(!vf_on) return __CPROVER_allocate(n, 0); VF_ENSURES(n == vf_g.total + 1, "room for all the strings and the end"); vf_value = __CPROVER_allocate(n, 0); return vf_value; }
void *c_memcpy(void *d, const void *s, size_t n) {
  VF_ENSURES(vf_g.out == 3 && vf_g.i < vf_g.n, "a piece was taken"); VF_ENSURES((unsigned char *) d == vf_value + vf_g.pos && s == vf_g.s && n == vf_g.l, "the complete piece follows the previous one"); vf_g.pos += n; vf_g.i++; vf_g.out = 0; return d;
}
void u_join(void) {
  vf_on = 0; begin(); unsigned char *r; size_t n = vf_g.n; vf_on = 1; join_string_buffer(vf_b, &r);
  VF_ENSURES(r == vf_value && vf_g.i == n && vf_g.pos == vf_g.total, "every string is in the result once and in order"); VF_ENSURES(r[vf_g.total] == 0, "the result is terminated"); VF_ENSURES(vf_g.si == 1 && vf_g.li == 1 && vf_ds == 1 && vf_dl == 1, "both iterators are released");
  VF_ENSURES(vf_b->string_length == vf_g.total && vf_b->string_list == vf_sl && vf_b->length_list == vf_ll, "the strings are kept"); if(n > 1) VF_REACH("joined");
}
/* ---- append: the string and its length are added to the end of both lists, the total grows by the length ---- */
size_t vf_len, vf_as, vf_al, vf_ar; unsigned char *vf_str;
size_t c_strlen(const char *s) { VF_ENSURES((unsigned char *) s == vf_str, "length of the string"); return vf_len; }
void c_append(struct linked_list_t *l, void *v) {
  if(l == vf_sl) { VF_ENSURES(v == (void *) vf_str, "the string is added"); vf_as++; } else if(l == vf_ll) { VF_ENSURES(v == (void *) vf_len, "its length is added"); vf_al++; } else { VF_ENSURES(l == vf_rl && v == (void *) vf_str, "the string is released later"); vf_ar++; }
}
void u_append(void) {
  begin(); vf_str = vf_o; vf_len = nondet_size(); VF_REQUIRES(vf_len < VF_MAX); vf_as = vf_al = vf_ar = 0; struct string_t st; st.buffer = vf_str; st.length = vf_len; unsigned char w = nondet_u8() % 6; int own = 0;
  switch(w) { case 0: append_string_buffer(vf_b, vf_str); break; case 1: append_string_l_buffer(vf_b, vf_str, vf_len); break; case 2: append_string_t_buffer(vf_b, &st); break; case 3: _append_string_buffer(vf_b, vf_str); own = 1; break; case 4: _append_string_l_buffer(vf_b, vf_str, vf_len); own = 1; break; default: _append_string_t_buffer(vf_b, &st); own = 1; }
  VF_ENSURES(vf_as == 1 && vf_al == 1 && vf_ar == own, "the string is added once, and released later when it is owned"); VF_ENSURES(vf_b->string_length == vf_g.total + vf_len, "the total length grows by that of the string"); VF_REACH("added");
}
/* ---- create and delete ---- */
int vf_made, vf_del; void *vf_freed;
void c_create(struct linked_list_t **l) { vf_made++; *l = vf_made == 1 ? vf_sl : vf_made == 2 ? vf_ll : vf_rl; }
void u_create(void) { begin(); struct string_buffer_t *b = NULL; vf_made = 0; create_string_buffer(&b); VF_ENSURES(b != NULL && b->string_length == 0 && vf_made == 3 && b->string_list != b->length_list && b->length_list != b->release_list && b->string_list != b->release_list, "an empty buffer with its lists"); VF_REACH("created"); }
void c_pop(struct linked_list_t *l, void **v, char r) { VF_ENSURES(l == vf_rl && r && vf_g.out == 0 && vf_del == 0, "the owned strings are taken"); if(vf_g.i < vf_g.n) { vf_g.s = vf_o + (nondet_u8() & 1); *v = vf_g.s; vf_g.out = 1; } else *v = NULL; }
void c_free(void *p) { if(p == (void *) vf_b) { VF_ENSURES(vf_del == 7 && vf_g.i == vf_g.n, "the buffer is released last"); vf_freed = p; } else { VF_ENSURES(vf_g.out == 1 && p == vf_g.s, "each owned string is released once"); vf_g.out = 0; vf_g.i++; } }
void c_ldelete(struct linked_list_t *l) { int k = l == vf_sl ? 1 : l == vf_ll ? 2 : 4; VF_ENSURES((l == vf_sl || l == vf_ll || l == vf_rl) && !(vf_del & k) && vf_g.i == vf_g.n, "each list is released once"); vf_del |= k; }
void u_delete(void) { begin(); vf_del = 0; vf_freed = NULL; delete_string_buffer(vf_b); VF_ENSURES(vf_g.i == vf_g.n && vf_del == 7 && vf_freed == (void *) vf_b, "everything is released"); VF_REACH("released"); }
