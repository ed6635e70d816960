#include "vf_proof.h"
/* Contract of the linked list: vf_n[0..vf_size) are the nodes in list order (the code only follows addresses, so the place of
 * a node in memory is immaterial); the links of a node are assumed when the node is visited, SHAPE. */
struct linked_list_node_t; struct linked_list_t; struct linked_list_node_t *vf_n; size_t vf_size, vf_at, vf_k, vf_j; void *vf_v, *vf_found; struct linked_list_t *vf_l; void **vf_seq; int vf_done;
#define NODE(i) ((i) < vf_size ? &vf_n[i] : (struct linked_list_node_t *) NULL)
#define SHAPE(i) ((i) < vf_size ? vf_n[i].next == NODE((i) + 1) && vf_n[i].previous == ((i) > 0 ? &vf_n[(i) - 1] : (struct linked_list_node_t *) NULL) : 1)
#define VISIT(p, i) { VF_ENSURES((i) < vf_size && (p) == &vf_n[i], "the nodes in order"); p = &vf_n[i]; VF_ASSUME(SHAPE(i)); }
#define VF_GHOST_list_delete VISIT(current_node, index)
#define VF_LOOP_list_delete ASSIGNS(index, next_node, current_node, vf_at) INV(index <= vf_size && vf_at == index && current_node == NODE(index)) DECR(vf_size - index)
#define VF_GHOST_list_clear VISIT(current_node, index)
#define VF_LOOP_list_clear ASSIGNS(index, next_node, current_node, vf_at) INV(index <= vf_size && vf_at == index && current_node == NODE(index)) DECR(vf_size - index)
/* insertion sees two nodes at a time: vf_wn is the node number _index, vf_wp the one before it (number vf_rank - 1) */
#define WINDOW(i) (vf_rank == (i) && next == &vf_wn && previous == ((i) > 0 ? &vf_wp : (struct linked_list_node_t *) NULL))
#define VF_GHOST_list_insert { VF_ENSURES(WINDOW(_index), "the nodes in order"); vf_rank++; next = &vf_wp; vf_wp.next = &vf_wn; vf_wn.previous = &vf_wp; }
#define VF_GHOST_list_inserted { VF_ENSURES(WINDOW(index), "the nodes around the place"); next = &vf_wn; previous = index > 0 ? &vf_wp : NULL; }
#define VF_LOOP_list_insert ASSIGNS(_index, next, previous, vf_wn, vf_wp, vf_rank) INV(_index <= index && WINDOW(_index)) DECR(index - _index)
#define VF_GHOST_list_find VISIT(current_node, index)
#define VF_LOOP_list_find ASSIGNS(index, current_node, target_node) INV(index <= vf_size && target_node == NULL && current_node == NODE(index) && (vf_k < index ==> vf_n[vf_k].value != value)) DECR(vf_size - index)
#define VF_GHOST_list_remove VISIT(current_node, _index)
#define VF_LOOP_list_remove ASSIGNS(_index, current_node) INV(_index <= index && current_node == NODE(_index)) DECR(index - _index)
#define VF_GHOST_list_get VISIT(current_node, _index)
#define VF_LOOP_list_get ASSIGNS(_index, current_node) INV(_index <= index && current_node == NODE(_index)) DECR(index - _index)
#define VF_GHOST_list_sequence VISIT(current_node, index)
#define VF_LOOP_list_sequence ASSIGNS(index, next_node, current_node, __CPROVER_object_whole(vf_seq)) INV(index <= vf_size && current_node == NODE(index) && (vf_k < index ==> vf_seq[vf_k] == vf_n[vf_k].value)) DECR(vf_size - index)
#define VF_GHOST_list_sort VISIT(current_node, index)
#define VF_LOOP_list_sort ASSIGNS(index, next_node, current_node, __CPROVER_object_whole(vf_n)) INV(index <= vf_size && current_node == NODE(index) && (vf_k < index ==> vf_n[vf_k].value == vf_seq[vf_k]) && SHAPE(vf_k)) DECR(vf_size - index)
#include "vf_defaults.h"
#include "stdafx.h"
#include "structures/linked_list.h"
struct linked_list_node_t vf_wn, vf_wp; size_t vf_rank;
#include "structures/linked_list.c"
static struct linked_list_t *L;
static void a_list(size_t min) {
  vf_size = nondet_size(); VF_REQUIRES(vf_size >= min && vf_size < ((size_t) 1 << 31)); vf_n = __CPROVER_allocate(sizeof(struct linked_list_node_t) * vf_size, 0); L = __CPROVER_allocate(sizeof(struct linked_list_t), 0); vf_l = L; L->size = vf_size;
  L->first = vf_size ? &vf_n[0] : NULL; L->last = vf_size ? &vf_n[vf_size - 1] : NULL; vf_at = 0; vf_done = 0; vf_k = nondet_size(); vf_j = nondet_size(); VF_REQUIRES(vf_k < vf_size || vf_size == 0); if(vf_size) VF_REQUIRES(SHAPE(vf_k) && SHAPE(0) && SHAPE(vf_size - 1));
}
/* ---- traversal ---- */
void c_pfree(struct memory_pool_t *p, void *b) { VF_ENSURES(p == &pool && vf_at < vf_size && b == &vf_n[vf_at], "every node is released once"); vf_at++; }
void c_free(void *p) { VF_ENSURES(p == L && vf_at == vf_size && !vf_done, "the list is released after its nodes"); vf_done = 1; }
void u_delete(void) { a_list(0); delete_linked_list(L); VF_ENSURES(vf_at == vf_size && vf_done, "everything is released"); VF_REACH("deleted"); }
void u_clear(void) { a_list(0); clear_linked_list(L); VF_ENSURES(vf_at == vf_size && L->size == 0 && L->first == NULL && L->last == NULL, "an empty list"); VF_REACH("cleared"); }
void u_get(void) {
  a_list(0); struct linked_list_node_t *g; size_t i = nondet_size(); VF_REQUIRES(i <= vf_size); get_linked_list(L, i, &g); VF_ENSURES(g == NODE(i), "the node at the index"); VF_ENSURES(L->size == vf_size, "the list is kept"); if(g) VF_REACH("node"); else VF_REACH("none");
}
void *c_malloc(size_t n) { VF_ENSURES(n == vf_size * sizeof(void *), "one slot per value"); vf_seq = __CPROVER_allocate(n, 0); return vf_seq; }
void u_sequence(void) { a_list(0); vf_seq = NULL; vf_seq = __CPROVER_allocate(0, 0); void **s; to_sequence_linked_list(L, &s); VF_ENSURES(s == vf_seq && (vf_size > 0 ==> s[vf_k] == vf_n[vf_k].value), "the values in order"); VF_ENSURES(vf_size > 0 ==> SHAPE(vf_k), "the list is kept"); VF_REACH("sequence"); }
/* ---- insertion ---- */
static struct linked_list_node_t *a_node(void) { struct linked_list_node_t *n = __CPROVER_allocate(sizeof(struct linked_list_node_t), 0); n->next = NULL; n->previous = NULL; n->value = vf_v; return n; }
/* the list after node was put in front of position i */
static void inserted(struct linked_list_node_t *n, size_t i, void *v) {
  VF_ENSURES(L->size == vf_size + 1 && L->first == (i == 0 ? n : &vf_n[0]) && L->last == (i == vf_size ? n : &vf_n[vf_size - 1]), "first, last and size"); VF_ENSURES(n->value == v && n->next == NODE(i) && n->previous == (i > 0 ? &vf_n[i - 1] : (struct linked_list_node_t *) NULL), "the node is linked in its place");
  if(vf_size) VF_ENSURES(vf_n[vf_k].next == (vf_k + 1 == i ? n : NODE(vf_k + 1)) && vf_n[vf_k].previous == (vf_k == i ? n : vf_k > 0 ? &vf_n[vf_k - 1] : (struct linked_list_node_t *) NULL) && vf_n[vf_k].value == vf_found, "every other node keeps its value and its neighbours");
}
static void a_values(void) { vf_v = nondet_ptr(); if(vf_size) vf_found = vf_n[vf_k].value; }
void u_append(void) { a_list(0); a_values(); struct linked_list_node_t *n = a_node(); if(nondet_u8() & 1) { append_linked_list(L, n); inserted(n, vf_size, vf_v); VF_REACH("back"); } else { append_front_linked_list(L, n); inserted(n, 0, vf_v); VF_REACH("front"); } }
void c_append(struct linked_list_t *l, struct linked_list_node_t *n) { VF_ENSURES(l == L && !vf_done && n->next == NULL && n->previous == NULL, "appended once"); vf_done = 1; }
void u_insert(void) {
  struct linked_list_t l; struct linked_list_node_t z; L = &l; vf_done = 0; vf_rank = 0; vf_v = nondet_ptr(); void *wv = vf_wn.value, *wx = vf_wn.next; struct linked_list_node_t *n = a_node(), z0 = z; size_t i = nondet_size(); VF_REQUIRES(l.size < ((size_t) 1 << 31)); size_t size = l.size;
  struct linked_list_node_t *la = i + 1 == size ? &vf_wn : &z; l.first = size ? &vf_wn : NULL; l.last = size ? la : NULL; vf_wn.previous = NULL; append_index_linked_list(&l, n, i);
  if(i < size) {
    VF_ENSURES(!vf_done && l.size == size + 1 && l.last == la, "one node more, the last one is kept"); VF_ENSURES(i == 0 ? l.first == n : l.first == &vf_wn, "only an insertion at the front changes the first node"); VF_ENSURES(n->value == vf_v && n->next == &vf_wn && n->previous == (i > 0 ? &vf_wp : NULL) && vf_rank == i, "the node is linked in its place");
    VF_ENSURES(vf_wn.previous == n && (i > 0 ==> vf_wp.next == n), "its neighbours know it"); if(i == 0) VF_ENSURES(vf_wn.value == wv && vf_wn.next == wx, "kept"); VF_REACH("inserted");
  } else { VF_ENSURES(vf_done == (i == size) && l.size == size && l.first == (size ? &vf_wn : NULL) && l.last == (size ? la : NULL), "the end of the list, or nowhere"); if(vf_done) VF_REACH("appended"); else VF_REACH("refused"); }
}
struct linked_list_node_t *vf_node; size_t vf_index;
void *c_palloc(struct memory_pool_t *p, size_t n) { VF_ENSURES(p == &pool && n == sizeof(struct linked_list_node_t) && vf_node == NULL, "one node"); vf_node = __CPROVER_allocate(n, 0); return vf_node; }
#define NEW VF_ENSURES(l == L && n == vf_node && n != NULL && n->value == vf_v && n->next == NULL && n->previous == NULL && !vf_done, "a new node with the value is added once"); vf_done = 1;
void c_vappend(struct linked_list_t *l, struct linked_list_node_t *n) { NEW vf_index = vf_size; }
void c_vfront(struct linked_list_t *l, struct linked_list_node_t *n) { NEW vf_index = 0; }
void c_vinsert(struct linked_list_t *l, struct linked_list_node_t *n, size_t i) { NEW vf_index = i; }
void u_values(void) {
  a_list(0); a_values(); vf_node = NULL; unsigned m = nondet_uint() % 3; size_t i = nondet_size(); if(m == 0) append_value_linked_list(L, vf_v); else if(m == 1) append_front_value_linked_list(L, vf_v); else append_index_value_linked_list(L, vf_v, i);
  VF_ENSURES(vf_done && vf_index == (m == 0 ? vf_size : m == 1 ? 0 : i), "the value is added at its place"); if(m == 0) VF_REACH("back"); else if(m == 1) VF_REACH("front"); else VF_REACH("index");
}
void *c_lmalloc(size_t n) { VF_ENSURES(n == sizeof(struct linked_list_t), "a list"); L = __CPROVER_allocate(n, 0); return L; }
void u_create(void) { struct linked_list_t *l; create_linked_list(&l); VF_ENSURES(l == L && l->size == 0 && l->first == NULL && l->last == NULL, "a new list is empty"); VF_REACH("created"); }
/* ---- removal ---- */
void c_pfree1(struct memory_pool_t *p, void *b) { VF_ENSURES(p == &pool && b == vf_node && vf_at == 0, "the node is released once"); vf_at = 1; }
/* a node and the ones before and after it (0 for none); nothing else can be reached but the ends of the list */
void u_remove(void) {
  struct linked_list_node_t p, n, x, f, z, y; struct linked_list_t l; int hp = nondet_u8() & 1, hx = nondet_u8() & 1, fp = nondet_u8() & 1, zx = nondet_u8() & 1; void *pv = p.value, *nv = n.value, *xv = x.value; char d = nondet_u8() & 1; L = &l; vf_at = 0;
  VF_REQUIRES(l.size >= 1 && l.size < ((size_t) 1 << 31)); n.previous = hp ? &p : NULL; n.next = hx ? &x : NULL; p.next = &n; p.previous = fp ? NULL : &y; x.previous = &n; x.next = zx ? NULL : &z; l.first = !hp ? &n : fp ? &p : &f; l.last = !hx ? &n : zx ? &x : &z; size_t size = l.size; vf_node = &n;
  struct linked_list_node_t f0 = f, z0 = z, y0 = y; remove_linked_list(&l, &n, d);
  VF_ENSURES(l.size == size - 1 && vf_at == d, "one node less, released when asked"); VF_ENSURES(l.first == (!hp ? (hx ? &x : NULL) : fp ? &p : &f) && l.last == (!hx ? (hp ? &p : NULL) : zx ? &x : &z), "the ends of the list");
  if(hp) VF_ENSURES(p.next == (hx ? &x : NULL) && p.previous == (fp ? NULL : &y) && p.value == pv, "the node before is joined to the one after"); if(hx) VF_ENSURES(x.previous == (hp ? &p : NULL) && x.next == (zx ? NULL : &z) && x.value == xv, "the node after is joined to the one before");
  VF_ENSURES(n.value == nv && f.value == f0.value && f.next == f0.next && f.previous == f0.previous && z.value == z0.value && z.next == z0.next && z.previous == z0.previous && y.next == y0.next && y.previous == y0.previous && y.value == y0.value, "the others are kept");
  if(!hp && !hx) VF_REACH("only"); else if(!hp) VF_REACH("first"); else if(!hx) VF_REACH("last"); else VF_REACH("middle");
}
void u_remove_null(void) { a_list(0); a_values(); remove_linked_list(L, NULL, nondet_u8() & 1); VF_ENSURES(L->size == vf_size && L->first == NODE(0) && vf_at == 0, "nothing to remove"); VF_REACH("none"); }
struct linked_list_node_t *vf_gone; int vf_dele;
void c_remove(struct linked_list_t *l, struct linked_list_node_t *n, char d) { VF_ENSURES(l == L && !vf_done, "removed once"); vf_done = 1; vf_gone = n; vf_dele = d; }
void u_remove_value(void) {
  a_list(0); vf_v = nondet_ptr(); char d = nondet_u8() & 1; remove_value_linked_list(L, vf_v, d);
  if(vf_done) { size_t f = nondet_size(); VF_ASSUME(f < vf_size && vf_gone == &vf_n[f]); VF_ENSURES(vf_dele == d && vf_n[f].value == vf_v, "a node with the value"); VF_ENSURES(vf_k < f ==> vf_n[vf_k].value != vf_v, "the first one with the value"); VF_REACH("found"); } else { if(vf_size) VF_ENSURES(vf_n[vf_k].value != vf_v, "no node has the value"); VF_REACH("none"); }
}
void u_remove_index(void) { a_list(0); char d = nondet_u8() & 1; size_t i = nondet_size(); VF_REQUIRES(i <= vf_size); remove_index_linked_list(L, i, d); VF_ENSURES(vf_done && vf_gone == NODE(i) && vf_dele == d, "the node at the index"); VF_REACH("removed"); }
/* ---- the ends of the list ---- */
void c_get(struct linked_list_t *l, size_t i, struct linked_list_node_t **p) { VF_ENSURES(l == L && i <= vf_size && !vf_done, "inside the list"); *p = NODE(i); }
void u_ends(void) {
  a_list(0); a_values(); struct linked_list_node_t *g; void *v = NULL; unsigned m = nondet_uint() % 9; char d = nondet_u8() & 1; size_t i = nondet_size(); VF_REQUIRES(i < vf_size); vf_gone = NULL;
  size_t e = m == 1 || m == 3 || m == 5 || m == 7 ? (vf_size ? vf_size - 1 : 0) : m == 8 ? i : 0; vf_node = NODE(e); void *x = vf_size ? vf_n[e].value : NULL;
  if(m == 0) pop_linked_list(L, &g); else if(m == 1) pop_top_linked_list(L, &g); else if(m == 2) pop_value_linked_list(L, &v, d); else if(m == 3) pop_top_value_linked_list(L, &v, d); else if(m == 4) peek_linked_list(L, &g); else if(m == 5) peek_top_linked_list(L, &g); else if(m == 6) peek_value_linked_list(L, &v); else if(m == 7) peek_top_value_linked_list(L, &v); else get_value_linked_list(L, i, &v);
  if(m == 0 || m == 1 || m == 4 || m == 5) VF_ENSURES(g == vf_node, "the node at the end"); else VF_ENSURES(v == x, "the value at the end, none for an empty list");
  if(m < 4) { VF_ENSURES(vf_done && vf_gone == vf_node && vf_dele == 0, "removed once"); VF_ENSURES(vf_at == (m >= 2 && d && vf_size), "released when asked"); VF_REACH("pop"); } else { VF_ENSURES(!vf_done && vf_at == 0, "kept"); VF_REACH("peek"); }
}
/* ---- iteration and sorting ---- */
struct iterator_t *vf_it;
void c_citer(struct iterator_t **p) { vf_it = __CPROVER_allocate(sizeof(struct iterator_t), 0); *p = vf_it; }
void u_iterator(void) { a_list(0); struct iterator_t *it; create_iterator_linked_list(L, &it); VF_ENSURES(it == vf_it && it->parameters == NODE(0) && it->get_next_function == get_next_iterator_linked_list && it->structure == L, "starts with the first value"); VF_REACH("created"); }
void u_next(void) {
  a_list(0); size_t i = nondet_size(); VF_REQUIRES(i <= vf_size && SHAPE(i)); struct iterator_t it; it.parameters = NODE(i); it.get_next_function = get_next_iterator_linked_list; void *v; get_next_iterator_linked_list(&it, &v);
  if(i < vf_size) { VF_ENSURES(v == vf_n[i].value && it.parameters == NODE(i + 1), "the next value"); VF_REACH("next"); } else { VF_ENSURES(v == NULL && it.parameters == NULL, "the end"); VF_REACH("end"); }
}
comparator vf_cmp; int cmp_stub(void *a, void *b) { return nondet_int(); }
void c_sequence(struct linked_list_t *l, void ***s) { VF_ENSURES(l == L && vf_at == 0, "the values"); *s = vf_seq; vf_at = 1; }
void c_quick(void **s, size_t b, size_t e, comparator c) { VF_ENSURES(s == vf_seq && b == 0 && e == vf_size && c == cmp_stub && vf_at == 1, "all the values are sorted"); __CPROVER_havoc_object(vf_seq); vf_at = 2; }
void c_sfree(void *p) { VF_ENSURES(p == vf_seq && vf_at == 2 && !vf_done, "the sequence is released once"); vf_done = 1; }
void u_sort(void) { a_list(0); vf_seq = __CPROVER_allocate(vf_size * sizeof(void *), 0); sort_linked_list(L, cmp_stub); VF_ENSURES(vf_done && L->size == vf_size && L->first == NODE(0), "kept"); if(vf_size) VF_ENSURES(vf_n[vf_k].value == vf_seq[vf_k] && SHAPE(vf_k), "the values in sorted order"); VF_REACH("sorted"); }
