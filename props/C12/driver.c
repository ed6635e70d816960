#include "vf_driver.h"
#include "stdafx.h"
#include "structures/linked_list.h"
/* random operations on two lists against arrays */
static void *M[2][600]; static size_t mn[2]; static struct linked_list_t *L[2];
static void check(int w) {
    size_t i; struct linked_list_node_t *n = L[w]->first, *p = NULL; CHECK(L[w]->size == mn[w], "size");
    if(mn[w] == 0) { void *v = &i; struct linked_list_node_t *q = (void *) &i; peek_linked_list(L[w], &q); CHECK(q == NULL, "an empty list has no first node"); peek_top_linked_list(L[w], &q); CHECK(q == NULL, "an empty list has no last node"); peek_value_linked_list(L[w], &v); CHECK(v == NULL, "no value"); peek_top_value_linked_list(L[w], &v); CHECK(v == NULL, "no value"); return; }
    for(i = 0; i < mn[w]; i++) { CHECK(n != NULL && n->value == M[w][i] && n->previous == p, "the values in order"); p = n; n = n->next; } CHECK(n == NULL && L[w]->last == p && p != NULL, "the end of the list");
}
static void ins(int w, size_t i, void *v) { memmove(&M[w][i + 1], &M[w][i], (mn[w] - i) * sizeof(void *)); M[w][i] = v; mn[w]++; }
static void del(int w, size_t i) { memmove(&M[w][i], &M[w][i + 1], (mn[w] - i - 1) * sizeof(void *)); mn[w]--; }
static int cmp(void *a, void *b) { size_t x = (size_t) a >> 2, y = (size_t) b >> 2; return x < y ? -1 : x > y; }
static void drive(vf_in *in) {
    size_t i; int w; for(w = 0; w < 2; w++) { create_linked_list(&L[w]); mn[w] = 0; }
    while(vf_left(in) > 0) {
        unsigned o = vf_byte(in), b = vf_left(in) ? vf_byte(in) : 0; w = o & 1; void *v = (void *) (size_t) (b % 24 + 1), *g = NULL; struct linked_list_node_t *n = NULL; if(mn[w] > 500) break;
        switch((o >> 1) % 20) {
            case 0: case 1: append_value_linked_list(L[w], v); ins(w, mn[w], v); break; case 2: append_front_value_linked_list(L[w], v); ins(w, 0, v); break;
            case 3: case 4: i = b % (mn[w] + 3); append_index_value_linked_list(L[w], v, i); if(i <= mn[w]) ins(w, i, v); break;
            case 5: if(mn[w]) { i = b % mn[w]; get_linked_list(L[w], i, &n); CHECK(n && n->value == M[w][i], "get"); remove_linked_list(L[w], n, 1); del(w, i); } break;
            case 6: case 7: remove_value_linked_list(L[w], v, 1); for(i = 0; i < mn[w]; i++) if(M[w][i] == v) { del(w, i); break; } break;
            case 8: i = b % (mn[w] + 1); remove_index_linked_list(L[w], i, 1); if(i < mn[w]) del(w, i); break;
            case 9: pop_value_linked_list(L[w], &g, 1); CHECK(g == (mn[w] ? M[w][0] : NULL), "pop"); if(mn[w]) del(w, 0); break;
            case 10: pop_top_value_linked_list(L[w], &g, 1); CHECK(g == (mn[w] ? M[w][mn[w] - 1] : NULL), "pop top"); if(mn[w]) del(w, mn[w] - 1); break;
            case 11: peek_value_linked_list(L[w], &g); CHECK(g == (mn[w] ? M[w][0] : NULL), "peek"); peek_top_value_linked_list(L[w], &g); CHECK(g == (mn[w] ? M[w][mn[w] - 1] : NULL), "peek top"); break;
            case 12: if((b & 3) == 0) { clear_linked_list(L[w]); mn[w] = 0; } break; case 13: if(mn[w]) { i = b % mn[w]; get_value_linked_list(L[w], i, &g); CHECK(g == M[w][i], "get value"); } break;
            case 14: { struct iterator_t *it; create_iterator_linked_list(L[w], &it); for(i = 0; i <= mn[w]; i++) { get_next_iterator(it, &g); CHECK(g == (i < mn[w] ? M[w][i] : NULL), "iteration"); } reset_iterator_linked_list(L[w], it); get_next_iterator(it, &g); CHECK(g == (mn[w] ? M[w][0] : NULL), "restart"); delete_iterator_linked_list(L[w], it); } break;
            case 15: { void **s; to_sequence_linked_list(L[w], &s); for(i = 0; i < mn[w]; i++) CHECK(s[i] == M[w][i], "sequence"); free(s); } break;
            case 16: { size_t c0[32] = {0}; sort_linked_list(L[w], cmp); for(n = L[w]->first, i = 0; i < mn[w]; i++, n = n->next) { CHECK(n != NULL, "size"); c0[(size_t) n->value]++; if(i) CHECK(cmp(n->previous->value, n->value) <= 0, "sorted"); c0[(size_t) M[w][i]]--; } for(i = 0; i < 32; i++) CHECK(c0[i] == 0, "the same values"); for(n = L[w]->first, i = 0; i < mn[w]; i++, n = n->next) M[w][i] = n->value; } break;
            case 17: delete_linked_list(L[w]); create_linked_list(&L[w]); mn[w] = 0; break;
            case 18: { unsigned k; for(k = 0; k < b % 64 && mn[w] < 400; k++) { v = (void *) (size_t) ((b * 7 + k * 11) % 24 + 1); append_value_linked_list(L[w], v); ins(w, mn[w], v); } } break;
            default: pop_linked_list(L[w], &n); CHECK((n == NULL) == (mn[w] == 0), "pop node"); if(n) { CHECK(n->value == M[w][0], "pop"); del(w, 0); delete_linked_list_node(n); } pop_top_linked_list(L[w], &n); CHECK((n == NULL) == (mn[w] == 0), "pop node"); if(n) { CHECK(n->value == M[w][mn[w] - 1], "pop top"); del(w, mn[w] - 1); delete_linked_list_node(n); } break; }
        check(w); check(!w);
    }
    for(w = 0; w < 2; w++) delete_linked_list(L[w]); NONTRIVIAL();
}
void vf_scenario(vf_in *in) { drive(in); }
void vf_fixed(void) { unsigned s; uint8_t b[160]; for(s = 0; s < 6000; s++) { unsigned i; for(i = 0; i < 160; i++) b[i] = (uint8_t) ((i * (s * 2 + 1) * 37 + s * 11 + (i * i >> 3)) >> (s & 3)); vf_in in = {b, 20 + s % 141, 0}; drive(&in); } }
