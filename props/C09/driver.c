#include "vf_driver.h"
#include "stdafx.h"
#include "structures/hash_map.h"
#define K 40
static uint8_t vals[K][8], ref_on[K], ver[K]; static size_t hk[K]; static char names[K][6];
static int str; static struct hash_map_t *m;
static void *val(int k) { return &vals[k][ver[k] & 7]; }
static void check_key(int k) {
    void *v = (void *) 1;
    if(str == 2) get_value_string_hash_map(m, (unsigned char *) names[k], &v); else get_value_hash_map(m, hk[k], str ? (unsigned char *) names[k] : NULL, &v);
    if(ref_on[k]) CHECK(v == val(k), "a key that was set has its value"); else CHECK(v == NULL, "a key that was never set has no value");
}
static void check_all(void) {
    int k, n = 0, seen[K]; struct iterator_t *it; void *x; size_t i, used = 0; memset(seen, 0, sizeof(seen));
    for(k = 0; k < K; k++) { check_key(k); n += ref_on[k]; }
    CHECK(m->size == (size_t) n, "the size counts the keys"); CHECK(m->size <= m->maximum_size && m->maximum_size < m->elements_buffer_size, "an unused slot remains");
    for(i = 0; i < m->elements_buffer_size; i++) used += m->elements_buffer[i].used == 1;
    CHECK(used == (size_t) n, "slots in use");
    create_element_iterator_hash_map(m, &it);
    while(1) { get_next_iterator(it, &x); if(x == NULL) break; struct hash_map_element_t *e = x; int hit = 0;
        for(k = 0; k < K; k++) if(ref_on[k] && e->value == val(k)) { CHECK(!seen[k] && e->key == hk[k], "each key once"); seen[k] = 1; hit = 1; if(str) CHECK(strcmp((char *) e->key_string, names[k]) == 0 && (char *) e->key_string != names[k], "own copy of the key"); else CHECK(e->key_string == NULL, "no key string"); }
        CHECK(hit, "an element that was set"); n--; }
    CHECK(n == 0, "every key is visited");
    reset_iterator_hash_map(m, it); get_next_iterator(it, &x); CHECK((x == NULL) == (used == 0), "iteration restarts"); delete_iterator_hash_map(m, it);
    create_iterator_hash_map(m, &it); size_t c = 0;
    while(1) { get_next_iterator(it, &x); if(x == NULL) break; c++; for(k = 0; k < K && !(ref_on[k] && hk[k] == *(size_t *) x); k++); CHECK(k < K, "a key that was set"); }
    CHECK(c == used, "every key is visited"); delete_iterator_hash_map(m, it);
}
static void name(int k, int kind) { memset(names[k], 0, 6); if(kind == 0) sprintf(names[k], "%d", k); else if(kind == 1) { memset(names[k], 'a', k % 5 + 1); names[k][0] = 'a' + k / 5; } else { names[k][0] = 'k'; names[k][1] = (char) (k + 200); if(k == 0) names[k][0] = 0; } }
static void run(size_t size, int mode, int pattern, vf_in *in) {
    int k; str = mode; create_hash_map(&m, size); memset(ref_on, 0, sizeof(ref_on)); memset(ver, 0, sizeof(ver));
    for(k = 0; k < K; k++) { name(k, pattern % 3);
        hk[k] = mode == 2 ? _calculate_string_hash_map((unsigned char *) names[k]) : mode == 1 ? (pattern & 4 ? (size_t) k % 7 : (size_t) k * 1000003) : pattern & 4 ? (size_t) k * 64 : pattern & 8 ? (size_t) -1 - k * 3 : (size_t) k * 5 + 2; }
    check_all();
    while(vf_left(in) > 0) {
        unsigned b = vf_byte(in); k = b % K;
        if(b >= 240) { check_all(); continue; }
        if(b >= 200) { check_key(k); continue; }
        ver[k]++; ref_on[k] = 1; char tmp[6]; memcpy(tmp, names[k], 6);
        if(mode == 2) set_value_string_hash_map(m, (unsigned char *) tmp, val(k)); else set_value_hash_map(m, hk[k], mode ? (unsigned char *) tmp : NULL, val(k));
        memset(tmp, 'X', 6); check_key(k);
    }
    check_all(); delete_hash_map(m); NONTRIVIAL();
}
static const size_t sizes[8] = {1, 2, 3, 4, 7, 16, 64, 0};
void vf_scenario(vf_in *in) { unsigned b = vf_byte(in), p = vf_byte(in); run(sizes[b & 7], (b >> 3) % 3, p & 15, in); }
void vf_fixed(void) {
    uint8_t b[200]; unsigned s, mo, p, i;
    for(s = 0; s < 7; s++) for(mo = 0; mo < 3; mo++) for(p = 0; p < 12; p++) { for(i = 0; i < sizeof(b); i++) b[i] = (uint8_t) (i * (p + 1) * 7 % (i % 17 ? 200 : 256)); vf_in in = {b, sizeof(b), 0}; run(sizes[s], mo, p, &in); }
}
