#define _GNU_SOURCE
#include "vf_driver.h"
int memfd_create(const char *name, unsigned flags);
#include "stdafx.h"
#include "ini/ini.h"
/* configuration texts against a reader written from the grammar, and the map of the result against a plain list */
struct ent { char *s, *k, *v; size_t n; int used; }; static struct ent E[4096]; static size_t ne; static char path[64]; static int fd = -1;
static char *cut(const char *p, size_t n) { if(n > INI_KEY_MAX_SIZE - 1) n = INI_KEY_MAX_SIZE - 1; char *r = malloc(n + 1); memcpy(r, p, n); r[n] = 0; return r; }
static void put(const char *sec, const char *k, size_t kn, const char *v, size_t vn) {
    size_t i; while(kn && k[kn - 1] == ' ') kn--; while(vn && *v == ' ') { v++; vn--; } char *kk = cut(k, kn); for(i = 0; i < ne; i++) if(strcmp(E[i].s, sec) == 0 && strcmp(E[i].k, kk) == 0) break;
    if(i < ne) { free(kk); free(E[i].v); } else { E[i].s = strdup(sec); E[i].k = kk; ne++; } E[i].v = malloc(vn + 1); memcpy(E[i].v, v, vn); E[i].v[vn] = 0; E[i].n = vn;
}
static size_t eol(const char *t, size_t p, size_t n) { while(p < n && t[p] != '\n' && t[p] != '\r') p++; return p; }
static void reference(const char *t, size_t n) {
    size_t p = 0; char *sec = cut("", 0); ne = 0; while(p < n && ne < 4000) { const char *q; if(t[p] == '\n' || t[p] == '\r') { p++; continue; } if(t[p] == '[') { q = memchr(t + p, ']', n - p); if(!q) break; free(sec); sec = cut(t + p + 1, q - t - p - 1); p = q - t + 1; continue; } if(t[p] == ';') { p = eol(t, p, n); continue; }
        q = p + 1 < n ? memchr(t + p + 1, '=', n - p - 1) : NULL; if(!q) break; size_t b = q - t + 1, e = eol(t, b, n); put(sec, t + p, q - t - p, t + b, e - b); p = e + 1; }
    free(sec);
}
static void compare(const char *t, size_t n) {
    struct sort_map_t *m, *s; struct iterator_t *it, *jt; struct hash_map_element_t *e, *f; size_t i = 0, j, seen = 0, last, order; char *lastsec = NULL; if(fd < 0) { fd = memfd_create("ini", 0); sprintf(path, "/proc/self/fd/%d", fd); } CHECK(ftruncate(fd, 0) == 0 && pwrite(fd, t, n, 0) == (ssize_t) n, "scratch file"); reference(t, n);
    CHECK(process_ini_file(path, &m) == 0, "the file is read"); create_element_iterator_sort_map(m, &it); order = 0; (void) lastsec; (void) last;
    while(1) { get_next_iterator(it, (void **) &e); if(e == NULL) break; for(i = 0; i < ne && strcmp(E[i].s, (char *) e->key_string); i++); CHECK(i < ne, "a section of the file"); CHECK(i >= order, "the sections in their order, once"); order = i + 1; get_value_string_sort_map(m, (unsigned char *) E[i].s, (void **) &s); CHECK(s != NULL && s == e->value, "the section");
        create_element_iterator_sort_map(s, &jt); j = i; while(1) { char *v; get_next_iterator(jt, (void **) &f); if(f == NULL) break; while(j < ne && (strcmp(E[j].s, E[i].s) || E[j].used)) j++; CHECK(j < ne && strcmp(E[j].k, (char *) f->key_string) == 0, "the keys in the order they were first set, once"); get_value_string_sort_map(s, (unsigned char *) E[j].k, (void **) &v); CHECK(v == f->value && memcmp(v, E[j].v, E[j].n + 1) == 0, "the last value of the key"); E[j].used = 1; seen++; j++; free(v); }
        delete_iterator_sort_map(s, jt); delete_sort_map(s); }
    CHECK(seen == ne, "every key"); delete_iterator_sort_map(m, it); delete_sort_map(m); for(i = 0; i < ne; i++) { free(E[i].s); free(E[i].k); free(E[i].v); E[i].used = 0; } NONTRIVIAL();
}
void vf_scenario(vf_in *in) {
    static const char *W[16] = {"[", "]", "a", "b = ", "=", "\n", "\r\n", " ", ";", "key", "sec", "\nport=1", "\nb=", "[s]", "\xff", ""}; static char t[20000]; size_t n = 0, k; while(vf_left(in) && n < 12000) { unsigned b = vf_byte(in); if(b >= 0xf0) { k = 300 + (b & 15) * 90; memset(t + n, 'a' + (b & 3), k); n += k; } else if(b >= 0xe0) { t[n++] = (char) vf_byte(in); } else { k = strlen(W[b & 15]); memcpy(t + n, W[b & 15], k); n += k; } } compare(t, n);
}
void vf_fixed(void) {
    unsigned s, i; uint8_t b[120]; static const char *T[] = {"", "a=1", "[g]\na = 1\nb= 2\na=3\n[h]\na=4\n[g]\nc=5", "[g]\na=\nb= \nc=x ", "x=1\n[]\ny=2", ";c\n[s];d\nk=v;e\n", "=a=b\n", "[a\n]k=v", "a\nb=c\n"}; for(i = 0; i < sizeof(T) / sizeof(*T); i++) compare(T[i], strlen(T[i]));
    for(s = 1; s < 3000; s++) { unsigned x = s * 2654435761u; for(i = 0; i < 120; i++) { x = x * 1664525 + 1013904223; b[i] = x >> 24; if(s % 4 && b[i] >= 0xe0) b[i] &= 0x1f; } vf_in in = {b, 1 + s % 120, 0}; vf_scenario(&in); }
}
