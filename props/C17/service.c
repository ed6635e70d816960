#include "vf_proof.h"
/* Contracts of the set up of the locations. vf_g is one arbitrary location: what it must hold is recorded when the
 * configuration delivers it, and compared with what the tables hold in the end. */
size_t vf_g, vf_acc, vf_n, vf_left; int vf_it, vf_end, vf_added; struct service_t *vf_s; struct sort_map_t *vf_m, *vf_sec, *vf_conf; struct hash_map_element_t *vf_el; struct iterator_t *vf_i;
unsigned char *vf_path, *vf_hn, *vf_rp, *vf_rh, *vf_rn, *vf_bp, *vf_ab, *vf_af; struct sort_map_t *vf_rs; void *vf_rx, *vf_dup; struct http_handler_t *vf_hh;
#define LOC vf_s->locations
#define MAXL (sizeof(LOC.values) / sizeof(LOC.values[0]))
#define VF_LOOP_locations ASSIGNS(element, is_equal, location, path, handler, name, _location, LOC, vf_acc, vf_left, vf_end, vf_el, vf_sec, vf_path, vf_hn, vf_rp, vf_rh, vf_rn, vf_rs) \
  INV(vf_it == 1 && !vf_end && vf_acc <= MAXL && LOC.count == vf_acc && (vf_g >= vf_acc || (LOC.values[vf_g].name == vf_rn && LOC.values[vf_g].path == vf_rp && LOC.values[vf_g].handler == vf_rh && LOC.values[vf_g].configuration == vf_rs))) DECR(vf_left)
#define VF_LOOP_dispatch_register ASSIGNS(index, location, error, error_offset, OBJ(dispatch_handler->regex), OBJ(dispatch_handler->names)) INV(index <= LOC.count && (vf_g >= index || ((void *) dispatch_handler->regex[vf_g] == vf_rx && dispatch_handler->names[vf_g] == vf_hn))) DECR(LOC.count - index)
#define VF_LOOP_file_register ASSIGNS(index, location, configuration, _location, value, OBJ(file_handler->locations)) INV(index <= LOC.count && (vf_g >= index || (file_handler->locations[vf_g].base_path == vf_bp && file_handler->locations[vf_g].auth_basic == vf_ab && file_handler->locations[vf_g].auth_file == vf_af))) DECR(LOC.count - index)
#define VF_LOOP_dispatch_delete ASSIGNS(index, vf_acc, vf_end) INV(index <= dispatch_handler->regex_count && vf_acc == index && (vf_end == (vf_g < index))) DECR(dispatch_handler->regex_count - index)
#ifdef U_SERVICE
#include "vf_defaults.h"
#include "stdafx.h"
#include "system/service.c"
#else
#define VIRIATUM_CONTENTS_PATH vf_contents
#define VIRIATUM_RESOURCES_PATH vf_contents
char vf_contents[8] = "/w";
#include "vf_defaults.h"
#ifdef U_FILE
#include "handlers/handler_file.c"
#else
#include "handlers/handler_dispatch.c"
#endif
unsigned char *last_error_message; unsigned char last_error_message_b[ERROR_BUFFER_SIZE]; unsigned int last_error_code;
#endif
static int eq(const unsigned char *a, const char *b) { for(int i = 0; i < 11; i++) { if(a[i] != (unsigned char) b[i]) return 0; if(b[i] == 0) return 1; } return 0; }
#ifdef U_SERVICE
/* ---- the configuration ---- */
static int isloc(struct hash_map_element_t *e) { const char *w = "location:"; unsigned char *k = e->key_string; return __CPROVER_OBJECT_SIZE(k) > 9 && k[0] == 'l' && k[1] == 'o' && k[2] == 'c' && k[3] == 'a' && k[4] == 't' && k[5] == 'i' && k[6] == 'o' && k[7] == 'n' && k[8] == ':'; }
void c_iter(struct sort_map_t *m, struct iterator_t **i) { VF_ENSURES(m == vf_m && !vf_it, "one iterator over the configuration"); vf_it = 1; *i = vf_i; }
void c_next(struct iterator_t *i, void **v) {
  VF_ENSURES(i == vf_i && vf_it == 1 && !vf_end && LOC.count == vf_acc, "every complete location before is in the table, and nothing else");
  if(vf_left == 0) { vf_end = 1; *v = NULL; return; } vf_left--; struct hash_map_element_t *e = malloc(sizeof(*e)); size_t n = nondet_size(); VF_ASSUME(n < VF_MAX); e->key_string = malloc(n + 1); e->key_string[n] = 0; vf_el = e; *v = e;
  vf_sec = nondet_u8() & 1 ? malloc(sizeof(*vf_sec)) : NULL; vf_path = nondet_u8() & 1 ? malloc(1) : NULL; vf_hn = nondet_u8() & 1 ? malloc(1) : NULL;
  if(isloc(e) && vf_sec != NULL && vf_path != NULL && vf_hn != NULL && vf_acc < MAXL) { if(vf_acc == vf_g) { vf_rn = e->key_string + 9; vf_rp = vf_path; vf_rh = vf_hn; vf_rs = vf_sec; } vf_acc++; }
}
void c_get(struct sort_map_t *m, unsigned char *k, void **v) {
  if(m == vf_m) { VF_ENSURES(k == vf_el->key_string, "the section at hand"); *v = vf_sec; return; }
  VF_ENSURES(m == vf_sec && m != NULL, "the section at hand"); if(eq(k, "path")) *v = vf_path; else { VF_ENSURES(eq(k, "handler"), "a value of a location"); *v = vf_hn; }
}
void c_diter(struct sort_map_t *m, struct iterator_t *i) { VF_ENSURES(m == vf_m && i == vf_i && vf_it == 1, "the iterator is released once"); VF_ENSURES(LOC.count == vf_acc && (vf_end || vf_acc == MAXL), "every section was visited, or the table is full"); vf_it = 2; }
void u_locations(void) {
  vf_s = malloc(sizeof(*vf_s)); vf_m = malloc(sizeof(*vf_m)); vf_i = malloc(sizeof(*vf_i)); vf_s->configuration = vf_m; LOC.count = 0; vf_it = vf_end = 0; vf_acc = 0; vf_left = nondet_size(); vf_g = nondet_size(); VF_ASSUME(vf_g < MAXL);
  ERROR_CODE r = calculate_locations_service(vf_s);
  VF_ENSURES(r == 0 && vf_it == 2 && LOC.count == vf_acc, "one location for each section that has a path and a handler, in their order");
  VF_ENSURES(vf_g >= vf_acc || (LOC.values[vf_g].name == vf_rn && LOC.values[vf_g].path == vf_rp && LOC.values[vf_g].handler == vf_rh && LOC.values[vf_g].configuration == vf_rs), "the name, path, handler and section of a location belong together"); if(vf_end) VF_REACH("all"); else VF_REACH("full");
}
/* ---- the types of the files ---- */
char *vf_ext, *vf_mt; struct hash_map_t *vf_types; int vf_asked; size_t vf_x;
size_t c_strlen(const char *s) { VF_ENSURES(s == vf_ext, "the extension"); return vf_n; }
static unsigned char low(unsigned char c) { return c == '_' ? '-' : c >= 'A' && c <= 'Z' ? c + 32 : c; }
void c_hget(struct hash_map_t *m, unsigned char *k, void **v) { VF_ENSURES(m == vf_types && k[vf_n] == 0 && (vf_x >= vf_n || k[vf_x] == low(vf_ext[vf_x])), "the type is looked up for the extension in lower case"); vf_asked = 1; *v = vf_mt; }
void u_mime(void) {
  vf_s = malloc(sizeof(*vf_s)); vf_s->options = malloc(sizeof(*vf_s->options)); vf_types = malloc(sizeof(*vf_types)); vf_s->options->mime_types = vf_types; vf_n = nondet_size(); VF_ASSUME(vf_n < VF_MAX); vf_ext = malloc(vf_n + 1); vf_ext[vf_n] = 0; vf_mt = nondet_u8() & 1 ? malloc(1) : NULL; vf_asked = 0; vf_x = nondet_size();
  for(size_t i = 0; i < VIRIATUM_MAX_EXTENSION_SIZE; i++) if(i < vf_n) VF_ASSUME(vf_ext[i] != 0);
  const char *r = _get_mime_type_service(vf_s, vf_ext); VF_ENSURES(vf_asked ? r == vf_mt : r == NULL && vf_n >= VIRIATUM_MAX_EXTENSION_SIZE, "the type is the one configured, none for extensions no type can have"); if(vf_asked) VF_REACH("asked"); else VF_REACH("too long");
}
#else
/* ---- the tables of the handlers ---- */
static ERROR_CODE s_create(struct service_t *s, struct http_handler_t **h, unsigned char *name) { VF_ENSURES(s == vf_s && vf_hh == NULL, "one handler"); 
#ifdef U_FILE
  VF_ENSURES(eq(name, "file"), "under its name");
#else
  VF_ENSURES(eq(name, "dispatch"), "under its name");
#endif
  vf_hh = malloc(sizeof(*vf_hh)); *h = vf_hh; return 0; }
static void begin(void) { vf_s = malloc(sizeof(*vf_s)); vf_hh = NULL; vf_added = 0; VF_ASSUME(LOC.count <= MAXL); vf_g = nondet_size(); VF_ASSUME(vf_g < MAXL); vf_s->create_http_handler = s_create; }
#ifdef U_FILE
static ERROR_CODE s_add(struct service_t *s, struct http_handler_t *h) {
  VF_ENSURES(s == vf_s && h == vf_hh && !vf_added, "the handler is added once"); vf_added = 1; struct file_handler_t *f = h->lower; VF_ENSURES(h->resolve_index == TRUE && h->set == set_handler_file && h->unset == unset_handler_file && h->reset == reset_handler_file, "its operations"); VF_ENSURES(f->locations_count == LOC.count, "one entry for each location");
  VF_ENSURES(vf_g >= LOC.count || (f->locations[vf_g].base_path == vf_bp && f->locations[vf_g].auth_basic == vf_ab && f->locations[vf_g].auth_file == vf_af), "the entry of a location holds its values"); return 0;
}
void c_get(struct sort_map_t *m, unsigned char *k, void **v) { if(m != vf_conf) { *v = nondet_ptr(); return; } if(eq(k, "base_path")) *v = vf_bp; else if(eq(k, "auth_basic")) *v = vf_ab; else { VF_ENSURES(eq(k, "auth_file"), "a value of a location"); *v = vf_af; } }
static unsigned char *maybe(void) { return nondet_u8() & 1 ? malloc(1) : NULL; }
void u_register(void) { begin(); vf_s->add_http_handler = s_add; vf_conf = malloc(sizeof(*vf_conf)); LOC.values[vf_g].configuration = vf_conf; vf_bp = maybe(); vf_ab = maybe(); vf_af = maybe(); ERROR_CODE r = register_handler_file(vf_s); VF_ENSURES(r == 0 && vf_added, "the handler is added"); if(LOC.count > vf_g) VF_REACH("location"); else VF_REACH("none"); }
#else
static ERROR_CODE s_add(struct service_t *s, struct http_handler_t *h) {
  VF_ENSURES(s == vf_s && h == vf_hh && !vf_added, "the handler is added once"); vf_added = 1; struct dispatch_handler_t *d = h->lower; VF_ENSURES(h->resolve_index == FALSE && h->set == set_handler_dispatch && h->unset == unset_handler_dispatch && h->reset == NULL, "its operations"); VF_ENSURES(d->regex_count == LOC.count, "one expression for each location");
  VF_ENSURES(vf_g >= LOC.count || ((void *) d->regex[vf_g] == vf_rx && d->names[vf_g] == vf_hn), "the expression and the handler of a location are at its index"); return 0;
}
pcre *c_compile(const char *p, int o, const char **e, int *eo, const unsigned char *t) { VF_ENSURES(o == 0 && t == NULL && e != NULL && eo != NULL, "a plain expression"); *e = NULL; *eo = 0; return p == (char *) vf_path ? vf_rx : nondet_ptr(); }
void u_register(void) { begin(); vf_s->add_http_handler = s_add; vf_rx = nondet_u8() & 1 ? malloc(1) : NULL; vf_path = malloc(1); vf_hn = malloc(1); LOC.values[vf_g].path = vf_path; LOC.values[vf_g].handler = vf_hn; ERROR_CODE r = register_handler_dispatch(vf_s); VF_ENSURES(r == 0 && vf_added, "the handler is added"); if(LOC.count > vf_g) VF_REACH("location"); else VF_REACH("none"); }
void **vf_regex; unsigned char **vf_names; struct dispatch_handler_t *vf_d; int vf_f;
void s_pfree(void *p) { VF_ENSURES(vf_f == 0 && p == vf_regex[vf_acc], "every expression once, before the tables"); if(vf_acc == vf_g) vf_end = 1; vf_acc++; }
void c_free(void *p) { VF_ENSURES(p != NULL && vf_acc == vf_n, "the tables after the expressions"); if(p == (void *) vf_d) { VF_ENSURES(vf_f == ((vf_regex != NULL) | (vf_names != NULL) * 2), "the handler at last"); vf_f |= 4; } else if(p == (void *) vf_regex) { VF_ENSURES(!(vf_f & 5), "once"); vf_f |= 1; } else { VF_ENSURES(p == (void *) vf_names && !(vf_f & 6), "once"); vf_f |= 2; } }
void u_delete(void) { vf_d = malloc(sizeof(*vf_d)); vf_n = nondet_size(); VF_ASSUME(vf_n <= 1024); vf_regex = vf_n == 0 && (nondet_u8() & 1) ? NULL : malloc(vf_n * sizeof(void *)); vf_names = vf_regex == NULL ? NULL : malloc(vf_n * sizeof(void *)); vf_d->regex = (pcre **) vf_regex; vf_d->names = vf_names; vf_d->regex_count = vf_n; vf_acc = 0; vf_end = 0; vf_f = 0; vf_g = nondet_size(); pcre_free = s_pfree;
  ERROR_CODE r = delete_dispatch_handler(vf_d); VF_ENSURES(r == 0 && (vf_f & 4) && vf_acc == vf_n, "everything is released once"); VF_ENSURES(vf_end == (vf_g < vf_n), "each expression"); VF_REACH("deleted"); }
#endif
#endif
