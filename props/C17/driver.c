/* The set up of the locations and the dispatch of requests by the real server code, against the expressions compiled here. */
#include "vf_driver.h"
#include <pcre.h>
#include <sys/stat.h>
#include "stdafx.h"
#include "system/system.h"
#include "http/http.h"
#include "stream/stream.h"
#include "handlers/handlers.h"
char vf_contents[1024], vf_resources[1024];
static const char *paths[] = { "^/a", "^/a/", "/b", "\\.html$", "index", "^/$", "^/b/c", "(", ".*", "^/d/(x|y)" };
static const char *urls[] = { "/", "/a", "/a/", "/a/b", "/a/b/c", "/b", "/b/c", "/b/c/", "/d/x", "/d/", "/d/e/", "/x.html", "/a?/b", "/?index", "/d/?x/", "", "?", "/zzz", "//", "/d/index.html" };
static const char *hnames[] = { "h0", "h1", "missing", "file" };
static const char *names[] = { "location:x", "location:", "location", "loc", "", "general", "xlocation:a", "locatio:", "location:1", "location:2" };
/* what the handler is told */
static struct { int set, unset, order, msg, url, path, loc, vurl; char name[16], p[5000]; size_t pn, index, offset, vn; const unsigned char *vp, *up; size_t un; } rec;
static ERROR_CODE r_begin(struct http_parser_t *p) { rec.msg++; CHECK(rec.set == 1 && rec.msg == 1, "begin after the handler is attached"); return 0; }
static ERROR_CODE r_url(struct http_parser_t *p, const unsigned char *d, size_t n) { rec.url++; CHECK(rec.msg == 1, "url after begin"); rec.up = d; rec.un = n; return 0; }
static ERROR_CODE r_path(struct http_parser_t *p, const unsigned char *d, size_t n) { rec.path++; CHECK(rec.url == 1 && n < 5000, "path after url"); memcpy(rec.p, d, n); rec.pn = n; return 0; }
static ERROR_CODE r_loc(struct http_parser_t *p, size_t i, size_t o) { rec.loc++; CHECK(rec.path == 1, "location after path"); rec.index = i; rec.offset = o; return 0; }
static ERROR_CODE r_vurl(struct http_parser_t *p, const unsigned char *d, size_t n) { rec.vurl++; CHECK(rec.loc == 1, "virtual url after location"); rec.vp = d; rec.vn = n; return 0; }
static struct http_settings_t set_;
static ERROR_CODE s_set(struct http_connection_t *h) { rec.set++; CHECK(rec.unset == 1, "the handler before is detached first"); set_.on_message_begin = r_begin; set_.on_url = r_url; set_.on_path = r_path; set_.on_location = r_loc; set_.on_virtual_url = r_vurl; return 0; }
static ERROR_CODE s_unset(struct http_connection_t *h) { rec.unset++; return 0; }
static void mkf(const char *rel) { char b[1400]; snprintf(b, sizeof b, "%s/%s", vf_contents, rel); FILE *f = fopen(b, "w"); if(f) fclose(f); }
static void dir(const char *rel) { char b[1400]; snprintf(b, sizeof b, "%s/%s", vf_contents, rel); mkdir(b, 0755); }
static int ready;
static void init(void) {
    if(ready) return; ready = 1; const char *s = getenv("VF_SCRATCH"); if(!s) s = "."; char cwd[400]; if(s[0] != '/') { if(!getcwd(cwd, sizeof cwd)) abort(); s = cwd; }
    snprintf(vf_contents, sizeof vf_contents, "%s/www17", s); mkdir(vf_contents, 0755); dir("a"); dir("b"); dir("b/c"); dir("d"); dir("d/e"); mkf("d/index.html"); mkf("b/c/other.txt"); mkf("a/index.html"); mkf("a/other.txt");
}
typedef struct { int name, path, handler, base, auth; } sec;
/* strings of the exact size, so that reads past their end are caught */
static unsigned char *str(const char *s) { size_t n = strlen(s) + 1; return memcpy(malloc(n), s, n); }
static void run(sec *v, size_t n, int loaded, int resolve, int dindex, const char *index, const char **u, size_t nu) {
    init(); struct service_t *s = calloc(1, sizeof *s); struct service_options_t *o = calloc(1, sizeof *o); s->options = o; s->create_http_handler = create_http_handler_service; s->add_http_handler = add_http_handler_service; s->get_http_handler = get_http_handler_service; s->remove_http_handler = remove_http_handler_service; s->delete_http_handler = delete_http_handler_service;
    create_hash_map(&s->http_handlers_map, 0); create_sort_map(&s->configuration, 0); size_t i, j, want = 0, cnt, at[1024]; unsigned char **keep = calloc(n * 6 + 6, sizeof *keep); size_t nk = 0; struct sort_map_t **maps = calloc(n + 1, sizeof *maps); unsigned char **val = calloc(n * 5 + 5, sizeof *val);
    for(i = 0; i < n; i++) {
        char nm[64]; if(n > 20) snprintf(nm, sizeof nm, "location:%zu", i); else snprintf(nm, sizeof nm, "%s", names[v[i].name]); for(j = 0; j < i; j++) if(keep[j] && strcmp((char *) keep[j], nm) == 0) break; if(j < i) { continue; }
        keep[i] = str(nm); create_sort_map(&maps[i], 0); if(v[i].path >= 0) set_value_string_sort_map(maps[i], (unsigned char *) "path", val[i * 5] = str(paths[v[i].path])); if(v[i].handler >= 0) set_value_string_sort_map(maps[i], (unsigned char *) "handler", val[i * 5 + 1] = str(hnames[v[i].handler]));
        if(v[i].base) set_value_string_sort_map(maps[i], (unsigned char *) "base_path", val[i * 5 + 2] = str("/srv")); if(v[i].auth & 1) set_value_string_sort_map(maps[i], (unsigned char *) "auth_basic", val[i * 5 + 3] = str("realm")); if(v[i].auth & 2) set_value_string_sort_map(maps[i], (unsigned char *) "auth_file", val[i * 5 + 4] = str("passwd"));
        set_value_string_sort_map(s->configuration, keep[i], maps[i]); if(strncmp(nm, "location:", 9) == 0 && v[i].path >= 0 && v[i].handler >= 0 && want < 1024) at[want++] = i;
    }
    s->locations.count = 0; CHECK(calculate_locations_service(s) == 0, "locations"); cnt = s->locations.count; CHECK(cnt == want, "a location for each complete section, up to the size of the table");
    for(i = 0; i < cnt; i++) { size_t k = at[i]; struct location_t *l = &s->locations.values[i]; CHECK(strcmp((char *) l->name, (char *) keep[k] + 9) == 0 && l->path == val[k * 5] && l->handler == val[k * 5 + 1] && l->configuration == maps[k], "the locations are those of the configuration, in its order"); }
    register_handler_dispatch(s); register_handler_file(s); struct http_handler_t *hd, *hf, *h[4] = { 0 }; s->get_http_handler(s, &hd, (unsigned char *) "dispatch"); s->get_http_handler(s, &hf, (unsigned char *) "file"); struct file_handler_t *f = hf->lower; CHECK(f->locations_count == cnt, "one entry per location");
    for(i = 0; i < cnt; i++) { size_t k = at[i]; CHECK(f->locations[i].base_path == val[k * 5 + 2] && f->locations[i].auth_basic == val[k * 5 + 3] && f->locations[i].auth_file == val[k * 5 + 4], "the entry of a location holds its values"); }
    for(i = 0; i < 2; i++) if(loaded >> i & 1) { s->create_http_handler(s, &h[i], (unsigned char *) hnames[i]); h[i]->set = s_set; h[i]->unset = s_unset; h[i]->resolve_index = resolve >> i & 1; s->add_http_handler(s, h[i]); }
    h[3] = hf; hf->set = s_set; hf->unset = s_unset; hf->resolve_index = resolve >> 3 & 1; o->default_index = dindex; if(index[0]) o->index_count = split((char *) index, (char *) o->index, 128, ' ');
    hd->unset = s_unset;
    for(j = 0; j < nu; j++) {
        struct connection_t c; struct io_connection_t io; struct http_connection_t hc; struct http_parser_t *p; memset(&c, 0, sizeof c); memset(&io, 0, sizeof io); memset(&hc, 0, sizeof hc); memset(&rec, 0, sizeof rec); memset(&set_, 0, sizeof set_); create_http_parser(&p, HTTP_REQUEST); p->parameters = &c; c.service = s; c.lower = &io; io.lower = &hc; hc.http_handler = hd; hc.http_settings = &set_; hc.http_parser = p;
        size_t un = strlen(u[j]); unsigned char *d = malloc(un); memcpy(d, u[j], un); char path[8000]; char *q = memchr(d, '?', un); size_t pn = q ? (size_t) (q - (char *) d) : un; memcpy(path, d, pn); path[pn] = 0; int pass, off[3], which = -1, mend = 0, hn = 3; const char *fin = "file";
        for(pass = 0; pass < 2; pass++) {
            for(i = 0; i < cnt; i++) { const char *e; int eo; pcre *x = pcre_compile(paths[v[at[i]].path], 0, &e, &eo, NULL); int m = x ? pcre_exec(x, NULL, path, pn, 0, 0, off, 3) : -1; if(x) pcre_free(x); if(m >= 0) break; }
            if(i < cnt) { which = i; mend = off[1]; hn = v[at[i]].handler; fin = hnames[hn]; }
            if(pass == 1 || !h[hn] || !h[hn]->resolve_index || !dindex || !(pn == 0 || path[pn - 1] == '/')) break;
            char b[3000]; size_t k; for(k = 0; k < 32; k++) { snprintf(b, 1024, "%s%s", vf_contents, path); char c2[5000]; snprintf(c2, 1024, "%s/%s", b, o->index[k]); if(access(c2, F_OK) == 0) break; } if(k == 32) break; strcpy(path + pn, (char *) o->index[k]); pn += strlen((char *) o->index[k]);
        }
        if(un < 3000) {
            ERROR_CODE r = url_callback_handler_dispatch(p, d, un); CHECK(r == 0, "accepted");
            if(!h[hn]) { CHECK(rec.set == 0 && rec.unset == 0 && hc.http_handler == hd, "no handler is told when the one of the location is missing"); }
            else {
                CHECK(rec.set == 1 && rec.unset == 1 && hc.http_handler == h[hn], "the handler of the first location that matches"); CHECK(rec.msg == 1 && rec.up == d && rec.un == un && rec.pn == pn && memcmp(rec.p, path, pn) == 0, "the url and the path, with the index file of a directory");
                CHECK(rec.loc == (which >= 0) && rec.vurl == rec.loc, "a location exactly when one matches"); if(which >= 0) { size_t of = mend > 0 && path[mend - 1] == '/' ? mend - 1 : mend; CHECK(rec.index == (size_t) which && rec.offset == of, "the first location that matches"); size_t z = of < un ? of : un; CHECK(rec.vp == d + z && rec.vn == un - z, "the rest of the url"); }
                NONTRIVIAL();
            }
        } else { ERROR_CODE r = url_callback_handler_dispatch(p, d, un); if(r) CHECK(rec.set == 0 && hc.http_handler == hd, "refused"); else NONTRIVIAL(); }
        free(d); delete_http_parser(p);
    }
    for(i = 0; i < 2; i++) if(h[i]) { s->remove_http_handler(s, h[i]); s->delete_http_handler(s, h[i]); }
    unregister_handler_dispatch(s); unregister_handler_file(s); delete_hash_map(s->http_handlers_map); for(i = 0; i < n; i++) { if(maps[i]) delete_sort_map(maps[i]); free(keep[i]); for(j = 0; j < 5; j++) free(val[i * 5 + j]); } delete_sort_map(s->configuration); free(keep); free(maps); free(val); free(o); free(s);
}
static void mime(size_t n, int c) {
    struct service_t *s = calloc(1, sizeof *s); struct service_options_t *o = calloc(1, sizeof *o); s->options = o; create_hash_map(&o->mime_types, 0); set_value_string_hash_map(o->mime_types, (unsigned char *) "html", "text/html"); set_value_string_hash_map(o->mime_types, (unsigned char *) "x-y", "x/y");
    char *e = malloc(n + 1); memset(e, c, n); e[n] = 0; const char *m = _get_mime_type_service(s, e); CHECK(m == NULL, "no type is configured for it"); free(e);
    CHECK(strcmp(_get_mime_type_service(s, "HtMl"), "text/html") == 0 && strcmp(_get_mime_type_service(s, "X_y"), "x/y") == 0 && _get_mime_type_service(s, "htm") == NULL && _get_mime_type_service(s, "") == NULL, "the type of the extension"); delete_hash_map(o->mime_types); free(o); free(s); NONTRIVIAL();
}
void vf_scenario(vf_in *in) {
    size_t n = vf_pick(in, 7), i; sec v[8]; int l = vf_byte(in) | 1, r = vf_byte(in), di = vf_byte(in) & 3; static const char *ix[] = { "", "index.html", "other.txt index.html", "nope index.html other.txt" };
    for(i = 0; i < n; i++) { v[i].name = vf_pick(in, 10); v[i].path = (int) vf_pick(in, 11) - 1; v[i].handler = (int) vf_pick(in, 5) - 1; int b = vf_byte(in); v[i].base = b & 1; v[i].auth = b >> 1 & 3; }
    const char *u[4]; char *own = NULL; for(i = 0; i < 3; i++) u[i] = urls[vf_pick(in, sizeof urls / sizeof urls[0])]; size_t k = vf_left(in), j; own = malloc(k + 2); own[0] = '/'; for(j = 0; j < k; j++) { int c = vf_byte(in); own[j + 1] = c ? c : '?'; } own[k + 1] = 0; u[3] = own;
    run(v, n, l, r, di != 0, ix[vf_pick(in, 4)], u, 4); free(own);
}
void vf_fixed(void) {
    size_t i, j, k; sec v[1100]; for(i = 0; i < 1100; i++) { v[i].name = 0; v[i].path = i % 10; v[i].handler = i % 4; v[i].base = i & 1; v[i].auth = i >> 1 & 3; } size_t nu = sizeof urls / sizeof urls[0];
    run(v, 1023, 15, 15, 1, "index.html", urls, 3); run(v, 1024, 15, 15, 1, "index.html", urls, 3); run(v, 1025, 15, 15, 1, "index.html", urls, 3); run(v, 1100, 15, 0, 1, "", urls, 3);
    for(i = 0; i < 10; i++) for(j = 0; j < 10; j++) for(k = 0; k < 16; k++) { sec w[3]; w[0] = (sec) { 8, i, k & 3, 0, 0 }; w[1] = (sec) { 0, j, k >> 2, 1, 3 }; w[2] = (sec) { 3, j, 0, 0, 1 }; run(w, 3, 15, k & 1 ? 15 : 3, 1, k & 2 ? "nope index.html" : "other.txt index.html", urls, nu); if(i == j) run(w, 3, k, 15, k > 3, "index.html", urls, nu); }
    for(i = 0; i < 10; i++) { sec w[2]; for(j = 0; j < 10; j++) { w[0] = (sec) { i, 1, 0, 1, 1 }; w[1] = (sec) { j, 8, 1, 0, 2 }; run(w, 2, 11, 3, 1, "index.html", urls, nu); w[0].path = -1; run(w, 2, 11, 3, 1, "index.html", urls, nu); w[0].path = 1; w[1].handler = -1; run(w, 2, 11, 3, 1, "index.html", urls, nu); } }
    run(v, 0, 15, 15, 1, "index.html", urls, nu); run(v, 0, 7, 15, 1, "index.html", urls, nu);
    char *big[6]; size_t sz[] = { 3960, 3966, 3967, 3968, 3969, 6000 }; for(i = 0; i < 6; i++) { big[i] = malloc(sz[i] + 1); memset(big[i], 'a', sz[i]); big[i][0] = '/'; big[i][sz[i] - 1] = '/'; big[i][sz[i]] = 0; } run(v, 9, 15, 15, 1, "index.html", (const char **) big, 6); for(i = 0; i < 6; i++) free(big[i]);
    for(i = 0; i < 300; i++) { mime(i, 'a'); mime(i, 'Z'); } mime(1000, '/');
}
