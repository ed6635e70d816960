/* Drives the real file handler through one complete request: callbacks of the
 * parser, then every completed write until the connection is closed or released. */
#include "vf_driver.h"
#include <sys/stat.h>
#include "stdafx.h"
#include "system/system.h"
#include "http/http.h"
#include "stream/stream.h"
#include "handlers/handlers.h"
char vf_contents[1024], vf_resources[1024], vf_root[700];
static struct { uint8_t *p; size_t n; int closed, released, acquired, pending; connection_data_callback cb; void *param; } vf_out;
ERROR_CODE write_connection(struct connection_t *c, unsigned char *data, unsigned int size, connection_data_callback cb, void *param) {
    vf_out.p = realloc(vf_out.p, vf_out.n + size + 1); if(size) memcpy(vf_out.p + vf_out.n, data, size); vf_out.n += size; vf_out.p[vf_out.n] = 0;
    CHECK(!vf_out.pending, "two writes pending"); vf_out.cb = cb; vf_out.param = param; vf_out.pending = 1; FREE(data); return 0;
}
static ERROR_CODE fd_acquire(struct http_connection_t *h) { vf_out.acquired++; return 0; }
static ERROR_CODE fd_release(struct http_connection_t *h) { vf_out.released++; return 0; }
static ERROR_CODE fd_close(struct connection_t *c) { vf_out.closed++; return 0; }
static const char *fd_mime(struct service_t *s, char *e) { return "text/plain"; }
static struct service_t *fd_service; static struct service_options_t fd_options; static struct file_handler_t fd_fh; static struct file_location_t fd_loc[2]; static struct http_handler_t fd_hh;
typedef struct { struct connection_t c; struct io_connection_t io; struct http_connection_t h; struct http_parser_t *p; struct http_settings_t s; } fd_req;
static void fd_put(const char *rel, const void *data, size_t n) { char b[2048]; snprintf(b, sizeof b, "%s/%s", vf_root, rel); FILE *f = fopen(b, "wb"); if(f) { fwrite(data, 1, n, f); fclose(f); } }
static void fd_dir(const char *rel) { char b[2048]; snprintf(b, sizeof b, "%s/%s", vf_root, rel); mkdir(b, 0755); }
static void fd_init(void) {
    if(fd_service) return;
    const char *s = getenv("VF_SCRATCH"); if(!s) { s = "."; }
    char cwd[400]; if(s[0] != '/') { if(!getcwd(cwd, sizeof cwd)) abort(); s = cwd; }
    snprintf(vf_root, sizeof vf_root, "%s/fs", s); mkdir(vf_root, 0755);
    snprintf(vf_contents, sizeof vf_contents, "%s/www", vf_root); snprintf(vf_resources, sizeof vf_resources, "%s/res", vf_root);
    fd_dir("www"); fd_dir("res"); fd_dir("res/templates");
    const char *t = "listing ${out value=folder_path /} ${out value=items /}\n"; fd_put("res/templates/listing.html.tpl", t, strlen(t));
    fd_service = calloc(1, sizeof(struct service_t)); fd_service->options = &fd_options; fd_service->get_mime_type = fd_mime; strcpy((char *) fd_service->description, "viriatum/test"); fd_options.use_template = 0;
    fd_hh.lower = &fd_fh; fd_fh.locations = fd_loc; fd_fh.locations_count = 2; fd_hh.unset = unset_handler_file; fd_hh.set = set_handler_file; fd_hh.reset = reset_handler_file;
}
static fd_req *fd_begin(void) {
    fd_init(); fd_req *r = calloc(1, sizeof *r);
    free(vf_out.p); memset(&vf_out, 0, sizeof vf_out);
    r->c.service = fd_service; r->c.lower = &r->io; r->c.close_connection = fd_close; r->io.lower = &r->h; r->io.connection = &r->c; r->h.io_connection = &r->io;
    create_http_parser(&r->p, HTTP_REQUEST); r->p->parameters = &r->c; r->p->flags = FLAG_KEEP_ALIVE; r->p->method = HTTP_GET;
    r->h.http_parser = r->p; r->h.http_settings = &r->s; r->h.http_handler = &fd_hh; r->h.acquire = fd_acquire; r->h.release = fd_release;
    set_handler_file(&r->h); return r;
}
/* callbacks are given exact size copies, so that any read outside of them is caught */
static void fd_call(ERROR_CODE (*f)(struct http_parser_t *, const unsigned char *, size_t), fd_req *r, const void *d, size_t n) { unsigned char *x = malloc(n); if(n) memcpy(x, d, n); f(r->p, x, n); free(x); }
static void fd_url(fd_req *r, const void *d, size_t n) {
    const char *q = memchr(d, '?', n); fd_call(r->s.on_url, r, d, n); fd_call(r->s.on_path, r, d, q ? (size_t) (q - (const char *) d) : n);
}
static void fd_header(fd_req *r, const char *k, const void *v, size_t n) { fd_call(r->s.on_header_field, r, k, strlen(k)); fd_call(r->s.on_header_value, r, v, n); }
static void fd_finish(fd_req *r) {
    r->s.on_message_complete(r->p); CHECK(vf_out.acquired == 1, "connection acquired");
    int k = 0; while(vf_out.pending) { CHECK(k++ < 10000, "response never ends"); connection_data_callback cb = vf_out.cb; vf_out.pending = 0; if(cb) cb(&r->c, NULL, vf_out.param); }
    CHECK(vf_out.released == 1 && vf_out.closed == 0, "connection released once at the end"); CHECK(r->h.http_handler == NULL, "handler detached");
    delete_http_parser(r->p); free(r);
}
static int fd_status(void) { return vf_out.n > 12 ? atoi((char *) vf_out.p + 9) : 0; }
static const char *fd_find(const char *h) { /* value of a response header */
    static char v[5000]; char *e = vf_out.p ? strstr((char *) vf_out.p, "\r\n\r\n") : NULL; CHECK(e, "complete headers"); size_t l = strlen(h); char *p = (char *) vf_out.p;
    while(p < e) { char *x = strstr(p, "\r\n"); if(!x) break; p = x + 2; if(strncmp(p, h, l) == 0 && p[l] == ':') { char *z = strstr(p, "\r\n"); size_t n = z - (p + l + 2); if(n > 4999) n = 4999; memcpy(v, p + l + 2, n); v[n] = 0; return v; } }
    return NULL;
}
static uint8_t *fd_body(size_t *n) { uint8_t *e = (uint8_t *) strstr((char *) vf_out.p, "\r\n\r\n"); CHECK(e, "complete headers"); e += 4; *n = vf_out.n - (e - vf_out.p); return e; }
