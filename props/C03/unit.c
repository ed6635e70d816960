#include "vf_proof.h"
#include "http_inv.h"
unsigned char *vf_buf; size_t vf_off, vf_size;
/* position where the loop takes its next byte: there the values the loop carries are
 * compared with the values a call that stopped just before this byte has saved */
static struct http_parser_t vf_b; static int vf_r1; static unsigned vf_seen;
#ifdef U_PAIR
#define VF_GHOST_http_parser_byte if(vf_a && vf_seen++ == 1) { vf_head(state, header_state, index, url_mark, header_field_mark, header_value_mark, pointer); }
#endif
static struct http_parser_t *vf_a;
static void vf_head(unsigned char state, unsigned char header_state, size_t index, unsigned char *url_mark, unsigned char *header_field_mark, unsigned char *header_value_mark, unsigned char *pointer);
#include "vf_defaults.h"
#include "http/http_parser.c"
/* ghost event log: one entry per callback, body entries that continue each other are one entry */
#define EV 16
struct log { unsigned n; unsigned char kind[EV]; size_t at[EV]; size_t len[EV]; };
static struct log *vf_log; static ERROR_CODE vf_answer;
static ERROR_CODE ev(unsigned char kind, const unsigned char *at, size_t len, ERROR_CODE r) {
    struct log *l = vf_log; size_t o = at ? OFFS(at) : 0;
    if(kind == 8 && l->n > 0 && l->kind[l->n - 1] == 8 && l->at[l->n - 1] + l->len[l->n - 1] == o) { l->len[l->n - 1] += len; return r; }
    __CPROVER_assert(l->n < EV, "ENSURES the ghost log has room"); l->kind[l->n] = kind; l->at[l->n] = o; l->len[l->n] = len; l->n++; return r;
}
static ERROR_CODE cb_begin(struct http_parser_t *p) { return ev(1, NULL, 0, 0); }
static ERROR_CODE cb_line(struct http_parser_t *p) { return ev(2, NULL, 0, 0); }
static ERROR_CODE cb_done(struct http_parser_t *p) { return ev(3, NULL, 0, 0); }
static ERROR_CODE cb_headers(struct http_parser_t *p) { return ev(4, NULL, 0, vf_answer); }
static ERROR_CODE cb_url(struct http_parser_t *p, const unsigned char *at, size_t n) { return ev(5, at, n, 0); }
static ERROR_CODE cb_field(struct http_parser_t *p, const unsigned char *at, size_t n) { return ev(6, at, n, 0); }
static ERROR_CODE cb_value(struct http_parser_t *p, const unsigned char *at, size_t n) { return ev(7, at, n, 0); }
static ERROR_CODE cb_body(struct http_parser_t *p, const unsigned char *at, size_t n) { return ev(8, at, n, 0); }
static void mk_settings(struct http_settings_t *s) {
    s->on_message_begin = cb_begin; s->on_url = cb_url; s->on_line = cb_line; s->on_header_field = cb_field; s->on_header_value = cb_value;
    s->on_headers_complete = cb_headers; s->on_body = cb_body; s->on_message_complete = cb_done;
    s->on_path = NULL; s->on_location = NULL; s->on_virtual_url = NULL;
}
static unsigned char *mk_mark(void) { size_t o = nondet_size(); VF_REQUIRES(o <= vf_off); return nondet_int() ? NULL : vf_buf + o; }
struct http_parser_t nondet_parser(void);
static struct http_parser_t mk(void) {
    struct http_parser_t p = nondet_parser(); struct http_parser_t *http_parser = &p;
    VF_REQUIRES((unsigned) P->header_state <= HEADER_STATE_CONNECTION_CLOSE);
    VF_REQUIRES(INV_PARSER(P->state, P->header_state, P->index));
    VF_REQUIRES(P->type == HTTP_REQUEST || P->type == HTTP_RESPONSE || P->type == HTTP_BOTH);
    p.url_mark = mk_mark(); p.header_field_mark = mk_mark(); p.header_value_mark = mk_mark();
    return p;
}
static void same(struct http_parser_t *a, struct http_parser_t *b, struct log *x, struct log *y) {
    VF_ENSURES(a->type == b->type && a->flags == b->flags && a->content_length == b->content_length && a->_content_length == b->_content_length, "same framing");
    VF_ENSURES(a->http_major == b->http_major && a->http_minor == b->http_minor && a->status_code == b->status_code && a->method == b->method && a->upgrade == b->upgrade, "same message attributes");
    VF_ENSURES(x->n == y->n, "same number of events"); unsigned k = nondet_uint();
    if(k < x->n && k < EV) VF_ENSURES(x->kind[k] == y->kind[k] && x->at[k] == y->at[k] && x->len[k] == y->len[k], "same events");
}
/* From every state the invariant allows, one byte in a call of its own, and the same byte as the
 * first of a longer call: at the second byte the longer call carries exactly the state, pending spans
 * and events the short call saved. As the loop is the same code for every byte, cutting a segment
 * anywhere (outside a body span, see span) changes nothing. */
static struct log vf_x, vf_y;
#ifndef VF_S
#define VF_S STATE_BODY_IDENTITY
#endif
static void vf_head(unsigned char state, unsigned char header_state, size_t index, unsigned char *url_mark, unsigned char *header_field_mark, unsigned char *header_value_mark, unsigned char *pointer) {
    VF_ASSUME(state != STATE_BODY_IDENTITY_EOF);
    __CPROVER_assert(vf_r1 == 1 && pointer == vf_buf + vf_off + 1, "ENSURES the short call processed its byte");
    VF_ENSURES(state == (unsigned char) vf_b.state && header_state == (unsigned char) vf_b.header_state && (unsigned char) index == vf_b.index, "same position in the grammar");
    VF_ENSURES(index <= 255, "the saved index is the index");
    VF_ENSURES(url_mark == vf_b.url_mark && header_field_mark == vf_b.header_field_mark && header_value_mark == vf_b.header_value_mark, "same pending spans");
    same(vf_a, &vf_b, &vf_x, &vf_y); 
#ifndef NOHEAD
    VF_REACH("second byte");
#endif

    VF_ASSUME(0);
}
void u_pair(void) {
    struct http_settings_t s; mk_settings(&s); vf_answer = nondet_uint();
    vf_off = nondet_size(); VF_REQUIRES(vf_off < (1ul << 30)); vf_buf = malloc(vf_off + 2); unsigned char *d = vf_buf + vf_off;
    struct http_parser_t a = mk(), b; VF_REQUIRES(a.state == VF_S); a.state = VF_S; b = a; vf_x.n = vf_y.n = 0; vf_seen = 0; vf_a = NULL;
    vf_log = &vf_y; vf_r1 = process_data_http_parser(&b, &s, d, 1);
    /* a body that only the end of the connection delimits is cut where the segment ends */
    VF_REACH("called"); vf_b = b; vf_a = &a; vf_log = &vf_x; int r = process_data_http_parser(&a, &s, d, 2);
    /* here the longer call ended at its first byte (message complete, refused data or headers) */
    VF_ENSURES(r == vf_r1 || (r == 2 && vf_r1 == 1 && a.state == STATE_BODY_IDENTITY_EOF + 0) || (r == 2 && (VF_S == STATE_BODY_IDENTITY || VF_S == STATE_CHUNK_DATA)), "same amount processed, or both fail");
    if(r >= 0 && r == vf_r1) VF_ENSURES(a.state == b.state && a.header_state == b.header_state && a.index == b.index && a.url_mark == b.url_mark && a.header_field_mark == b.header_field_mark && a.header_value_mark == b.header_value_mark, "same saved position");
    if(r >= 0 && r == vf_r1) same(&a, &b, &vf_x, &vf_y);
}
#ifdef VF_LO
void u_states(void) { __CPROVER_assert(STATE_DEAD == VF_LO && STATE_BODY_IDENTITY_EOF == VF_HI, "STRUCTURE every state of the grammar has a unit"); VF_REACH("all"); }
#endif
/* a body span of any length, cut anywhere */
void u_span(void) {
    struct http_settings_t s; mk_settings(&s); vf_answer = 0; vf_a = NULL;
    vf_off = nondet_size(); VF_REQUIRES(vf_off < (1ul << 30)); size_t n = nondet_size(), k = nondet_size(); VF_REQUIRES(n >= 2 && n < (1ul << 30) && k >= 1 && k < n);
    vf_buf = malloc(vf_off + n); unsigned char *d = vf_buf + vf_off;
    struct http_parser_t a = mk(), b; VF_REQUIRES(a.state == VF_S); a.state = VF_S; b = a; struct log x, y; x.n = y.n = 0;
    VF_REQUIRES((size_t) a.content_length >= n);
    vf_log = &x; int r = process_data_http_parser(&a, &s, d, n);
    vf_log = &y; int r1 = process_data_http_parser(&b, &s, d, k);
    VF_ENSURES(b.state == VF_S, "the body goes on"); b.state = VF_S;
    int r2 = process_data_http_parser(&b, &s, d + k, n - k);
    VF_ENSURES(r == (int) n && r1 == (int) k && r2 == (int) (n - k), "the whole span is processed");
    VF_ENSURES(a.state == b.state && a.header_state == b.header_state && a.index == b.index && a.url_mark == b.url_mark && a.header_field_mark == b.header_field_mark && a.header_value_mark == b.header_value_mark, "same saved position");
    same(&a, &b, &x, &y); VF_REACH("processed");
}
/* a new message after a finished one does not depend on the finished one's attributes: see the C04 unit */
