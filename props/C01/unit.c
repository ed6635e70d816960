#include "vf_proof.h"
#include "http_inv.h"
unsigned char *vf_buf; size_t vf_off, vf_size;
unsigned long vf_events, vf_bodybytes, vf_done;
#ifdef U_LOOP
#define VF_LOOP_http_parser \
  ASSIGNS(byte, byte_token, unhex_value, matcher, to_read, pointer, index, state, header_state, header_field_mark, header_value_mark, url_mark, read_count, parse_count, \
          OBJ(http_parser), vf_events, vf_bodybytes, vf_done) \
  INV(SAME(pointer, data) && OFFS(pointer) >= vf_off && OFFS(pointer) <= vf_off + data_size) \
  INV(SAME(pointer_end, data) && OFFS(pointer_end) == vf_off + data_size) \
  INV(INV_PARSER(state, header_state, index)) \
  INV(INV_MARKS(url_mark, header_field_mark, header_value_mark, OFFS(pointer))) \
  INV(vf_bodybytes <= OFFS(pointer) - vf_off) \
  INV(parse_count <= 1 && vf_done <= 1 && (parse_count == 1) == (vf_done == 1)) \
  INV(parse_count == 0 || state != STATE_BODY_IDENTITY_EOF) \
  DECR(vf_off + data_size - OFFS(pointer))
#endif
#include "vf_defaults.h"
#include "http/http_parser.c"

#define SPAN(at, n) __CPROVER_assert(SAME(at, vf_buf) && OFFS(at) + (n) <= vf_off + vf_size && OFFS(at) + (n) >= OFFS(at), "ENSURES callback span lies inside the received data")
static ERROR_CODE cb_begin(struct http_parser_t *p) { vf_events++; return nondet_uint(); }
static ERROR_CODE cb_line(struct http_parser_t *p) { vf_events++; return nondet_uint(); }
static ERROR_CODE cb_done(struct http_parser_t *p) { vf_events++; vf_done++; return nondet_uint(); }
static ERROR_CODE cb_headers(struct http_parser_t *p) { vf_events++; return nondet_uint(); }
static ERROR_CODE cb_url(struct http_parser_t *p, const unsigned char *at, size_t n) { SPAN(at, n); return nondet_uint(); }
static ERROR_CODE cb_field(struct http_parser_t *p, const unsigned char *at, size_t n) { SPAN(at, n); return nondet_uint(); }
static ERROR_CODE cb_value(struct http_parser_t *p, const unsigned char *at, size_t n) { SPAN(at, n); return nondet_uint(); }
static ERROR_CODE cb_body(struct http_parser_t *p, const unsigned char *at, size_t n) {
    SPAN(at, n);
    __CPROVER_assert(OFFS(at) >= vf_off && n >= 1, "ENSURES body bytes belong to this segment");
    vf_bodybytes += n; return nondet_uint();
}
#ifndef NO_MAIN
static struct http_parser_t *mk_parser(void) {
    struct http_parser_t *http_parser = malloc(sizeof(*http_parser));
    /* the header_state and state fields are stored through unsigned char locals */
    VF_REQUIRES((unsigned) P->header_state <= HEADER_STATE_CONNECTION_CLOSE);
    VF_REQUIRES(INV_PARSER(P->state, P->header_state, P->index));
    VF_REQUIRES(P->type == HTTP_REQUEST || P->type == HTTP_RESPONSE || P->type == HTTP_BOTH);
    return http_parser;
}
static void mk_settings(struct http_settings_t *s) {
    s->on_message_begin = cb_begin; s->on_url = cb_url; s->on_line = cb_line; s->on_header_field = cb_field; s->on_header_value = cb_value;
    s->on_headers_complete = cb_headers; s->on_body = cb_body; s->on_message_complete = cb_done;
    s->on_path = NULL; s->on_location = NULL; s->on_virtual_url = NULL;
}
static const unsigned char *mk_mark(void) { size_t o = nondet_size(); VF_REQUIRES(o <= vf_off); return nondet_int() ? NULL : vf_buf + o; }
static void body(size_t max) {
    struct http_settings_t s; mk_settings(&s);
    size_t total = nondet_size(); VF_REQUIRES(total < (1ul << 31)); /* the processed size is returned as an int */
    vf_buf = malloc(total); vf_off = nondet_size(); vf_size = nondet_size();
    VF_REQUIRES(vf_off <= total && vf_size <= total - vf_off && vf_size >= 1 && vf_size <= max);
    struct http_parser_t *http_parser = mk_parser();
    P->url_mark = mk_mark(); P->header_field_mark = mk_mark(); P->header_value_mark = mk_mark();
    vf_events = vf_bodybytes = vf_done = 0;
    int r = process_data_http_parser(http_parser, &s, vf_buf + vf_off, vf_size);
    VF_ENSURES(r == -1 || (r >= 0 && (size_t) r <= vf_size), "the processed size is between nothing and all of the data, or an error");
    if(r >= 0) {
        VF_ENSURES(INV_STATE(P->state), "state");
        VF_ENSURES(INV_METHOD(P->state, P->index), "method");
        VF_ENSURES(INV_FIELD(P->state, P->header_state), "field");
        VF_ENSURES(INV_VALUE(P->state, P->header_state), "value");
        VF_ENSURES(INV_CHUNK(P->state), "chunk");
        VF_ENSURES(INV_LEN(P->state, P->header_state), "len");
        VF_ENSURES(INV_VER, "version and status numbers");
        VF_ENSURES(INV_IX(P->state, P->header_state, P->index), "index");
        VF_ENSURES(INV_MARKS(P->url_mark, P->header_field_mark, P->header_value_mark, vf_off + (size_t) r), "marks stay inside the received data");
        VF_ENSURES(vf_bodybytes <= (size_t) r, "no body byte is delivered twice");
        VF_ENSURES(vf_done <= 1, "at most one message completes per call");
        VF_REACH("processed");
    } else VF_REACH("error");
}
void u_step(void) { body(1); }
#ifdef VF_LO
void u_states(void) { __CPROVER_assert(STATE_DEAD == VF_LO && STATE_BODY_IDENTITY_EOF == VF_HI, "STRUCTURE every state of the grammar has a unit"); VF_REACH("all"); }
#endif
void u_create(void) {
    struct http_parser_t *p; create_http_parser(&p, (char) nondet_int()); struct http_parser_t *http_parser = p;
    VF_ENSURES(INV_PARSER(P->state, P->header_state, P->index) && P->url_mark == NULL && P->header_field_mark == NULL && P->header_value_mark == NULL && (P->type == HTTP_REQUEST || P->type == HTTP_RESPONSE), "a new parser is in a valid state");
    VF_REACH("created");
}
void u_loop(void) { body(1ul << 31); }
#endif
