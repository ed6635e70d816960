#include "vf_proof.h"
#include "http_inv.h"
unsigned char *vf_buf; size_t vf_off;
#include "vf_defaults.h"
#include "http/http_parser.c"
static unsigned vf_n[9]; static const unsigned char *vf_at; static size_t vf_len; static ERROR_CODE vf_answer;
static ERROR_CODE cb_begin(struct http_parser_t *p) { vf_n[1]++; return nondet_uint(); }
static ERROR_CODE cb_line(struct http_parser_t *p) { vf_n[2]++; return nondet_uint(); }
static ERROR_CODE cb_done(struct http_parser_t *p) { vf_n[3]++; return nondet_uint(); }
static ERROR_CODE cb_headers(struct http_parser_t *p) { vf_n[4]++; return vf_answer; }
static ERROR_CODE cb_data(struct http_parser_t *p, const unsigned char *at, size_t n) { vf_n[5]++; return nondet_uint(); }
static ERROR_CODE cb_body(struct http_parser_t *p, const unsigned char *at, size_t n) { vf_n[8]++; vf_at = at; vf_len = n; return nondet_uint(); }
static struct http_settings_t vf_s;
struct http_parser_t nondet_parser(void);
static unsigned char *mk_mark(void) { size_t o = nondet_size(); VF_REQUIRES(o <= vf_off); return nondet_int() ? NULL : vf_buf + o; }
static struct http_parser_t mk(int st, size_t n) {
    struct http_settings_t *s = &vf_s; s->on_message_begin = cb_begin; s->on_url = cb_data; s->on_line = cb_line; s->on_header_field = cb_data; s->on_header_value = cb_data;
    s->on_headers_complete = cb_headers; s->on_body = cb_body; s->on_message_complete = cb_done; s->on_path = NULL; s->on_location = NULL; s->on_virtual_url = NULL;
    struct http_parser_t p = nondet_parser(); struct http_parser_t *http_parser = &p; vf_answer = nondet_uint();
    VF_REQUIRES((unsigned) P->header_state <= HEADER_STATE_CONNECTION_CLOSE); VF_REQUIRES(P->state == st);
    VF_REQUIRES(INV_PARSER(P->state, P->header_state, P->index)); P->state = st;
    VF_REQUIRES(P->type == HTTP_REQUEST || P->type == HTTP_RESPONSE || P->type == HTTP_BOTH);
    vf_off = nondet_size(); VF_REQUIRES(vf_off < (1ul << 30)); vf_buf = malloc(vf_off + n);
    p.url_mark = mk_mark(); p.header_field_mark = mk_mark(); p.header_value_mark = mk_mark();
    for(int k = 0; k < 9; k++) vf_n[k] = 0;
    return p;
}
static int step(struct http_parser_t *p, unsigned char byte) { vf_buf[vf_off] = byte; return process_data_http_parser(p, &vf_s, vf_buf + vf_off, 1); }
#define QUIET (vf_n[1] + vf_n[3] + vf_n[4] + vf_n[8] == 0)
#define MIN_(a, b) ((a) < (b) ? (a) : (b))
static int hexv(unsigned char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
static int lower(unsigned char c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
/* a fixed length body of L bytes: the next n bytes, of any n */
void u_identity(void) {
    size_t n = nondet_size(); VF_REQUIRES(n >= 1 && n < (1ul << 30)); struct http_parser_t p = mk(STATE_BODY_IDENTITY, n), o = p; size_t l = (size_t) o.content_length, m = MIN_(l, n);
    int r = process_data_http_parser(&p, &vf_s, vf_buf + vf_off, n);
    VF_ENSURES(r == (int) m, "exactly the bytes of the body are taken");
    VF_ENSURES(vf_n[8] == 1 && vf_at == vf_buf + vf_off && vf_len == m, "exactly the bytes of the body are delivered");
    VF_ENSURES((size_t) p.content_length == l - m, "the remaining length goes down by what was delivered");
    VF_ENSURES((vf_n[3] == 1) == (n >= l) && vf_n[3] <= 1, "the message ends with its last body byte and not before");
    VF_ENSURES(vf_n[3] == 1 || p.state == STATE_BODY_IDENTITY, "the body goes on");
    VF_ENSURES(vf_n[1] + vf_n[2] + vf_n[4] + vf_n[5] == 0 && p.flags == o.flags, "nothing else happens");
    if(n >= l) VF_REACH("end"); else VF_REACH("part");
}
/* one chunk of L bytes left: span of n <= L bytes (what follows the chunk is its own state) */
void u_chunk(void) {
    size_t n = nondet_size(); VF_REQUIRES(n >= 1 && n < (1ul << 30)); struct http_parser_t p = mk(STATE_CHUNK_DATA, n), o = p; size_t l = (size_t) o.content_length; VF_REQUIRES(n <= l);
    int r = process_data_http_parser(&p, &vf_s, vf_buf + vf_off, n);
    VF_ENSURES(r == (int) n && vf_n[8] == 1 && vf_at == vf_buf + vf_off && vf_len == n, "exactly the bytes of the chunk are delivered");
    VF_ENSURES((size_t) p.content_length == l - n, "the remaining length goes down by what was delivered");
    VF_ENSURES(p.state == (n == l ? STATE_CHUNK_DATA_ALMOST_DONE : STATE_CHUNK_DATA), "the chunk ends with its last byte");
    VF_ENSURES(vf_n[1] + vf_n[2] + vf_n[3] + vf_n[4] + vf_n[5] == 0 && p.flags == o.flags, "nothing else happens");
    if(n == l) VF_REACH("end"); else VF_REACH("part");
}
/* a chunk larger than this segment: no byte past the chunk is delivered as body */
void u_chunk_more(void) {
    struct http_parser_t p = mk(STATE_CHUNK_DATA, 2), o = p; VF_REQUIRES(o.content_length == 1);
    int r = process_data_http_parser(&p, &vf_s, vf_buf + vf_off, 2);
    VF_ENSURES(r == 2 && vf_n[8] == 1 && vf_len == 1 && vf_at == vf_buf + vf_off && p.state == STATE_CHUNK_DATA_DONE, "bytes after the chunk are not body");
    VF_REACH("done");
}
void u_chunk_sep(void) {
    int which = nondet_int() != 0; struct http_parser_t p = mk(STATE_CHUNK_DATA_ALMOST_DONE, 1), o = p;
    int r = step(&p, '\r'); VF_ENSURES(r == 1 && p.state == STATE_CHUNK_DATA_DONE && QUIET && vf_n[2] + vf_n[5] == 0 && p.flags == o.flags, "return after a chunk");
    p.state = STATE_CHUNK_DATA_DONE; r = step(&p, '\n');
    VF_ENSURES(r == 1 && p.state == STATE_CHUNK_SIZE_START && QUIET && vf_n[2] + vf_n[5] == 0 && p.flags == o.flags, "the next chunk size follows"); VF_REACH("done");
}
void u_chunk_size(void) {
    unsigned char c = nondet_u8(); int h = hexv(c); struct http_parser_t p = mk(STATE_CHUNK_SIZE_START, 1), o = p; int r = step(&p, c);
    VF_ENSURES((r == 1) == (h >= 0), "a chunk size starts with a hexadecimal digit");
    if(r == 1) { VF_ENSURES(p.content_length == h && p.state == STATE_CHUNK_SIZE && QUIET && p.flags == o.flags, "first digit of the chunk size"); VF_REACH("digit"); } else { VF_REACH("refused"); }
}
void u_chunk_size2(void) {
    unsigned char c = nondet_u8(); int h = hexv(c); struct http_parser_t p = mk(STATE_CHUNK_SIZE, 1), o = p; long long v = (long long) o.content_length * 16 + h; int r = step(&p, c);
    VF_ENSURES(r == 1 || r == -1, "result");
    if(r == 1) VF_ENSURES(QUIET && p.flags == o.flags, "nothing else happens");
    if(h >= 0) { VF_ENSURES((r == 1) == (o.content_length <= (0x7fffffff - 15) / 16), "sizes that cannot be represented are refused"); if(r == 1) { VF_ENSURES(p.content_length == v && p.state == STATE_CHUNK_SIZE, "next digit of the chunk size"); VF_REACH("digit"); } }
    else if(c == '\r' || c == ';' || c == ' ') { VF_ENSURES(r == 1 && p.content_length == o.content_length && p.state == (c == '\r' ? STATE_CHUNK_SIZE_ALMOST_DONE : STATE_CHUNK_PARAMETERS), "end of the chunk size"); VF_REACH("end"); }
    else { VF_ENSURES(r == -1, "anything else is refused"); VF_REACH("refused"); }
}
void u_chunk_param(void) {
    unsigned char c = nondet_u8(); struct http_parser_t p = mk(STATE_CHUNK_PARAMETERS, 1), o = p; int r = step(&p, c);
    VF_ENSURES(r == 1 && QUIET && p.content_length == o.content_length && p.flags == o.flags && p.state == (c == '\r' ? STATE_CHUNK_SIZE_ALMOST_DONE : STATE_CHUNK_PARAMETERS), "chunk parameters do not change the size"); VF_REACH("done");
}
void u_chunk_size_end(void) {
    struct http_parser_t p = mk(STATE_CHUNK_SIZE_ALMOST_DONE, 1), o = p; int r = step(&p, '\n');
    VF_ENSURES(r == 1 && QUIET, "end of the size line");
    if(o.content_length == 0) { VF_ENSURES(p.state == STATE_HEADER_FIELD_START && p.flags == (o.flags | FLAG_TRAILING), "the zero chunk starts the trailer"); VF_REACH("last"); }
    else { VF_ENSURES(p.state == STATE_CHUNK_DATA && p.content_length == o.content_length && p.flags == o.flags, "the chunk data follows"); VF_REACH("data"); }
}
/* end of the headers: which framing the body has */
void u_headers_done(void) {
    struct http_parser_t p = mk(STATE_HEADERS_ALMOST_DONE, 1), o = p; int r = step(&p, '\n');
    int up = o.upgrade || (o.flags & FLAG_UPGRADE) || o.method == HTTP_CONNECT;
    if(o.flags & FLAG_TRAILING) { VF_ENSURES(r == 1 && vf_n[3] == 1 && vf_n[4] == 0 && vf_n[8] == 0, "the trailer ends the message"); VF_REACH("trailer"); return; }
    VF_ENSURES(vf_n[4] == 1 && vf_n[8] == 0 && vf_n[1] == 0, "the headers end once, without body data");
    if(vf_answer > 1) { VF_ENSURES(r == 0 && vf_n[3] == 0 && p.state == STATE_HEADERS_ALMOST_DONE, "refused headers stop the parser"); VF_REACH("refused"); return; }
    VF_ENSURES(r == 1, "processed");
    int skip = vf_answer == 1 || (o.flags & FLAG_SKIPBODY);
    if(up || skip) { VF_ENSURES(vf_n[3] == 1, "a message without body ends here"); VF_REACH("skip"); }
    else if(o.flags & FLAG_CHUNKED) { VF_ENSURES(vf_n[3] == 0 && p.state == STATE_CHUNK_SIZE_START, "a chunked body follows, whatever length was announced"); VF_REACH("chunked"); }
    else if(o.content_length > 0) { VF_ENSURES(vf_n[3] == 0 && p.state == STATE_BODY_IDENTITY && p.content_length == o.content_length, "a body of the announced length follows"); VF_REACH("length"); }
    else if(o.content_length == 0 || o.type == HTTP_REQUEST) { VF_ENSURES(vf_n[3] == 1, "an empty body ends the message"); VF_REACH("empty"); }
    else VF_ENSURES(vf_n[3] == 1, "one completion"); /* until the end of the connection (not claimed) or none */
}
/* a new message does not inherit the framing of the one before */
void u_fresh(void) {
    unsigned char c = nondet_u8(); int resp = nondet_int() != 0;
    if(resp) { struct http_parser_t p = mk(STATE_START_RES, 1); int r = step(&p, c); if(r == 1 && p.state != STATE_START_RES) { VF_ENSURES(p.flags == 0 && p.content_length == -1 && vf_n[1] == 1, "a response starts without framing"); VF_REACH("response"); } }
    else { struct http_parser_t p = mk(STATE_START_REQ, 1); int r = step(&p, c); if(r == 1 && p.state != STATE_START_REQ) { VF_ENSURES(p.flags == 0 && p.content_length == -1 && vf_n[1] == 1 && p.state == STATE_REQ_METHOD, "a request starts without framing"); VF_REACH("request"); } }
}
/* digits of the content length */
void u_length_first(void) {
    unsigned char c = nondet_u8(); struct http_parser_t p = mk(STATE_HEADER_VALUE_START, 1); VF_REQUIRES(p.header_state == HEADER_STATE_CONTENT_LENGTH); struct http_parser_t o = p; int r = step(&p, c);
    if(c >= '0' && c <= '9') { VF_ENSURES(r == 1 && p.content_length == c - '0' && p.header_state == HEADER_STATE_CONTENT_LENGTH && p.state == STATE_HEADER_VALUE && QUIET && p.flags == o.flags, "first digit of the length"); VF_REACH("digit"); }
    else if(c == ' ' || c == '\t') { VF_ENSURES(r == 1 && p.state == STATE_HEADER_VALUE_START && p.header_state == o.header_state && p.content_length == o.content_length && p.flags == o.flags && QUIET, "leading blanks"); VF_REACH("blank"); }
    else if(c != '\r' && c != '\n') { VF_ENSURES(r == -1, "a length that is not a number is refused"); VF_REACH("refused"); }
}
void u_length_next(void) {
    unsigned char c = nondet_u8(); struct http_parser_t p = mk(STATE_HEADER_VALUE, 1); VF_REQUIRES(p.header_state == HEADER_STATE_CONTENT_LENGTH); struct http_parser_t o = p; long long v = (long long) o.content_length * 10 + (c - '0'); int r = step(&p, c);
    if(c >= '0' && c <= '9') { VF_ENSURES((r == 1) == (o.content_length <= (0x7fffffff - 9) / 10), "lengths that cannot be represented are refused");
        if(r == 1) { VF_ENSURES(p.content_length == v && p.header_state == HEADER_STATE_CONTENT_LENGTH && p.state == STATE_HEADER_VALUE && QUIET && p.flags == o.flags, "next digit of the length"); VF_REACH("digit"); } else VF_REACH("over"); }
    else if(c == '\r') { VF_ENSURES(r == 1 && p.state == STATE_HEADER_ALMOST_DONE && p.content_length == o.content_length && p.flags == o.flags && QUIET, "end of the length"); VF_REACH("end"); }
    else if(c != ' ' && c != '\n') { VF_ENSURES(r == -1, "a length that is not a number is refused"); VF_REACH("refused"); }
}
/* only the length header changes the length, only its own headers change the flags */
void u_value_other(void) {
    unsigned char c = nondet_u8(); int first = nondet_int() != 0; struct http_parser_t p;
    if(first) { p = mk(STATE_HEADER_VALUE_START, 1); VF_REQUIRES(p.header_state != HEADER_STATE_CONTENT_LENGTH); struct http_parser_t o = p; int r = step(&p, c); VF_ENSURES(r == 1 && p.content_length == o.content_length, "other headers keep the length"); VF_ENSURES(QUIET && (p.flags & ~FLAG_UPGRADE) == (o.flags & ~FLAG_UPGRADE) && (p.flags == o.flags || o.header_state == HEADER_STATE_UPGRADE), "other headers keep the framing"); VF_REACH("first"); }
    else { p = mk(STATE_HEADER_VALUE, 1); VF_REQUIRES(p.header_state != HEADER_STATE_CONTENT_LENGTH && c != '\n'); struct http_parser_t o = p; int r = step(&p, c); VF_ENSURES(r == 1 && p.content_length == o.content_length && p.flags == o.flags && QUIET, "other headers keep the length and framing"); VF_REACH("next"); }
}
void u_value_end(void) {
    struct http_parser_t p = mk(STATE_HEADER_ALMOST_DONE, 1), o = p; int r = step(&p, '\n');
    unsigned f = o.header_state == HEADER_STATE_CONNECTION_KEEP_ALIVE ? FLAG_KEEP_ALIVE : o.header_state == HEADER_STATE_CONNECTION_CLOSE ? FLAG_CLOSE : o.header_state == HEADER_STATE_TRANSFER_ENCODING_CHUNKED ? FLAG_CHUNKED : 0;
    VF_ENSURES(r == 1 && p.state == STATE_HEADER_VALUE_LWS && p.flags == (o.flags | f) && p.content_length == o.content_length && QUIET, "the recognised value takes effect at the end of its line, nothing else does"); VF_REACH("done");
}
/* recognition of the names and values, any case: the position reached is a function of the bytes so far */
static void name_step(int hs, const char *name, size_t n, int done) {
    unsigned char c = nondet_u8(); struct http_parser_t p = mk(STATE_HEADER_FIELD, 1); VF_REQUIRES(p.header_state == hs && p.index < n); struct http_parser_t o = p; int r = step(&p, c); int t = lower(c);
    VF_ENSURES(r == 1 || r == -1, "result");
    if(r != 1) return;
    VF_ENSURES(p.content_length == o.content_length && p.flags == o.flags && QUIET, "a name changes no framing");
    if(t == name[o.index + 1]) { VF_ENSURES(p.state == STATE_HEADER_FIELD && p.index == o.index + 1 && p.header_state == (o.index + 2 == (int) n ? done : hs), "the matched prefix grows"); VF_REACH("match"); }
    else if(p.state == STATE_HEADER_FIELD) { VF_ENSURES(p.header_state == HEADER_STATE_GENERAL, "another name is not mistaken for it"); VF_REACH("other"); }
}
void u_name_length(void) { name_step(HEADER_STATE_MATCHING_CONTENT_LENGTH, "content-length", 14, HEADER_STATE_CONTENT_LENGTH); }
void u_name_encoding(void) { name_step(HEADER_STATE_MATCHING_TRANSFER_ENCODING, "transfer-encoding", 17, HEADER_STATE_TRANSFER_ENCODING); }
void u_name_connection(void) { name_step(HEADER_STATE_MATCHING_CONNECTION, "connection", 10, HEADER_STATE_CONNECTION); }
void u_name_done(void) {
    unsigned char c = nondet_u8(); struct http_parser_t p = mk(STATE_HEADER_FIELD, 1); VF_REQUIRES(p.header_state == HEADER_STATE_CONTENT_LENGTH || p.header_state == HEADER_STATE_TRANSFER_ENCODING || p.header_state == HEADER_STATE_GENERAL); struct http_parser_t o = p; int r = step(&p, c);
    if(r != 1) { VF_REACH("refused"); return; }
    if(c == ':') { VF_ENSURES(p.state == STATE_HEADER_VALUE_START && p.header_state == o.header_state, "the value of the recognised header follows"); VF_REACH("colon"); }
    else if(p.state == STATE_HEADER_FIELD && c != ' ') { VF_ENSURES(p.header_state == HEADER_STATE_GENERAL, "a longer name is another header"); VF_REACH("longer"); }
}
void u_name_start(void) {
    unsigned char c = nondet_u8(); struct http_parser_t p = mk(STATE_HEADER_FIELD_START, 1), o = p; VF_REQUIRES(c != '\n' && c != '\r'); int r = step(&p, c); int t = lower(c);
    if(r != 1) { VF_REACH("refused"); return; }
    VF_ENSURES(p.state == STATE_HEADER_FIELD && p.index == 0 && p.content_length == o.content_length && p.flags == o.flags && QUIET, "a name starts");
    if(t == 't') { VF_ENSURES(p.header_state == HEADER_STATE_MATCHING_TRANSFER_ENCODING, "t"); VF_REACH("t"); }
    else if(t == 'c') { VF_ENSURES(p.header_state == HEADER_STATE_C, "c"); VF_REACH("c"); }
    else VF_ENSURES(p.header_state != HEADER_STATE_C && p.header_state != HEADER_STATE_MATCHING_TRANSFER_ENCODING && p.header_state != HEADER_STATE_CONTENT_LENGTH && p.header_state != HEADER_STATE_TRANSFER_ENCODING, "other names");
}
void u_name_con(void) {
    unsigned char c = nondet_u8(); struct http_parser_t p = mk(STATE_HEADER_FIELD, 1); VF_REQUIRES(p.header_state == HEADER_STATE_C || p.header_state == HEADER_STATE_CO || p.header_state == HEADER_STATE_CON); VF_REQUIRES(p.index == p.header_state - HEADER_STATE_C);
    struct http_parser_t o = p; int r = step(&p, c); int t = lower(c);
    if(r != 1 || p.state != STATE_HEADER_FIELD) { VF_REACH("refused"); return; }
    VF_ENSURES(p.index == o.index + 1 && p.content_length == o.content_length && p.flags == o.flags && QUIET, "the prefix grows");
    int e = o.header_state == HEADER_STATE_C ? (t == 'o' ? HEADER_STATE_CO : HEADER_STATE_GENERAL) : o.header_state == HEADER_STATE_CO ? (t == 'n' ? HEADER_STATE_CON : HEADER_STATE_GENERAL) :
        t == 'n' ? HEADER_STATE_MATCHING_CONNECTION : t == 't' ? HEADER_STATE_MATCHING_CONTENT_LENGTH : HEADER_STATE_GENERAL;
    VF_ENSURES(p.header_state == e, "con is followed by n or t"); VF_REACH("done");
}
static void value_step(int hs, const char *v, size_t n, int done) {
    unsigned char c = nondet_u8(); VF_REQUIRES(c != '\r' && c != '\n'); struct http_parser_t p = mk(STATE_HEADER_VALUE, 1); VF_REQUIRES(p.header_state == hs); struct http_parser_t o = p; int r = step(&p, c); int t = lower(c);
    VF_ENSURES(r == 1 && p.state == STATE_HEADER_VALUE, "the value goes on");
    if(t == v[o.index + 1]) { VF_ENSURES(p.index == o.index + 1 && p.header_state == (o.index + 2 == (int) n ? done : hs), "the matched prefix grows"); VF_REACH("match"); }
    else if(c != ' ') { VF_ENSURES(p.header_state == HEADER_STATE_GENERAL, "another value is not mistaken for it"); VF_REACH("other"); }
}
void u_value_chunked(void) { value_step(HEADER_STATE_MATCHING_TRANSFER_ENCODING_CHUNKED, "chunked", 7, HEADER_STATE_TRANSFER_ENCODING_CHUNKED); }
void u_value_keep(void) { value_step(HEADER_STATE_MATCHING_CONNECTION_KEEP_ALIVE, "keep-alive", 10, HEADER_STATE_CONNECTION_KEEP_ALIVE); }
void u_value_close(void) { value_step(HEADER_STATE_MATCHING_CONNECTION_CLOSE, "close", 5, HEADER_STATE_CONNECTION_CLOSE); }
