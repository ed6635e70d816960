/* representation invariant of the HTTP parser, shared by the units on it */
#define P http_parser
/* representation invariant of the parser at the head of its main loop, over the
 * values held in its locals (st, hs, ix) and in the structure */
#define INV_STATE(st) ((st) >= STATE_START_REQ_OR_RES && (st) <= STATE_BODY_IDENTITY_EOF)
#define INV_METHOD(st, ix) ((st) != STATE_REQ_METHOD || (P->method >= 1 && P->method <= 24 && (ix) >= 1 && (ix) <= vf_mlen[P->method]))
#define INV_FIELD(st, hs) ((st) != STATE_HEADER_FIELD || ((hs) >= HEADER_STATE_GENERAL && (hs) <= HEADER_STATE_UPGRADE))
#define INV_VALUE(st, hs) ((st) != STATE_HEADER_VALUE || ((hs) != HEADER_STATE_CONNECTION && (hs) != HEADER_STATE_TRANSFER_ENCODING))
#define INV_CHUNK(st) (!((st) == STATE_CHUNK_SIZE_START || (st) == STATE_CHUNK_SIZE || (st) == STATE_CHUNK_PARAMETERS || (st) == STATE_CHUNK_SIZE_ALMOST_DONE || (st) == STATE_CHUNK_DATA || (st) == STATE_CHUNK_DATA_ALMOST_DONE || (st) == STATE_CHUNK_DATA_DONE) || (P->flags & FLAG_CHUNKED))
#define INV_LEN(st, hs) (P->content_length >= -1 && \
   (!((st) == STATE_CHUNK_DATA || (st) == STATE_BODY_IDENTITY) || P->content_length > 0) && \
   (!((st) == STATE_CHUNK_SIZE || (st) == STATE_CHUNK_PARAMETERS || (st) == STATE_CHUNK_SIZE_ALMOST_DONE || (st) == STATE_CHUNK_DATA_ALMOST_DONE) || P->content_length >= 0) && \
   (!((st) == STATE_HEADER_VALUE && (hs) == HEADER_STATE_CONTENT_LENGTH) || P->content_length >= 0))
#define INV_VER (P->http_major <= 999 && P->http_minor <= 999 && P->status_code <= 999)
/* while a name or value is still being matched the index is inside it */
#define INV_IX(st, hs, ix) ((unsigned) (hs) <= HEADER_STATE_CONNECTION_CLOSE && (!((st) == STATE_HEADER_FIELD || (st) == STATE_HEADER_VALUE) || (ix) <= vf_hlen[hs]))
#define INV_PARSER(st, hs, ix) (INV_STATE(st) && INV_METHOD(st, ix) && INV_FIELD(st, hs) && INV_VALUE(st, hs) && INV_CHUNK(st) && INV_LEN(st, hs) && INV_VER && INV_IX(st, hs, ix))
/* marks lie in the connection buffer, at or before the current position */
#define INV_MARK(m, pos) ((m) == NULL || (SAME(m, vf_buf) && OFFS(m) <= (pos)))
#define INV_MARKS(u, f, v, pos) (INV_MARK(u, pos) && INV_MARK(f, pos) && INV_MARK(v, pos))

static const unsigned char vf_mlen[25] = { 0, 6, 3, 4, 4, 3, 7, 7, 5, 4, 4, 5, 4, 8, 9, 6, 6, 10, 8, 5, 8, 6, 9, 11, 5 };
static const unsigned char vf_hlen[20] = { 24, 24, 0, 1, 2, 8, 14, 12, 15, 5, 24, 24, 24, 24, 5, 8, 3, 24, 24, 24 };
