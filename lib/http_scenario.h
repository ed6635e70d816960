/* scenario shared by the HTTP parser drivers; HTTP_FRAG / HTTP_FRAME select what is compared */
static void vf_one(vf_in *in) {
    static size_t cuts[64]; size_t k, nc; sb t = { 0 }, e = { 0 }; sb_str(&t, ""); sb_str(&e, "");
    unsigned mode = vf_pick(in, 8), request = 1; 
    if(mode <= 1) { request = mode == 0; nc = cuts_of(in, cuts, 40, vf_left(in)); unsigned answer = vf_pick(in, 8); if(answer > 2) answer = 0; while(vf_left(in)) { char c = (char) vf_byte(in); sb_add(&t, &c, 1); }
        if(t.n == 0) { free(t.b); free(e.b); return; }
        int a = feed((uint8_t *) t.b, t.n, request, answer, NULL, 0); sb x = H.log; int b = feed((uint8_t *) t.b, t.n, request, answer, cuts, nc);
#ifdef HTTP_FRAG
        if(request && answer < 2) CHECK(a == b && x.n == H.log.n && memcmp(x.b, H.log.b, x.n) == 0, "the segmentation changes what is parsed");
#endif
        NONTRIVIAL(); free(x.b); free(H.log.b); free(t.b); free(e.b); return;
    }
    request = mode != 2; unsigned nm = 1 + vf_pick(in, 3);
    size_t mut = vf_pick(in, 3) == 0 ? 1 + vf_pick(in, 3) : 0; unsigned seed = vf_u16(in); nc = cuts_of(in, cuts, 60, 2000);
    for(k = 0; k < nm; k++) one_message(in, &t, &e, request);
    if(!request) mut = 0;
    for(k = 0; k < mut; k++) { size_t at = (seed * 7919u + k * 104729u) % t.n; t.b[at] = (char) vf_byte(in); }
    int a = feed((uint8_t *) t.b, t.n, request, 0, NULL, 0); sb x = H.log; size_t done = H.done;
#ifdef HTTP_FRAME
    if(mut == 0) { CHECK(a == (int) t.n, "a well formed message is refused"); CHECK(done == nm && H.began == nm, "the number of messages"); CHECK(x.n == e.n && memcmp(x.b, e.b, x.n) == 0, "the message is not what was sent (whole)"); }
#endif
    int b = feed((uint8_t *) t.b, t.n, request, 0, cuts, nc);
#ifdef HTTP_FRAG
    CHECK(a == b && x.n == H.log.n && memcmp(x.b, H.log.b, x.n) == 0, "the segmentation changes what is parsed");
    free(H.log.b); static size_t each[8192]; size_t m = t.n < 8192 ? t.n : 8192; for(k = 0; k < m; k++) each[k] = k + 1;
    b = feed((uint8_t *) t.b, t.n, request, 0, each, m);
    CHECK(a == b && x.n == H.log.n && memcmp(x.b, H.log.b, x.n) == 0, "byte by byte changes what is parsed");
#endif
    NONTRIVIAL(); free(x.b); free(H.log.b); free(t.b); free(e.b);
}
void vf_scenario(vf_in *in) { vf_one(in); }
void vf_fixed(void) {
    unsigned s = 12345, i, k; uint8_t r[600]; for(i = 0; i < 6000; i++) { for(k = 0; k < sizeof(r); k++) { s = s * 1103515245 + 12345; r[k] = (uint8_t) (s >> 16); } vf_in in = { r, 40 + i % 560, 0 }; vf_one(&in); }
#ifdef HTTP_FRAME
    /* counters that do not fit are refused, never wrapped */
    static const char *BIG[] = { "2147483648", "4294967296", "4294967297", "18446744073709551617", "99999999999999999999999" };
    for(i = 0; i < 5; i++) { char t[300]; sprintf(t, "POST / HTTP/1.1\r\nContent-Length: %s\r\n\r\nGET / HTTP/1.1\r\n\r\n", BIG[i]); int a = feed((uint8_t *) t, strlen(t), 1, 0, NULL, 0); CHECK(a == -1 && H.done == 0, "a length that does not fit is not refused"); free(H.log.b); }
    static const char *BIGX[] = { "80000000", "100000000", "100000001", "FFFFFFFFFFFFFFFF", "10000000000000001" };
    for(i = 0; i < 5; i++) { char t[300]; sprintf(t, "POST / HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\n%s\r\nabc", BIGX[i]); int a = feed((uint8_t *) t, strlen(t), 1, 0, NULL, 0); CHECK(a == -1 && H.body == 0, "a chunk size that does not fit is not refused"); free(H.log.b); }
    for(i = 0; i < 256; i++) { char t[300]; int hex = (i >= '0' && i <= '9') || (i >= 'a' && i <= 'f') || (i >= 'A' && i <= 'F'); sprintf(t, "POST / HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\nX\r\n"); char *q = strrchr(t, 'X'); *q = (char) i; int a = feed((uint8_t *) t, 50, 1, 0, NULL, 0); CHECK((a == -1) == !hex, "chunk size digit"); free(H.log.b);
        strcpy(t, "POST / HTTP/1.1\r\nContent-Length: X\r\n\r\n"); q = strrchr(t, 'X'); *q = (char) i; a = feed((uint8_t *) t, strlen(t) ? 38 : 0, 1, 0, NULL, 0); if(i != '\r' && i != '\n' && i != ' ' && i != '\t') CHECK((a == -1) == !(i >= '0' && i <= '9'), "length digit"); free(H.log.b); }
#endif
}
