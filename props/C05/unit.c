#include "vf_proof.h"
/* ---- specification: RFC 4648 alphabet and grouping ---- */
#define S_CH(v) ((vf_u8)((v)<26?'A'+(v):(v)<52?'a'+(v)-26:(v)<62?'0'+(v)-52:(v)==62?'+':'/'))
#define S_V(c) ((c)>='A'&&(c)<='Z'?(c)-'A':(c)>='a'&&(c)<='z'?(c)-'a'+26:(c)>='0'&&(c)<='9'?(c)-'0'+52:(c)=='+'?62:(c)=='/'?63:0)
/* characters of the group that starts with bytes a b c, n of them present */
#define S_C0(a) S_CH((a)>>2)
#define S_C1(a,b) S_CH((((a)&3)<<4)|((b)>>4))
#define S_C2(b,c) S_CH((((b)&15)<<2)|((c)>>6))
#define S_C3(c) S_CH((c)&63)
#define S_B0(c0,c1) ((vf_u8)((S_V(c0)<<2)|(S_V(c1)>>4)))
#define S_B1(c1,c2) ((vf_u8)((S_V(c1)<<4)|(S_V(c2)>>2)))
#define S_B2(c2,c3) ((vf_u8)((S_V(c2)<<6)|S_V(c3)))
size_t vf_g, vf_n, vf_k; vf_u8 vf_a, vf_b, vf_c; vf_u8 vf_d0, vf_d1, vf_d2, vf_d3;
/* a, b and c are the bytes of group vf_g (zero where absent), vf_n how many exist */
#define S_GRP(o,p) ((o)[p]==S_C0(vf_a) && (o)[(p)+1]==S_C1(vf_a,vf_b) && (vf_n>1 ==> (o)[(p)+2]==S_C2(vf_b,vf_c)) && (vf_n>2 ==> (o)[(p)+3]==S_C3(vf_c)))
#ifdef U_ENC
#define OVER (index>buffer_length?index-buffer_length:0)
#define VF_LOOP_encode_base64 \
  ASSIGNS(index, number, number0, number1, number2, number3, encoded_buffer_index, vf_k, OBJ(encoded_buffer)) \
  INV(vf_k < VF_MAX && index == 3*vf_k && index <= buffer_length+2 && encoded_buffer_index == 4*vf_k - OVER) \
  INV(vf_g < vf_k ==> S_GRP(encoded_buffer,4*vf_g)) \
  DECR(buffer_length+3-index)
#define VF_GHOST_encode_base64 vf_k++;
#endif
#ifdef U_DEC
#define VF_LOOP_decode_base64 \
  ASSIGNS(index, number, number0, number1, number2, buffer_index, vf_k, OBJ(buffer)) \
  INV(vf_k < VF_MAX && index <= encoded_buffer_length && index == 4*vf_k) \
  INV(buffer_index == 3*vf_k - (index==encoded_buffer_length ? padding_count : 0)) \
  INV(vf_g < vf_k ==> (buffer[3*vf_g]==S_B0(vf_d0,vf_d1) && (3*vf_g+1<buffer_length ==> buffer[3*vf_g+1]==S_B1(vf_d1,vf_d2)) && (3*vf_g+2<buffer_length ==> buffer[3*vf_g+2]==S_B2(vf_d2,vf_d3)))) \
  DECR(encoded_buffer_length+4-index)
#define VF_GHOST_decode_base64 vf_k++;
#endif
#include "vf_defaults.h"
#include "encoding/base_64.c"
unsigned char *last_error_message; unsigned char last_error_message_b[ERROR_BUFFER_SIZE]; unsigned int last_error_code;
void c_error(unsigned char *m) { last_error_message = m; }
/* contract of _lookup_fast_base64, proved by unit lookup, used in place of its body by unit decode */
unsigned char c_lookup(unsigned char v) { unsigned char r; VF_ASSUME(r == S_V(v)); return r; }

void u_lookup(void) { unsigned char c = nondet_u8(); VF_ENSURES(_lookup_fast_base64(c) == S_V(c), "value of a character"); VF_REACH("lookup"); }
void u_lookup_slow(void) { unsigned char c = nondet_u8(); VF_ENSURES(_lookup_base64(c) == S_V(c), "value of a character (table search)"); VF_REACH("lookup slow"); }
void u_table(void) { unsigned char c = nondet_u8(); VF_REQUIRES(c < 64); VF_ENSURES((vf_u8) base64_characters[c] == S_CH(c), "alphabet"); VF_REACH("table"); }
/* lemma over the specification: decoding the characters of a group gives back its bytes */
void u_lemma(void) {
  vf_u8 a = nondet_u8(), b = nondet_u8(), c = nondet_u8();
  vf_u8 c0 = S_C0(a), c1 = S_C1(a, b), c2 = S_C2(b, c), c3 = S_C3(c), e1 = S_C1(a, 0), e2 = S_C2(b, 0);
  VF_ENSURES(S_B0(c0, c1) == a && S_B1(c1, c2) == b && S_B2(c2, c3) == c, "groups round trip");
  VF_ENSURES(S_B0(c0, e1) == a && S_B1(c1, e2) == b, "partial groups round trip");
  VF_ENSURES(c0 != '=' && c1 != '=' && c2 != '=' && c3 != '=', "padding is not in the alphabet");
  VF_REACH("lemma");
}
/* contract of calculate_encoded_buffer_length_base64: four characters per started group of three bytes */
size_t vf_ng;
void u_enclen(void) {
  size_t n = nondet_size(); vf_ng = nondet_size(); VF_REQUIRES(n < VF_MAX && vf_ng < VF_MAX && 3 * vf_ng >= n && 3 * vf_ng < n + 3);
  size_t r = calculate_encoded_buffer_length_base64(n); VF_ENSURES(r == 4 * vf_ng, "length of the encoded text"); VF_REACH("encoded length");
}
size_t c_enclen(size_t n) { VF_ENSURES(n < VF_MAX && vf_ng < VF_MAX && 3 * vf_ng >= n && 3 * vf_ng < n + 3, "precondition of calculate_encoded_buffer_length_base64"); return 4 * vf_ng; }
void u_padding(void) {
  size_t n = nondet_size(); VF_REQUIRES(n < VF_MAX); unsigned char *b = malloc(n);
  unsigned int r = _get_padding_count(b, n);
  VF_ENSURES(r <= 3 && r <= n, "padding bounds");
  size_t k = nondet_size(); VF_ENSURES(k < r ==> b[n - 1 - k] == '=', "counted characters are padding");
  VF_ENSURES(r < 3 && r < n ==> b[n - 1 - r] != '=', "all the trailing padding is counted");
  VF_REACH("padding");
}
void u_encode(void) {
  size_t n = nondet_size(), p = 0; VF_REQUIRES(n < VF_MAX);
  unsigned char *b = malloc(n), *o = NULL;
  vf_g = nondet_size(); VF_REQUIRES(vf_g < VF_MAX && 3 * vf_g < n);
  vf_n = n - 3 * vf_g; vf_a = b[3 * vf_g]; vf_b = vf_n > 1 ? b[3 * vf_g + 1] : 0; vf_c = vf_n > 2 ? b[3 * vf_g + 2] : 0;
  vf_ng = nondet_size(); VF_REQUIRES(vf_ng < VF_MAX && 3 * vf_ng >= n && 3 * vf_ng < n + 3);
  vf_k = 0; ERROR_CODE r = encode_base64(b, n, &o, &p);
  VF_ENSURES(r == 0, "encoding never fails");
  VF_ENSURES(p == 4 * vf_ng, "length of the encoded text");
  VF_ENSURES(S_GRP(o, 4 * vf_g), "every group is encoded at its position");
  VF_ENSURES(vf_n < 2 ==> o[4 * vf_g + 2] == '=' , "two padding characters");
  VF_ENSURES(vf_n < 3 ==> o[4 * vf_g + 3] == '=', "padding character");
  VF_ENSURES(b[3 * vf_g] == vf_a && (vf_n > 1 ==> b[3 * vf_g + 1] == vf_b) && (vf_n > 2 ==> b[3 * vf_g + 2] == vf_c), "input untouched");
  VF_REACH("encode");
}
void u_encode_empty(void) { unsigned char b; unsigned char *o; size_t p = 5; ERROR_CODE r = encode_base64(&b, 0, &o, &p); VF_ENSURES(r == 0 && p == 0, "empty text"); VF_REACH("encode empty"); }
void u_decode(void) {
  size_t n = nondet_size(), p = 0; VF_REQUIRES(n < VF_MAX);
  unsigned char *b = malloc(n), *o = NULL;
  vf_g = nondet_size(); VF_REQUIRES(vf_g < VF_MAX);
  if(4 * vf_g + 3 < n) { vf_d0 = b[4 * vf_g]; vf_d1 = b[4 * vf_g + 1]; vf_d2 = b[4 * vf_g + 2]; vf_d3 = b[4 * vf_g + 3]; }
  int pad = n == 0 || b[n - 1] != '=' ? 0 : n < 2 || b[n - 2] != '=' ? 1 : n < 3 || b[n - 3] != '=' ? 2 : 3;
  vf_k = 0; ERROR_CODE r = decode_base64(b, n, &o, &p);
  VF_ENSURES((r != 0) == ((n & 3) != 0 || pad > 2), "incomplete groups and excessive padding, and only those, are refused");
  if(r == 0) {
    VF_ENSURES(4 * p == 3 * n - 4 * (size_t) pad, "decoded length");
    if(4 * vf_g < n) {
      VF_ENSURES(o[3 * vf_g] == S_B0(vf_d0, vf_d1), "first byte of every group");
      VF_ENSURES(3 * vf_g + 1 < p ==> o[3 * vf_g + 1] == S_B1(vf_d1, vf_d2), "second byte of every group");
      VF_ENSURES(3 * vf_g + 2 < p ==> o[3 * vf_g + 2] == S_B2(vf_d2, vf_d3), "third byte of every group");
      VF_ENSURES(b[4 * vf_g] == vf_d0 && b[4 * vf_g + 1] == vf_d1 && b[4 * vf_g + 2] == vf_d2 && b[4 * vf_g + 3] == vf_d3, "input untouched");
    }
    VF_REACH("decode ok");
  } else VF_REACH("decode refused");
}
