#include "vf_proof.h"
/* ---- specification: token of one byte in the encoded text (RFC 3986 unreserved set, '+' for space, %xx) ---- */
#define S_ISUN(c) (((c)>='a'&&(c)<='z')||((c)>='A'&&(c)<='Z')||((c)>='0'&&(c)<='9')||(c)=='-'||(c)=='_'||(c)=='.'||(c)=='~')
#define S_HEX(c) ((vf_u8)((c)<10?'0'+(c):'a'+(c)-10))
#define S_LEN(b) ((size_t)(S_ISUN(b)||(b)==' '?1:3))
#define S_TOK(o,p,b) (S_ISUN(b)? (o)[p]==(b) : (b)==' '? (o)[p]=='+' : ((o)[p]=='%' && (o)[(p)+1]==S_HEX((b)>>4) && (o)[(p)+2]==S_HEX((b)&15)))
#define S_ISHEX(c) (((c)>='0'&&(c)<='9')||((c)>='a'&&(c)<='f')||((c)>='A'&&(c)<='F'))
#define S_VAL(c) ((c)<='9'?(c)-'0':(c)>='a'?(c)-'a'+10:(c)-'A'+10)
/* decoding of the token starting at position p of a text of length n */
#define S_BAD(i,n,p) ((i)[p]=='%' && !((n)-(p)>2 && S_ISHEX((i)[(p)+1]) && S_ISHEX((i)[(p)+2])))
#define S_DLEN(i,p) ((size_t)((i)[p]=='%'?3:1))
#define S_DEC(i,p) ((vf_u8)((i)[p]=='%' ? (S_VAL((i)[(p)+1])<<4|S_VAL((i)[(p)+2])) : (i)[p]=='+' ? ' ' : (i)[p]))
/* ghost: off[k] is the position of the k-th token, defined by the recursion
 * off[0]=0, off[k+1]=off[k]+len(token k), unfolded at each iteration */
size_t vf_off VF_INF; size_t vf_doff VF_INF;
size_t vf_g, vf_n; vf_u8 vf_bg; vf_u8 vf_src VF_INF;
#ifdef U_ENC
#define VF_LOOP_encode_percent \
  ASSIGNS(index, byte, __buffer, OBJ(_buffer)) \
  INV(index <= length && SAME(__buffer,_buffer)) \
  INV(OFFS(__buffer) == vf_off[index] && vf_off[index] <= 3*index) \
  INV(vf_g<index ==> (vf_off[vf_g]<=3*vf_g && vf_off[vf_g]+S_LEN(vf_bg) <= vf_off[index] && S_TOK(_buffer,vf_off[vf_g],vf_bg))) \
  DECR(length-index)
#define VF_GHOST_encode_percent VF_ASSUME(vf_off[index+1]==vf_off[index]+S_LEN(buffer[index]));
#endif
#ifdef U_DEC
#define K OFFS(__buffer)
#define VF_LOOP_decode_percent \
  ASSIGNS(pointer, __buffer, OBJ(_buffer)) \
  INV(SAME(__buffer,_buffer) && SAME(pointer,buffer) && OFFS(pointer) <= length) \
  INV(K <= OFFS(pointer) && OFFS(pointer) == vf_doff[K]) \
  INV(vf_g < K ==> (vf_doff[vf_g] < length && !S_BAD(buffer,length,vf_doff[vf_g]) && _buffer[vf_g] == S_DEC(buffer,vf_doff[vf_g]))) \
  DECR(length - OFFS(pointer))
#define VF_GHOST_decode_percent VF_ASSUME(vf_doff[K+1]==vf_doff[K]+S_DLEN(buffer,vf_doff[K]));
#endif
#ifdef U_RT
/* decoding restricted to texts that are encodings of the ghost sequence vf_src[0..vf_n) */
#define K OFFS(__buffer)
#define VF_LOOP_decode_percent \
  ASSIGNS(pointer, __buffer, OBJ(_buffer)) \
  INV(SAME(__buffer,_buffer) && SAME(pointer,buffer) && OFFS(pointer) <= length) \
  INV(K <= vf_n && OFFS(pointer) == vf_off[K] && vf_n <= length) \
  INV(vf_g < K ==> _buffer[vf_g] == vf_src[vf_g]) \
  DECR(length - OFFS(pointer))
#define VF_GHOST_decode_percent VF_ASSUME(K < vf_n ==> (vf_off[K] < length && vf_off[K+1]==vf_off[K]+S_LEN(vf_src[K]) && vf_off[K+1]<=length && S_TOK(buffer,vf_off[K],vf_src[K])));
#endif
#include "vf_defaults.h"
#include "encoding/percent.c"
unsigned char *last_error_message; unsigned char last_error_message_b[ERROR_BUFFER_SIZE]; unsigned int last_error_code;

/* contract of to_hex, proved by unit to_hex, used in place of its body by unit encode */
char c_to_hex(unsigned char code) { char r; unsigned char c = code & 15; VF_ASSUME((unsigned char) r == S_HEX(c)); return r; }
/* trusted: error bookkeeping only writes the error globals */
void c_error(unsigned char *m) { last_error_message = m; }

void u_to_hex(void) { unsigned char c = nondet_u8(); char r = to_hex(c); unsigned char d = c & 15; VF_ENSURES((unsigned char) r == S_HEX(d), "to_hex gives the lower case hexadecimal digit"); VF_REACH("to_hex"); }
void u_from_hex(void) { unsigned char c = nondet_u8(); VF_REQUIRES(S_ISHEX(c)); char r = from_hex(c); VF_ENSURES(r == S_VAL(c), "from_hex gives the value of the digit"); VF_REACH("from_hex"); }
void u_alnum(void) { unsigned char c = nondet_u8(); char r = isalphanum(c); VF_ENSURES((r != 0) == ((c>='a'&&c<='z')||(c>='A'&&c<='Z')||(c>='0'&&c<='9')), "isalphanum"); VF_REACH("isalphanum"); }

void u_encode(void) {
  size_t n = nondet_size(), p = 0; VF_REQUIRES(n < VF_MAX);
  unsigned char *b = malloc(n), *o = malloc(3 * n + 1);
  vf_g = nondet_size(); VF_REQUIRES(vf_g < n); vf_bg = b[vf_g]; VF_REQUIRES(vf_off[0] == 0);
  ERROR_CODE r = encode_percent(b, n, o, &p);
  VF_ENSURES(r == 0, "encoding never fails");
  VF_ENSURES(p == vf_off[n] && p <= 3 * n && o[p] == 0, "length is the sum of the token lengths, output terminated");
  VF_ENSURES(S_TOK(o, vf_off[vf_g], vf_bg), "every byte is encoded as its token at its position");
  VF_ENSURES(b[vf_g] == vf_bg, "input untouched");
  VF_REACH("encode");
}
void u_encode_empty(void) { unsigned char b, o; size_t p = 7; VF_REQUIRES(vf_off[0] == 0); ERROR_CODE r = encode_percent(&b, 0, &o, &p); VF_ENSURES(r == 0 && p == 0 && o == 0, "empty text"); VF_REACH("encode_empty"); }

void u_decode(void) {
  size_t n = nondet_size(), p = 0; VF_REQUIRES(n < VF_MAX);
  unsigned char *b = malloc(n), *o = malloc(n + 1); vf_u8 bw; size_t w = nondet_size();
  if(w < n) bw = b[w];
  vf_g = nondet_size(); VF_REQUIRES(vf_doff[0] == 0);
  ERROR_CODE r = decode_percent(b, n, o, &p);
  if(r == 0) {
    VF_ENSURES(p <= n && vf_doff[p] == n && o[p] == 0, "success consumes exactly the input and terminates the output");
    VF_ENSURES(vf_g < p ==> (!S_BAD(b, n, vf_doff[vf_g]) && o[vf_g] == S_DEC(b, vf_doff[vf_g])), "every token is decoded to its byte");
    VF_REACH("decode ok");
  } else VF_REACH("decode error");
  if(w < n) VF_ENSURES(b[w] == bw, "input untouched");
}
void u_roundtrip(void) {
  size_t n = nondet_size(), p = 0; VF_REQUIRES(n < VF_MAX);
  unsigned char *b = malloc(n), *o = malloc(n + 1);
  vf_g = nondet_size(); vf_n = nondet_size(); VF_REQUIRES(vf_n <= n && vf_off[0] == 0 && vf_off[vf_n] == n);
  ERROR_CODE r = decode_percent(b, n, o, &p);
  /* instance at p of the lemma "off is strictly increasing up to off[vf_n]" (each token has at least one character) */
  VF_ASSUME(p < vf_n ==> vf_off[p] < n);
  VF_ENSURES(r == 0 && p == vf_n, "decoding an encoding succeeds with the original length");
  VF_ENSURES(vf_g < p ==> o[vf_g] == vf_src[vf_g], "decoding an encoding gives back the original bytes");
  VF_REACH("roundtrip");
}
