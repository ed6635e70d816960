R = {'set_last_error_message': 'c_error'}
L = {'_lookup_fast_base64': 'c_lookup', **R}
PROP = dict(id='C05', units=[
 dict(name='lookup', src='unit.c', entry='u_lookup', functions=['_lookup_fast_base64']),
 dict(name='lookup_slow', src='unit.c', entry='u_lookup_slow', unwind_rest=65, functions=['_lookup_base64']),
 dict(name='table', src='unit.c', entry='u_table', functions=[]),
 dict(name='lemma', src='unit.c', entry='u_lemma', functions=[]),
 dict(name='padding', src='unit.c', entry='u_padding', unwind_rest=5, replace=R, functions=['_get_padding_count']),
 dict(name='encode', src='unit.c', entry='u_encode', defs=['U_ENC'], unwind_rest=4, replace=dict(R, calculate_encoded_buffer_length_base64='c_enclen'), cbmc=['--sat-solver','cadical'], weight=9, functions=['encode_base64', '_encode_base64', '_allocate_encoded_buffer']),
 dict(name='encoded_length', src='unit.c', entry='u_enclen', cbmc=['--sat-solver','cadical'], functions=['calculate_encoded_buffer_length_base64']),
 dict(name='encode_empty', src='unit.c', entry='u_encode_empty', defs=['U_ENC'], unwind_rest=4, replace=R, functions=['encode_base64']),
 dict(name='decode', src='unit.c', entry='u_decode', defs=['U_DEC'], unwind_rest=5, replace=L, cbmc=['--sat-solver','cadical'], weight=9, functions=['decode_base64', '_decode_base64', '_allocate_decoded_buffer', 'calculate_decoded_buffer_length_base64']),
], driver=dict(sources=[SRC + '/viriatum_commons/encoding/base_64.c', SRC + '/viriatum_commons/debug/error.c'], corpus=['Zm9v', 'QQ==', '====', 'a', 'QUI=', '+/+/'], dict=['=', '==', '+', '/']),
 trusted=['set_last_error_message (error bookkeeping) replaced by a stub that sets the message pointer'],
 assumptions=['allocation succeeds'],
)
META = {'title': 'Base 64 coding round-trips and refuses incomplete text',
 'statement': 'Encoding any byte sequence yields exactly its standard base 64 text, padded to groups of four characters, and decoding that text returns the original bytes. '
              'Decoding any other text either reports an error, when it is not made of complete groups or has more than two padding characters, or yields three bytes per group '
              'minus the padding. Neither operation accesses memory outside its buffers or modifies its input.',
 'over': ['inputs'],
 'text': 'all byte sequences of any length, in particular every text a client may send as credentials',
 'why': 'One test encodes and decodes a single string; empty, truncated or over padded credentials sent by a client are never tried.',
 'files': ['src/viriatum_commons/encoding/base_64.c', 'src/viriatum_commons/encoding/base_64.h'],
 'mechanism': [('encoding', 'encode_base64, _encode_base64'), ('decoding', 'decode_base64, _decode_base64'), ('padding', '_get_padding_count'), ('character values', '_lookup_fast_base64, _lookup_base64')],
 'hook': 'loop contracts of the two coding loops',
 'note': 'Proof for all lengths; the text of one arbitrary group and the total length are tracked by the loop invariants.'}
