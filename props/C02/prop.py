E = ['-D']
R = {'set_last_error_message': 'c_error'}
PROP = dict(id='C02', units=[
 dict(name='to_hex', src='unit.c', entry='u_to_hex', loops=False, functions=['to_hex']),
 dict(name='from_hex', src='unit.c', entry='u_from_hex', loops=False, functions=['from_hex']),
 dict(name='isalphanum', src='unit.c', entry='u_alnum', loops=False, functions=['isalphanum']),
 dict(name='encode', src='unit.c', entry='u_encode', defs=['U_ENC'], replace={'to_hex': 'c_to_hex', **R}, functions=['encode_percent'], weight=9),
 dict(name='encode_empty', src='unit.c', entry='u_encode_empty', defs=['U_ENC'], replace={'to_hex': 'c_to_hex', **R}, functions=['encode_percent']),
 dict(name='decode', src='unit.c', entry='u_decode', defs=['U_DEC'], replace=R, functions=['decode_percent'], weight=9),
 dict(name='roundtrip', src='unit.c', entry='u_roundtrip', defs=['U_RT'], replace=R, functions=['decode_percent'], weight=9),
], driver=dict(sources=[SRC + '/viriatum_commons/encoding/percent.c', SRC + '/viriatum_commons/debug/error.c'], corpus=['a b%41', '%', '%4', 'x%4', '%zz', '\x00\xff+'], dict=['%', '%2', '%41', '+', ' ', '%%', '%e', '%E9']),
 trusted=['set_last_error_message (error bookkeeping) replaced by a stub that sets the message pointer'],
 assumptions=['input and output buffers do not overlap and have the documented sizes (3n+1 for encoding, n+1 for decoding)'],
)
META = {'title': 'Percent coding round-trips and refuses malformed escapes',
 'statement': 'Encoding any byte sequence yields only unreserved characters, plus signs and escapes, and decoding that text returns exactly the original bytes. Decoding any text '
              'either returns exactly the bytes the text denotes or reports an error when an escape is malformed. Neither operation accesses memory outside its buffers or '
              'modifies its input.',
 'over': ['inputs'],
 'text': 'all byte sequences of any length',
 'why': 'The suite has no test of the percent coding; truncated or non hexadecimal escapes are never tried.',
 'files': ['src/viriatum_commons/encoding/percent.c', 'src/viriatum_commons/encoding/percent.h'],
 'mechanism': [('encoding', 'encode_percent'), ('decoding', 'decode_percent'), ('digits', 'to_hex, from_hex'), ('character classes', 'isalphanum')],
 'hook': 'loop contracts and one ghost statement per loop',
 'note': 'Proof for all lengths by loop invariants over a ghost specification of the decoded text; buffers of the documented sizes, not overlapping. url_encode/url_decode '
         '(allocation wrappers) only through the input search.'}
