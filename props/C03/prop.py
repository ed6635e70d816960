U = dict(src='unit.c', server=True, loops=False, functions=['process_data_http_parser', 'http_should_keep_alive'], drop=['--pointer-check', '--bounds-check'])
LOOPS = lambda n: ['--unwind', '18', '--unwindset', ','.join('process_data_http_parser.%d:%d' % (i, n) for i in range(60))]
PROP = dict(id='C03', server=True, units=[
 dict(U, name='states', entry='u_states', defs=['VF_LO=1', 'VF_HI=55']),
] + [dict(U, name='byte_%02d' % k, entry='u_pair', defs=['U_PAIR', 'VF_S=%d' % k] + (['NOHEAD'] if k == 54 else []), cbmc=LOOPS(3)) for k in range(2, 55)] + [
 dict(U, name='span_identity', entry='u_span', defs=['VF_S=STATE_BODY_IDENTITY'], cbmc=LOOPS(2)),
 dict(U, name='span_chunk', entry='u_span', defs=['VF_S=STATE_CHUNK_DATA'], cbmc=LOOPS(2)),
], driver=dict(server=True, sources=[SRC + '/viriatum/http/http_parser.c'], maxlen=900, dict=['GET / HTTP/1.1\r\n', 'HTTP/1.1 200 OK\r\n', 'Content-Length: ', 'Transfer-Encoding: chunked\r\n', '\r\n\r\n', 'Connection: close\r\n', 'Upgrade: x\r\n', '0\r\n\r\n', 'CONNECT ', ': ', 'HTTP/1.0'],
  corpus=[b'\x00\x03\x02\x05\x01\x01\x01\x00POST /a HTTP/1.1\r\nHost: a\r\nContent-Length: 4\r\n\r\nabcd', b'\x00\x02\x05\x05\x05\x00POST /a?b#c HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\n3\r\nabc\r\n0\r\n\r\n', b'\x01\x00\x00HTTP/1.1 200 OK\r\nContent-Length: 3\r\n\r\nabc', b'\x03' + bytes(range(200))]),
)
META = {'title': 'HTTP parsing does not depend on how the bytes are segmented',
 'statement': 'Delivering the same byte stream in any division into segments produces the same sequence of parsing results: the same messages, request targets, header names and '
              'values, body bytes and completions, and the same acceptance or refusal. This excludes bodies that are delimited only by the end of the connection.',
 'over': ['inputs', 'schedules'],
 'text': 'all byte streams and all ways of cutting them into non empty segments, from every parser state',
 'why': 'No test feeds the parser at all, let alone with cuts at every position of every construct.',
 'files': ['src/viriatum/http/http_parser.c', 'src/viriatum/http/http_parser.h'],
 'mechanism': [('state saved and restored around the loop', 'process_data_http_parser'), ('body spans', 'process_data_http_parser, body states')],
 'observe': ['callbacks'],
 'hook': 'ghost statement where the loop takes its next byte',
 'note': 'Proof per parser state over all bytes and all carried values: the values the loop carries into the next byte are those a shorter call saves; body spans of any length '
         'can be cut anywhere. The step from these lemmas to whole streams is the paper induction on the number of bytes, stated in DESIGN.md.'}
