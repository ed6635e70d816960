U = dict(src='unit.c', server=True, functions=['process_data_http_parser', 'http_should_keep_alive'])
PROP = dict(id='C01', server=True, units=[
 dict(U, name='create', entry='u_create', loops=False, functions=['create_http_parser']),
 dict(U, name='loop', entry='u_loop', defs=['U_LOOP'], remove_fp=True, unwind_rest=2, timeout=780, cbmc=['--sat-solver', 'cadical'], weight=9),
 dict(U, name='step', thorough_only=True, entry='u_step', loops=False, cbmc=['--unwind', '3']),
], driver=dict(server=True, sources=[SRC + '/viriatum/http/http_parser.c'], maxlen=900, dict=['GET / HTTP/1.1\r\n', 'HTTP/1.1 200 OK\r\n', 'Content-Length: ', 'Transfer-Encoding: chunked\r\n', '\r\n\r\n', 'Connection: close\r\n', 'Upgrade: x\r\n', '0\r\n\r\n', 'CONNECT ', ': ', 'HTTP/1.0'],
  corpus=[b'\x00\x03\x02\x05\x01\x01\x01\x00POST /a HTTP/1.1\r\nHost: a\r\nContent-Length: 4\r\n\r\nabcd', b'\x00\x02\x05\x05\x05\x00POST /a?b#c HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\n3\r\nabc\r\n0\r\n\r\n', b'\x01\x00\x00HTTP/1.1 200 OK\r\nContent-Length: 3\r\n\r\nabc', b'\x03' + bytes(range(200))]),
)
META = {'title': 'HTTP parser: safe and progressing on arbitrary bytes',
 'statement': 'Whatever bytes arrive from the network, parsing them never reads or writes outside the received data and the parser own state, never aborts the process, and always '
              'ends. Each call either refuses the data or reports a processed amount between zero and the amount given, and every piece of text it hands out lies inside the data '
              'received so far. At most one message ends per call and no body byte is handed out twice.',
 'over': ['inputs', 'histories'],
 'text': 'all byte sequences of any length, in any segmentation, from every parser state reachable through earlier data',
 'why': 'The suite has no test of the HTTP parser; a memory or termination fault appears only on particular bytes in particular parser states.',
 'files': ['src/viriatum/http/http_parser.c', 'src/viriatum/http/http_parser.h'],
 'mechanism': [('parser loop and state invariant', 'process_data_http_parser'), ('new parser state', 'create_http_parser')],
 'observe': ['return value', 'callbacks'],
 'hook': 'loop contract attachment on the parser loop',
 'note': 'Proof for all inputs (loop invariant, no length bound; segments below 2^31 bytes). Callbacks are replaced by stubs that check their arguments and answer anything. '
         'Trusted: CBMC.'}
