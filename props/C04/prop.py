U = dict(src='unit.c', server=True, loops=False, functions=['process_data_http_parser', 'http_should_keep_alive'], drop=['--pointer-check', '--bounds-check'])
LOOPS = lambda n: ['--unwind', '10', '--unwindset', ','.join('process_data_http_parser.%d:%d' % (i, n) for i in range(60))]
N = {'chunk_more': 4}
PROP = dict(id='C04', server=True, units=[dict(U, name=n, entry='u_' + n, cbmc=LOOPS(N.get(n, 2))) for n in
 'identity chunk chunk_more chunk_sep chunk_size chunk_size2 chunk_param chunk_size_end headers_done fresh length_first length_next value_other value_end name_length name_encoding name_connection name_done name_start name_con value_chunked value_keep value_close'.split()], driver=dict(server=True, sources=[SRC + '/viriatum/http/http_parser.c'], maxlen=900, dict=['GET / HTTP/1.1\r\n', 'HTTP/1.1 200 OK\r\n', 'Content-Length: ', 'Transfer-Encoding: chunked\r\n', '\r\n\r\n', 'Connection: close\r\n', 'Upgrade: x\r\n', '0\r\n\r\n', 'CONNECT ', ': ', 'HTTP/1.0'],
  corpus=[b'\x00\x03\x02\x05\x01\x01\x01\x00POST /a HTTP/1.1\r\nHost: a\r\nContent-Length: 4\r\n\r\nabcd', b'\x00\x02\x05\x05\x05\x00POST /a?b#c HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\n3\r\nabc\r\n0\r\n\r\n', b'\x01\x00\x00HTTP/1.1 200 OK\r\nContent-Length: 3\r\n\r\nabc', b'\x03' + bytes(range(200))]),
)
META = {'title': 'HTTP body framing: lengths and chunks delimit messages exactly',
 'statement': 'A message body contains exactly as many bytes as its announced length, or exactly the bytes of its chunks when it is chunked, and the next message starts right '
              'after it. Header names and the chunked value are recognised in any letter case and nothing else is mistaken for them; a new message inherits no framing from the '
              'previous one. Lengths and chunk sizes that are not numbers or do not fit are refused.',
 'over': ['inputs', 'histories'],
 'text': 'all messages, lengths, chunk sizes and letter cases, from every parser state of the framing grammar',
 'why': 'The suite does not exercise the parser; exact framing needs every length value and every header spelling.',
 'files': ['src/viriatum/http/http_parser.c', 'src/viriatum/http/http_parser.h'],
 'mechanism': [('body states', 'process_data_http_parser: identity and chunk states'),
               ('length digits', 'process_data_http_parser: header value'),
               ('name recognition', 'process_data_http_parser: header field')],
 'observe': ['body callback', 'completion callback'],
 'hook': None,
 'note': 'Proof of the transition contract of every framing state for all bytes and counters (body spans of any length). Bodies delimited by end of connection are not claimed.'}
