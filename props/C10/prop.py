C = dict(src='http.c', server=True, cbmc=['--sat-solver', 'cadical'], slim=True)
PROP = dict(id='C10', server=True, units=[
 dict(C, name='data', entry='u_data', remove_fp=True, replace=dict(malloc='c_malloc', realloc='c_realloc', free='c_free', memcpy='c_memcpy', process_data_http_parser='c_process'), functions=['data_handler_stream_http']),
 dict(C, name='lock', entry='u_lock', loops=False, remove_fp=True, functions=['acquire_http_connection', 'release_http_connection']),
 dict(C, name='read', src='io.c', entry='u_read', remove_body=['accept_handler_stream_io', 'open_handler_stream_io', 'u_open', 'u_close'], remove_fp=True, replace=dict(recv='c_recv', SSL_read='c_sslread', SSL_get_error='c_sslerr'), functions=['read_handler_stream_io']),
 dict(C, name='open', src='io.c', entry='u_open', loops=False, remove_fp=True, replace=dict(malloc='c_malloc', open_handler_stream_http='c_hopen', open_handler_stream_http_client='c_hopen', open_handler_stream_torrent='c_hopen'), functions=['open_handler_stream_io', 'create_io_connection']),
 dict(C, name='close', src='io.c', entry='u_close', loops=False, remove_fp=True, replace=dict(free='c_free'), functions=['close_handler_stream_io', 'delete_io_connection']),
], driver=dict(server=True, cflags=['-Drecv=vf_recv', '-Dsend=vf_send'], libs=['-lm', '-Wl,--unresolved-symbols=ignore-all', '-Wl,-z,now'],
  sources=[SRC + '/viriatum/' + x for x in ('stream/stream_io.c', 'stream/stream_http.c', 'system/service.c', 'http/http_parser.c')] + [SRC + '/viriatum_commons/' + x for x in ('structures/linked_list.c', 'structures/iterator.c', 'memory/memory_pool.c', 'debug/error.c', 'debug/logging.c')],
  maxlen=200, corpus=[b'\x03\x09\x02abc', b'\x16\x0f\x03' + bytes(range(60))]),
)
PROP['trusted'] = ['recv and SSL_read return at most the space they were given', 'open_handler_stream_http (builds the HTTP layer): run by the driver, replaced by a recording stand-in in the proof of the opening',
                   'process_data_http_parser returns with the lock state and the connection state it leaves behind: its effect on them is arbitrary in the proof']
PROP['assumptions'] = ['allocation succeeds', 'a received block is shorter than 2^31 bytes and a buffered connection shorter than 2^47 bytes']
META = {'title': 'Received data reaches the HTTP layer exactly once and in order',
 'statement': 'Whatever way the bytes sent to an open connection are split over reads, each reaches the HTTP parser exactly once, in order, and unchanged, also those that arrive while a handler holds the connection, which are kept and handled on its release. '
              'A locked connection handles nothing, an error or the end of the stream closes the connection once, and nothing of a closed connection is used afterwards. The buffered bytes, and the marks kept of them, survive the growth of the buffer.',
 'over': ['inputs', 'histories', 'schedules'],
 'text': 'all byte streams, all ways of splitting them over reads, all points at which a handler locks and releases the connection, and all socket errors',
 'why': 'The tests have no connection at all: split reads, pipelined requests, locks and buffers that grow between two reads never occur.',
 'files': ['src/viriatum/stream/stream_io.c', 'src/viriatum/stream/stream_http.c'],
 'mechanism': [('receiving', 'read_handler_stream_io'), ('buffering and parsing', 'data_handler_stream_http'), ('locking', 'acquire_http_connection, release_http_connection'), ('opening and closing', 'open_handler_stream_io, close_handler_stream_io')],
 'hook': 'loop contracts of the receive and of the buffering loops',
 'note': 'Proof for any number of reads and any buffer size; the driver runs whole requests through the real service, stream and parser over a scripted socket.'}
