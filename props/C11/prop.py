C = dict(src='write.c', server=True, cbmc=['--sat-solver', 'cadical'], slim=True, remove_fp=True)
S = dict(C, defs=['VF_SERVICE'])
PROP = dict(id='C11', server=True, units=[
 dict(C, name='write', entry='u_write', remove_body=['accept_handler_stream_io', 'open_handler_stream_io'], replace=dict(send='c_send', SSL_write='c_sslwrite', SSL_get_error='c_sslerr', peek_value_linked_list='c_peek', pop_value_linked_list='c_pop', delete_data='c_delete'), functions=['write_handler_stream_io']),
 dict(S, name='queue', entry='u_queue', loops=False, replace=dict(malloc='c_malloc', append_value_linked_list='c_append'), functions=['write_connection', 'write_connection_c', 'create_data']),
 dict(S, name='delete_data', entry='u_delete_data', loops=False, replace=dict(free='c_free'), functions=['delete_data']),
 dict(S, name='delete', entry='u_delete', replace=dict(free='c_free', delete_data='c_ddata', pop_value_linked_list='c_pop', delete_linked_list='c_dellist'), functions=['delete_connection']),
 dict(S, name='open', entry='u_open', loops=False, replace=dict(append_value_linked_list='c_ladd'), functions=['open_connection', 'add_connection_service']),
 dict(S, name='close', entry='u_close', loops=False, replace=dict(remove_value_linked_list='c_lrem', close='c_closefd', SSL_shutdown='c_sslshut', SSL_free='c_sslfree'), functions=['close_connection', 'remove_connection_service']),
 dict(S, name='reg', entry='u_reg', loops=False, functions=['register_write_connection', 'unregister_write_connection', 'register_read_connection', 'unregister_read_connection', 'invalidate_write_connection', 'add_outstanding_connection']),
])
PROP["driver"] = dict(server=True, cflags=['-Drecv=vf_recv', '-Dsend=vf_send'], libs=['-lm', '-Wl,--unresolved-symbols=ignore-all', '-Wl,-z,now'],
  sources=[SRC + '/viriatum/' + x for x in ('stream/stream_io.c', 'stream/stream_http.c', 'system/service.c', 'http/http_parser.c')] + [SRC + '/viriatum_commons/' + x for x in ('structures/linked_list.c', 'structures/iterator.c', 'memory/memory_pool.c', 'debug/error.c', 'debug/logging.c')],
  maxlen=120, corpus=[b'\x03\x09\x02abc', b'\x16\x0f\x03' + bytes(range(60))])
PROP['trusted'] = ['send and SSL_write report how many of the given bytes they took', 'the linked list behind the queue is first in, first out (peek, pop, append; run by the driver)']
PROP['assumptions'] = ['allocation succeeds', 'a queued block is shorter than 2^31 bytes', 'blocks are queued on open connections']
META = {'title': 'Queued data is sent completely, once and in order',
 'statement': 'The bytes an open connection sends are exactly the blocks queued on it, in the order queued, whatever part of them the socket takes at each write and whatever its callbacks queue meanwhile. '
              'The sender of a block is told once, after its last byte, and each block and owned buffer is released exactly once, also when the connection is closed with blocks still queued. '
              'A socket error closes the connection, opening and closing take effect once, and nothing of a closed connection is called.',
 'over': ['inputs', 'histories', 'schedules'],
 'text': 'all sequences of queued blocks, all partial writes and socket errors, and all callbacks that queue more blocks or close the connection',
 'why': 'The tests have no connection: partial writes, full sockets and closing with a queue never occur.',
 'files': ['src/viriatum/stream/stream_io.c', 'src/viriatum/system/service.c'],
 'mechanism': [('sending', 'write_handler_stream_io'), ('queueing', 'write_connection, write_connection_c, create_data'), ('release', 'delete_data, delete_connection'), ('opening and closing', 'open_connection, close_connection, add_connection_service, remove_connection_service')],
 'hook': 'loop contracts of the write loop and of the release of the queue',
 'note': 'Proof for queues of any length and any partial writes; the driver runs the real service, stream and linked list over a scripted socket.'}
