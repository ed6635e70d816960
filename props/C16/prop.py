E_ = {'set_last_error_message': 'c_error'}
H = dict(src='head.c', server=True, slim=True, loops=False, cbmc=['--sat-solver', 'cadical'])
D = dict(src='default.c', server=True, slim=True, loops=False, remove_fp=True)
B = dict(server=False, src='buf.c', slim=True, cbmc=['--sat-solver', 'cadical'])
PROP = dict(id='C16', server=True, units=[
 dict(H, name='headers', entry='u_headers', defs=['U_HEAD'], replace=dict(snprintf='c_snprintf'), functions=['write_http_headers']),
 dict(H, name='headers_ca', entry='u_body', defs=['U_BODY'], replace=dict(snprintf='c_snprintf', write_http_headers='c_headers'), functions=['write_http_headers_c', 'write_http_headers_a']),
 dict(H, name='headers_m', entry='u_headers_m', defs=['U_SEND', 'U_M'], replace=dict(write_http_headers_c='c_headers_c', memcpy='c_memcpy'), functions=['write_http_headers_m']),
 dict(H, name='message', entry='u_message', defs=['U_SEND', 'U_MSG'], replace=dict(write_http_headers_m='c_headers_m', strlen='c_strlen', write_connection='c_write'), functions=['write_http_message']),
 dict(H, name='error', entry='u_error', defs=['U_SEND', 'U_ERR'], replace=dict(write_http_error_a='c_error_a'), functions=['write_http_error']),
 dict(H, name='error_a', entry='u_error_a', defs=['U_SEND', 'U_ERRA'], replace=dict(write_http_headers_c='c_headers_c', write_http_headers_a='c_headers_a', memcpy='c_memcpy', strlen='c_strlen_e', snprintf='c_snprintf_e', write_connection='c_write', create_template_handler='c_tcreate', assign_integer_template_handler='c_tint', assign_string_template_handler='c_tstr', process_template_handler='c_tprocess', delete_template_handler='c_tdelete', create_string_buffer='c_sbcreate', append_string_buffer='c_sbappend', join_string_buffer='c_sbjoin', delete_string_buffer='c_sbdelete', free='c_free'), functions=['write_http_error_a']),
 dict(D, name='default', entry='u_response', replace=dict(write_http_message='c_message'), functions=['_send_response_handler_default']),
 dict(D, name='dispatch', entry='u_response', defs=['VF_DISPATCH'], replace=dict(write_http_error='c_err'), functions=['_send_response_handler_dispatch']),
 dict(D, name='default_done', entry='u_done', remove_body=['message_complete_callback_handler_default'], functions=['_send_response_callback_handler_default']),
 dict(D, name='dispatch_done', entry='u_done', remove_body=['message_complete_callback_handler_dispatch'], defs=['VF_DISPATCH'], functions=['_send_response_callback_handler_dispatch']),
 dict(D, name='file_done', entry='u_done', remove_body=['message_complete_callback_handler_file'], defs=['VF_FILE'], functions=['_cleanup_handler_file']),
 dict(B, name='join', entry='u_join', replace=dict(create_iterator_linked_list='c_iter', delete_iterator_linked_list='c_diter', get_next_iterator='c_next', malloc='c_malloc', memcpy='c_memcpy'), functions=['join_string_buffer']),
 dict(B, name='append', entry='u_append', loops=False, replace=dict(append_value_linked_list='c_append', strlen='c_strlen'), functions=['append_string_buffer', 'append_string_l_buffer', 'append_string_t_buffer', '_append_string_buffer', '_append_string_l_buffer', '_append_string_t_buffer']),
 dict(B, name='create', entry='u_create', loops=False, replace=dict(create_linked_list='c_create'), functions=['create_string_buffer']),
 dict(B, name='delete', entry='u_delete', replace=dict(pop_value_linked_list='c_pop', free='c_free', delete_linked_list='c_ldelete'), functions=['delete_string_buffer']),
])
COM = [SRC + '/viriatum_commons/' + x for x in ('checksum/crc_32.c', 'debug/error.c', 'debug/logging.c', 'encoding/base_64.c', 'encoding/percent.c', 'formats/passwd.c', 'io/file.c', 'structures/date_time.c', 'structures/hash_map.c', 'structures/iterator.c', 'structures/linked_list.c', 'structures/linked_buffer.c', 'structures/buffer.c', 'structures/string.c', 'structures/string_buffer.c', 'structures/type.c', 'structures/sort_map.c', 'template/engine.c', 'template/handler.c', 'sorting/quicksort.c')]
PROP['driver'] = dict(server=True, libs=['-lm', '-lpcre'], cflags=['-include', LIB_DIR + '/vf_paths.h', '-D_GNU_SOURCE'], sources=COM + [SRC + '/viriatum/handlers/' + x for x in ('handler_file.c', 'handler_default.c', 'handler_dispatch.c')] + [SRC + '/viriatum/http/http_util.c', SRC + '/viriatum/http/http_parser.c'], maxlen=160)
PROP['trusted'] = ['snprintf formats %s, %d and %lu by its C library contract', 'the template engine makes one terminated text out of the template and its values', 'linked lists and their iterators keep their order (C12)', 'the requested connection handling is the flag set by the parser (driver only)']
PROP['assumptions'] = ['the text of a head, with its body when in one buffer, fits the buffer it is written to (4 KiB, 256 bytes for the default handler)', 'the parts of a status line, the realm and the description hold no line breaks', 'allocation succeeds']
META = {'title': 'Responses announce exactly the body they carry and the end of the connection',
 'statement': 'Every response is a status line with its version, code and message, one Connection, one Server and one Content-Length header, an empty line and then exactly the announced number of body bytes, and a refused request names the realm. '
              'The connection is announced as kept alive exactly when the request asked for it by a Connection header, and after the last byte it is closed if it was not, and otherwise released for the next request, each once. '
              'Joining the pieces of a string buffer gives all of them, complete and in order.',
 'over': ['inputs', 'histories'],
 'text': 'all status codes, messages, lengths, connection flags and pieces of text, with and without templates',
 'why': 'No test sends a request to the server or looks at a response.',
 'files': ['src/viriatum/http/http_util.c', 'src/viriatum/handlers/handler_default.c', 'src/viriatum/handlers/handler_dispatch.c', 'src/viriatum/handlers/handler_file.c', 'src/viriatum_commons/structures/string_buffer.c'],
 'mechanism': [('heads', 'write_http_headers, write_http_headers_c, write_http_headers_a, write_http_headers_m'), ('complete responses', 'write_http_message, write_http_error_a'), ('end of the request', '_cleanup_handler_file, _send_response_callback_handler_default, _send_response_callback_handler_dispatch'), ('joined text', 'join_string_buffer')],
 'hook': 'loop contracts of the string buffer loops',
 'note': 'Proof for all values: heads compared token by token with the expected text, every combination of version, connection, cache and end. That the text fits its buffer is assumed.'}
