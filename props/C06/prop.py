R = {'set_last_error_message': 'c_error', 'decode_percent': 'c_decode', 'strlen': 'c_strlen', 'memcpy': 'c_memcpy', 'memchr': 'c_memchr', '_is_contained_handler_file': 'c_contained', 'snprintf': 'c_snprintf', 'get_http_method_string': 'c_method'}
RP = dict(R, _set_path_handler_file='c_set_path')
U = dict(src='unit.c', server=True, loops=False, cbmc=['--sat-solver', 'cadical'])
PROP = dict(id='C06', server=True, units=[
 dict(U, name='contained', entry='u_contained', defs=['U_CONT'], loops=True, slim=True, replace={'set_last_error_message': 'c_error'}, functions=['_is_contained_handler_file']),
 dict(U, name='set_path', entry='u_set_path', defs=['U_PATHONLY'], replace=R, functions=['_set_path_handler_file']),
 dict(U, name='url', entry='u_url', replace=RP, functions=['url_callback_handler_file', '_set_url_handler_file']),
 dict(U, name='path', entry='u_path', replace=RP, functions=['path_callback_handler_file', '_set_url_handler_file']),
 dict(U, name='location', entry='u_location', replace=RP, functions=['location_callback_handler_file']),
 dict(U, name='field', entry='u_field', replace=RP, functions=['header_field_callback_handler_file']),
 dict(U, name='value', entry='u_value', replace=RP, functions=['header_value_callback_handler_file']),
])
COM = [SRC + '/viriatum_commons/' + x for x in ('checksum/crc_32.c', 'debug/error.c', 'debug/logging.c', 'encoding/base_64.c', 'encoding/percent.c', 'formats/passwd.c', 'io/file.c', 'structures/date_time.c', 'structures/hash_map.c', 'structures/iterator.c', 'structures/linked_list.c', 'structures/linked_buffer.c', 'structures/buffer.c', 'structures/string.c', 'structures/string_buffer.c', 'structures/type.c', 'structures/sort_map.c', 'template/engine.c', 'template/handler.c', 'sorting/quicksort.c')]
PROP['driver'] = dict(server=True, cflags=['-include', LIB_DIR + '/vf_paths.h', '-D_GNU_SOURCE'], sources=COM + [SRC + '/viriatum/handlers/handler_file.c', SRC + '/viriatum/http/http_util.c', SRC + '/viriatum/http/http_parser.c'], maxlen=200)

META = {'title': 'Served files stay inside their base path and requests never overflow the handler',
 'statement': 'For every url, location and header value sent by a client, the file the handler opens is the base path in use followed by a decoded path that has no parent directory component and no end of string, '
              'and anything else is answered as not found, so a file outside the base path is never served. A range, etag or credential is used only when the complete header value fits the context. '
              'Handling the request never accesses memory outside the buffers of the context.',
 'over': ['inputs', 'configurations'],
 'text': 'all urls, matched locations and header values of any length and content',
 'why': 'No test sends a request to the file handler, so traversal, oversized and truncated requests are never tried.',
 'files': ['src/viriatum/handlers/handler_file.c', 'src/viriatum/handlers/handler_file.h'],
 'mechanism': [('url', 'url_callback_handler_file, path_callback_handler_file, _set_url_handler_file'), ('containment', '_set_path_handler_file, _is_contained_handler_file'), ('locations', 'location_callback_handler_file'), ('headers', 'header_field_callback_handler_file, header_value_callback_handler_file')],
 'hook': 'loop contract of the containment test',
 'note': 'Proof of every callback for all lengths; the response itself is searched by driving complete requests in a scratch directory (no deduction about message_complete here).'}
PROP['trusted'] = ['strlen, memchr, memcpy and snprintf by their C library contracts', 'decode_percent by the contract proved in C02']
PROP['assumptions'] = ['the base paths of the configuration are shorter than 1024 bytes and terminated', 'symbolic links inside the base path are the choice of the operator']
