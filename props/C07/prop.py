RR = {'set_last_error_message': 'c_error', 'strlen': 'c_strlen', 'strtoull': 'c_strtoull'}
U = dict(server=True, cbmc=['--sat-solver', 'cadical'])
PROP = dict(id='C07', server=True, units=[
 dict(U, name='range_safe', src='range.c', entry='u_safe', slim=True, replace=RR, functions=['get_http_range_limits']),
 dict(U, name='range_form', src='range.c', entry='u_form', slim=True, defs=['U_FORM'], replace=RR, functions=['get_http_range_limits']),
])
RS = {'set_last_error_message': 'c_error', 'write_connection': 'c_write', 'open_file': 'c_open_file', 'fseek': 'c_fseek', 'ftell': 'c_ftell', 'fread': 'c_fread', 'fclose': 'c_fclose', '_cleanup_handler_file': 'c_cleanup'}
RM = {'set_last_error_message': 'c_error', 'write_connection': 'c_write', 'is_directory_file': 'c_isdir', 'auth_http': 'c_auth', 'strlen': 'c_strlen', 'memcpy': 'c_memcpy', 'snprintf': 'c_snprintf', 'write_http_headers': 'c_headers', 'write_http_headers_c': 'c_headers_c',
      'write_http_error': 'c_err', 'write_http_error_a': 'c_err_a', 'count_file': 'c_count', 'get_write_time_file': 'c_wtime', 'crc_32': 'c_crc', 'strcmp': 'c_strcmp', 'get_http_range_limits': 'c_limits', 'extension_path': 'c_ext', 'create_linked_list': 'c_create_list', 'list_directory_file': 'c_list',
      'entries_to_map_file': 'c_map', 'delete_directory_entries_map_file': 'c_del_entries', 'delete_directory_entries_file': 'c_del_entries', 'delete_linked_list': 'c_delete_list', 'create_template_handler': 'c_create_tpl', 'assign_string_template_handler': 'c_assign_s', 'assign_list_template_handler': 'c_assign_l', 'assign_integer_template_handler': 'c_assign_i', 'process_template_handler': 'c_process'}
PROP['units'] += [
 dict(U, name='send_chunk', src='file.c', entry='u_send', loops=False, slim=True, replace=RS, functions=['_send_chunk_handler_file']),
 dict(U, name='complete', src='file.c', entry='u_complete', loops=False, slim=True, replace=RM, functions=['message_complete_callback_handler_file']),
]
COM = [SRC + '/viriatum_commons/' + x for x in ('checksum/crc_32.c', 'debug/error.c', 'debug/logging.c', 'encoding/base_64.c', 'encoding/percent.c', 'formats/passwd.c', 'io/file.c', 'structures/date_time.c', 'structures/hash_map.c', 'structures/iterator.c', 'structures/linked_list.c', 'structures/linked_buffer.c', 'structures/buffer.c', 'structures/string.c', 'structures/string_buffer.c', 'structures/type.c', 'structures/sort_map.c', 'template/engine.c', 'template/handler.c', 'sorting/quicksort.c')]
PROP['driver'] = dict(server=True, cflags=['-include', LIB_DIR + '/vf_paths.h', '-D_GNU_SOURCE'], sources=COM + [SRC + '/viriatum/handlers/handler_file.c', SRC + '/viriatum/http/http_util.c', SRC + '/viriatum/http/http_parser.c'], maxlen=160)
PROP['trusted'] = ['fopen, fseek, ftell, fread, fclose by their C library contracts on a file that does not shrink during the response', 'strtoull returns one value per position', 'the text of response headers (status line, service description, mime type, etag) fits its 4 KiB buffer']
PROP['assumptions'] = ['the file still exists when its first chunk is read', 'the connection performs the writes in order and calls back once per completed write']
META = {'title': 'Files are delivered exactly: the complete file or the requested byte range',
 'statement': 'A request for a file is answered with exactly one response that announces and then sends exactly the bytes of the file, or exactly the bytes of the requested range clamped to the file when it can be satisfied, or no body when the entity tag matches. '
              'A range that is malformed or cannot be satisfied is ignored and never leads to bytes outside of the file. The file is closed and the request ended only after the last byte, whatever the sizes of the chunks read.',
 'over': ['inputs', 'histories'],
 'text': 'all file sizes, range header texts and chunk sizes returned by the reads',
 'why': 'No test requests a file; range limits and chunk boundaries depend on client chosen numbers and on file sizes.',
 'files': ['src/viriatum/handlers/handler_file.c', 'src/viriatum/http/http_util.c'],
 'mechanism': [('ranges', 'get_http_range_limits'), ('response', 'message_complete_callback_handler_file'), ('chunks', '_send_chunk_handler_file')],
 'hook': 'loop contract of the range limits loop',
 'note': 'Proof for all sizes and texts; each chunk is proved to continue the previous one, so the sequence covers the range. Header text fitting its buffer is trusted.'}
