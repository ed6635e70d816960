RM = {'set_last_error_message': 'c_error', 'write_connection': 'c_write', 'is_directory_file': 'c_isdir', 'auth_http': 'c_auth', 'strlen': 'c_strlen', 'memcpy': 'c_memcpy', 'snprintf': 'c_snprintf', 'write_http_headers': 'c_headers', 'write_http_headers_c': 'c_headers_c',
      'write_http_error': 'c_err', 'write_http_error_a': 'c_err_a', 'count_file': 'c_count', 'get_write_time_file': 'c_wtime', 'crc_32': 'c_crc', 'strcmp': 'c_strcmp', 'get_http_range_limits': 'c_limits', 'extension_path': 'c_ext', 'create_linked_list': 'c_create_list', 'list_directory_file': 'c_list',
      'entries_to_map_file': 'c_map', 'delete_directory_entries_map_file': 'c_del_entries', 'delete_directory_entries_file': 'c_del_entries', 'delete_linked_list': 'c_delete_list', 'create_template_handler': 'c_create_tpl', 'assign_string_template_handler': 'c_assign_s', 'assign_list_template_handler': 'c_assign_l', 'assign_integer_template_handler': 'c_assign_i', 'process_template_handler': 'c_process'}
U = dict(server=True, cbmc=['--sat-solver', 'cadical'], slim=True)
E = {'set_last_error_message': 'c_error'}
RA = dict(E, strchr='c_strchr', strlen='c_strlen', decode_base64='c_decode', memchr='c_memchr', memcpy='c_memcpy', process_passwd_file='c_passwd', get_value_string_hash_map='c_get', strcmp='c_strcmp2', delete_values_hash_map='c_delv', delete_hash_map='c_delm', free='c_free')
RP = dict(E, set_last_error_message_f='c_error_f', create_hash_map='c_create', delete_hash_map='c_delete', read_file='c_read', malloc='c_malloc', free='c_free', memcpy='c_memcpy', set_value_string_hash_map='c_set')
P = dict(server=False, slim=True, src='passwd.c', entry='u_passwd', functions=['process_passwd_file'])
PROP = dict(id='C08', server=True, units=[
 dict(U, name='dispatch', src='auth.c', entry='u_dispatch', loops=False, replace=dict(E, strcmp='c_strcmp0', auth_default_http='c_default', auth_file_http='c_file'), functions=['auth_http']),
 dict(U, name='default', src='auth.c', entry='u_default', loops=False, replace=dict(E, strcmp='c_strcmp1'), functions=['auth_default_http']),
 dict(U, name='file', src='auth.c', entry='u_file', loops=False, replace=RA, functions=['auth_file_http']),
 dict(P, name='passwd', replace=RP), dict(P, name='passwd_line', defs=['U_LINE'], replace=RP),
 dict(U, name='complete', src='../C07/file.c', entry='u_complete', defs=['U_AUTH'], loops=False, replace=RM, functions=['message_complete_callback_handler_file']),
])
COM = [SRC + '/viriatum_commons/' + x for x in ('checksum/crc_32.c', 'debug/error.c', 'debug/logging.c', 'encoding/base_64.c', 'encoding/percent.c', 'formats/passwd.c', 'io/file.c', 'structures/date_time.c', 'structures/hash_map.c', 'structures/iterator.c', 'structures/linked_list.c', 'structures/linked_buffer.c', 'structures/buffer.c', 'structures/string.c', 'structures/string_buffer.c', 'structures/type.c', 'structures/sort_map.c', 'template/engine.c', 'template/handler.c', 'sorting/quicksort.c')]
PROP['driver'] = dict(server=True, cflags=['-include', LIB_DIR + '/vf_paths.h', '-D_GNU_SOURCE'], sources=COM + [SRC + '/viriatum/handlers/handler_file.c', SRC + '/viriatum/http/http_util.c', SRC + '/viriatum/http/http_parser.c'], maxlen=200)
PROP['trusted'] = ['strcmp, strchr, memchr, strlen and memcpy by their C library contracts', 'the map of users returns the password set for exactly that user (C09)', 'decode_base64 by the contract proved in C05']
PROP['assumptions'] = ['passwords are stored in the file in plain text, without end of string characters']
META = {'title': 'Protected files are sent only after the right credentials',
 'statement': 'When a location asks for credentials, the file, listing or redirect of the request is sent only if the request carries an authorization whose decoded user and password are exactly those of a line of the configured file (or the default ones when configured); every other request is answered with 401 or 404. '
              'Malformed, oversized or truncated authorizations, unknown users and unreadable or incomplete password files never grant access nor make the server access memory outside its buffers. The right credentials are always granted.',
 'over': ['inputs', 'configurations', 'fault_sequences'],
 'text': 'all authorization texts, all password files and all failures to read or decode them',
 'why': 'No test covers authentication; a malformed header used to be granted access because an error left the result unchanged.',
 'files': ['src/viriatum/http/http_util.c', 'src/viriatum/handlers/handler_file.c', 'src/viriatum_commons/formats/passwd.c'],
 'mechanism': [('verification', 'auth_http, auth_default_http, auth_file_http'), ('password file', 'process_passwd_file'), ('enforcement', 'message_complete_callback_handler_file')],
 'hook': 'loop contract of the password file parsing loop',
 'note': 'Proof for all inputs of enforcement and verification; the parser is proved to set every complete line (that it sets nothing else is searched, not proved).'}
