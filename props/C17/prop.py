S = dict(server=True, slim=True, src='service.c')
RD = ['message_complete_callback_handler_dispatch', 'url_callback_handler_dispatch']
RF = ['message_complete_callback_handler_file', 'url_callback_handler_file', '_send_chunk_handler_file']
PROP = dict(id='C17', server=True, units=[
 dict(S, name='mime', entry='u_mime', defs=['U_SERVICE'], loops=False, cbmc=['--unwind', '258', '--sat-solver', 'cadical'], replace=dict(strlen='c_strlen', get_value_string_hash_map='c_hget'), functions=['_get_mime_type_service', 'lowercase']),
 dict(S, name='file_table', entry='u_register', defs=['U_FILE'], unwind_rest=12, remove_fp=True, remove_body=RF, replace=dict(get_value_string_sort_map='c_get'), functions=['register_handler_file', 'create_file_handler']),
 dict(S, name='dispatch_table', entry='u_register', unwind_rest=12, remove_fp=True, remove_body=RD, replace=dict(pcre_compile='c_compile'), functions=['register_handler_dispatch', 'create_dispatch_handler']),
 dict(S, name='dispatch_delete', entry='u_delete', remove_fp=True, remove_body=RD, replace=dict(free='c_free'), functions=['delete_dispatch_handler']),
 dict(S, src='url.c', name='validate', entry='u_validate', unwind_rest=2, remove_fp=True, remove_body=RD + ['url_callback_handler_dispatch'], replace=dict(access='c_access'), functions=['validate_file']),
])
import glob as _g
ALL = sorted(f for f in _g.glob(SRC + '/viriatum_commons/*/*.c') if '/test/' not in f and '/main' not in f) + sorted(f for d in ('handlers', 'http', 'module', 'polling', 'stream', 'system') for f in _g.glob(SRC + '/viriatum/%s/*.c' % d))
PROP['driver'] = dict(server=True, libs=['-lm', '-lpcre', '-lssl', '-lcrypto', '-ldl', '-lpthread'], cflags=['-include', LIB_DIR + '/vf_paths.h', '-D_GNU_SOURCE'], sources=ALL, maxlen=80)
PROP['bounded'] = [{'unit': 'calculate_locations_service, url_callback_handler_dispatch', 'bound': 'search: up to 6 sections (and tables of 1023 to 1100), all pairs of ten expressions, urls up to 6000 bytes', 'status': 'searched'}]
PROP['trusted'] = ['pcre_compile and pcre_exec', 'maps return the value set last under a key (C09, C13)', 'access, snprintf and strlen by their C library contracts']
PROP['assumptions'] = ['allocation succeeds', 'the names of the index files fit their 128 bytes (they are cut from the configuration without a check)']
META = {'title': 'Requests reach the first matching location with its own settings',
 'statement': 'The locations of the service are the configured location sections that have a path and a handler, complete and in order, up to the size of the table; the tables of expressions, handlers, base paths and credentials hold at each index the values of the location at that index, and are released once. '
              'A request goes to the handler of the first location whose expression matches its path (or that of the first index file that exists, for a directory), with the index of that location, the end of the match and the rest of the url, and to the default handler when none matches; nothing is accessed outside the tables. '
              'The type of a file is the one configured for its extension in lower case, for extensions of any length.',
 'over': ['inputs', 'configurations'],
 'text': 'all tables of locations and all extensions; configurations and requests by search',
 'why': 'The index of a location selects the credentials a file needs: an index shifted between two tables, or one past the end, serves protected files. No test has two locations.',
 'files': ['src/viriatum/handlers/handler_dispatch.c', 'src/viriatum/handlers/handler_file.c', 'src/viriatum/system/service.c', 'src/viriatum_commons/io/file.h'],
 'mechanism': [('tables', 'register_handler_dispatch, register_handler_file, delete_dispatch_handler'), ('selection', 'url_callback_handler_dispatch, validate_file'), ('types', '_get_mime_type_service'), ('configuration', 'calculate_locations_service')],
 'observe': ['the callbacks of the chosen handler'],
 'hook': 'loop contracts of the location loops',
 'note': 'Proof for all inputs of the tables, of the choice of the index file and of the types. calculate_locations_service and url_callback_handler_dispatch are searched only (bounded): their contracts are written in props/C17 but the tables of 1024 locations and the path buffers of 4 KiB, each read at symbolic positions, are beyond the memory of the solver.'}
