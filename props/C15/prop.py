C = dict(src='config.c', slim=True); M = dict(src='map.c', slim=True, loops=False)
PROP = dict(id='C15', units=[
 dict(C, name='ini', entry='u_ini', remove_fp=True, unwind_rest=2, cbmc=['--sat-solver', 'cadical'], replace=dict(set_last_error_message='c_error', set_last_error_message_f='c_error_f', create_sort_map='c_create', read_file='c_read', _ini_section_end_callback='c_section', _ini_comment_end_callback='c_comment', _ini_key_end_callback='c_key', _ini_value_end_callback='c_value', free='c_free'), functions=['process_ini_file']),
 dict(C, name='spaces', entry='u_spaces', functions=['trailing_size', 'leading_offset']),
 dict(C, name='section', entry='u_section', loops=False, functions=['_ini_section_end_callback']),
 dict(C, name='key', entry='u_key', loops=False, replace=dict(trailing_size='c_trailing'), functions=['_ini_key_end_callback']),
 dict(C, name='value', entry='u_value', loops=False, replace=dict(leading_offset='c_leading', malloc='c_vmalloc', memcpy='c_memcpy', get_value_string_sort_map='c_get', set_value_string_sort_map='c_set', create_sort_map='c_vcreate', free='c_vfree'), functions=['_ini_value_end_callback']),
 dict(M, name='set', entry='u_set', replace=dict(set_value_hash_map='c_hset', get_hash_map='c_hget', append_value_linked_list='c_append', _calculate_string_hash_map='c_hash'), functions=['set_value_sort_map', 'set_value_string_sort_map']),
 dict(M, name='get', entry='u_get', replace=dict(get_value_hash_map='c_hvalue', get_value_string_hash_map='c_hsvalue', _calculate_string_hash_map='c_hash'), functions=['get_value_sort_map', 'get_value_string_sort_map']),
 dict(M, name='next', entry='u_next', replace=dict(get_value_linked_list='c_at', get_hash_map='c_hget'), functions=['get_next_iterator_sort_map', 'get_next_element_iterator_sort_map']),
 dict(M, name='iterator', entry='u_iter', replace=dict(create_iterator='c_iter', delete_iterator='c_diter'), functions=['create_iterator_sort_map', 'create_element_iterator_sort_map', 'reset_iterator_sort_map', 'delete_iterator_sort_map']),
 dict(M, name='create', entry='u_create', replace=dict(create_hash_map='c_hcreate', create_linked_list='c_lcreate'), functions=['create_sort_map']),
 dict(M, name='delete', entry='u_delete', replace=dict(delete_hash_map='c_hdelete', delete_linked_list='c_ldelete', free='c_mfree'), functions=['delete_sort_map']),
 dict(name='release', src='release.c', entry='u_release', entry_src='release_entry.c', slim=True, remove_fp=True, server=True, replace=dict(create_element_iterator_sort_map='c_iter', get_next_iterator='c_next', get_value_sort_map='c_get', delete_configuration='c_self', free='c_free', delete_iterator_sort_map='c_diter', delete_sort_map='c_dmap'), functions=['delete_configuration']),
])
PROP['driver'] = dict(sources=[SRC + '/viriatum_commons/' + x for x in ('ini/ini.c', 'io/file.c', 'debug/error.c', 'structures/type.c', 'structures/date_time.c', 'structures/sort_map.c', 'structures/hash_map.c', 'structures/linked_list.c', 'structures/iterator.c', 'memory/memory_pool.c', 'sorting/quicksort.c')], maxlen=150, corpus=[b'\x0d\x0b\x0c\x02\x05\x0b'])
PROP['trusted'] = ['the hash map and the linked list keep their contracts (checks C09 and C12)', 'read_file gives the bytes of the file']
PROP['assumptions'] = ['allocation succeeds', 'a zero byte in a section or key ends it']
META = {'title': 'Configuration files are read exactly, and ordered maps keep their keys once',
 'statement': 'After reading a configuration file, every key of every section has the last value the file gives it: the text after the equals sign up to the end of the line or of the file, without the spaces before it (sections and keys are cut at 1023 characters, and a key has no spaces behind it). The ordered maps that hold it list every key once, in the order first set. Arbitrary file contents touch no memory outside the buffers.',
 'over': ['inputs', 'histories'],
 'text': 'all files of any length, all sequences of sets on an ordered map',
 'why': 'No test reads a configuration file; the test of the ordered map sets four different keys.',
 'files': ['src/viriatum_commons/ini/ini.c', 'src/viriatum_commons/structures/sort_map.c', 'src/viriatum_commons/util/string_util.h', 'src/viriatum/system/service.c'],
 'mechanism': [('grammar', 'process_ini_file'), ('events', '_ini_section_end_callback, _ini_key_end_callback, _ini_value_end_callback'), ('ordered map', 'set_value_sort_map, get_next_element_iterator_sort_map'), ('release', 'delete_configuration')],
 'hook': 'loop contracts of the byte loop and of the trimming loops',
 'note': 'Proof for any length: the parser against the grammar over positions, the events and the ordered map over the contracts of C09 and C12.'}
