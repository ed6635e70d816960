C = dict(src='unit.c', cbmc=['--sat-solver', 'cadical'], slim=True, timeout=600)
E = {'strcmp': 'c_strcmp'}
S = dict(E, malloc='c_malloc', free='c_free', strlen='c_strlen', memcpy='c_memcpy', _resize_hash_map='c_resize')
PROP = dict(id='C09', units=[
 dict(C, name='get', entry='u_get', replace=E, functions=['get_hash_map']),
 dict(C, name='set_int', entry='u_set', defs=['VF_M=0'], replace=S, functions=['_set_value_hash_map']),
 dict(C, name='set_str', entry='u_set', defs=['VF_M=1'], replace=S, functions=['_set_value_hash_map']),
 dict(C, name='full_int', entry='u_set', defs=['VF_M=0', 'VF_FULL'], replace=S, functions=['_set_value_hash_map']),
 dict(C, name='full_str', entry='u_set', defs=['VF_M=1', 'VF_FULL'], replace=S, functions=['_set_value_hash_map']),
 dict(C, name='resize', entry='u_resize', replace=dict(malloc='c_rmalloc', memset='c_rmemset', free='c_rfree', _set_value_hash_map='c_rset'), functions=['_resize_hash_map']),
 dict(C, name='create', entry='u_create', loops=False, replace=dict(malloc='c_cmalloc', memset='c_cmemset'), functions=['create_hash_map']),
 dict(C, name='next', entry='u_next', functions=['get_next_iterator_hash_map', 'get_next_element_iterator_hash_map']),
 dict(C, name='delete', entry='u_delete', replace=dict(free='c_dfree'), functions=['delete_hash_map']),
 dict(C, name='string', entry='u_string', functions=['_calculate_string_hash_map']),
 dict(C, name='wrap', entry='u_wrap', loops=False, replace=dict(_calculate_string_hash_map='c_hash', _set_value_hash_map='c_wset', get_hash_map='c_wget'), functions=['set_value_string_hash_map', 'get_value_string_hash_map', 'set_value_hash_map', 'get_value_hash_map']),
])
PROP['driver'] = dict(sources=[SRC + '/viriatum_commons/structures/hash_map.c', SRC + '/viriatum_commons/structures/iterator.c'], corpus=['\x00\x00abcabc', '\x11\x04aAbBcCdD\xff'])
PROP['trusted'] = ['pigeonhole: a map with no more used slots than its size, which stays below the number of slots, has an unused slot (the probe loops end there)',
                   'equal key strings have equal hashes (the hash reads only the string)']
PROP['assumptions'] = ['allocation succeeds', 'maps have fewer than 2^55 slots', 'a map is used either with string keys or with integer keys', 'the maximum load (a double product) is below the number of slots: proved in create and resize']
META = {'title': 'Hash maps return exactly the last value set for every key',
 'statement': 'After any sequence of sets, growing included, reading a key returns the value set last for it, whatever keys collide with it, and a key that was never set has no value. '
              'The size counts the distinct keys, an iteration visits each of them exactly once, and a lookup always ends. Deleting the map releases its own copy of every key string exactly once.',
 'over': ['inputs', 'histories'],
 'text': 'all sequences of sets and gets of integer or string keys, on a map of any initial size',
 'why': 'The tests set a few dozen keys in a map of the default size: collisions of whole hashes, probing past the last slot and repeated growth do not occur.',
 'files': ['src/viriatum_commons/structures/hash_map.c', 'src/viriatum_commons/structures/hash_map.h'],
 'mechanism': [('setting', '_set_value_hash_map'), ('reading', 'get_hash_map, get_value_hash_map, get_value_string_hash_map'), ('growing', '_resize_hash_map'), ('iteration', 'get_next_iterator_hash_map, get_next_element_iterator_hash_map'), ('release', 'delete_hash_map')],
 'hook': 'loop contracts of the probe, iteration, growth and release loops',
 'note': 'Proof for maps of any size; one arbitrary key and one arbitrary slot are followed through the open addressing table.'}
