C = dict(src='list.c', cbmc=['--sat-solver', 'cadical'], slim=True)
N = dict(C, loops=False)
R = dict(remove_linked_list='c_remove')
PROP = dict(id='C12', units=[
 dict(C, name='delete', entry='u_delete', replace=dict(pfree='c_pfree', free='c_free'), functions=['delete_linked_list']),
 dict(C, name='clear', entry='u_clear', replace=dict(pfree='c_pfree', free='c_free'), functions=['clear_linked_list']),
 dict(C, name='get', entry='u_get', functions=['get_linked_list']),
 dict(C, name='sequence', entry='u_sequence', replace=dict(malloc='c_malloc'), functions=['to_sequence_linked_list']),
 dict(N, name='append', entry='u_append', functions=['append_linked_list', 'append_front_linked_list']),
 dict(C, name='insert', entry='u_insert', replace=dict(append_linked_list='c_append'), functions=['append_index_linked_list']),
 dict(N, name='values', entry='u_values', replace=dict(palloc='c_palloc', append_linked_list='c_vappend', append_front_linked_list='c_vfront', append_index_linked_list='c_vinsert'), functions=['append_value_linked_list', 'append_front_value_linked_list', 'append_index_value_linked_list', 'create_linked_list_node']),
 dict(N, name='create', entry='u_create', replace=dict(malloc='c_lmalloc'), functions=['create_linked_list']),
 dict(N, name='remove', entry='u_remove', replace=dict(pfree='c_pfree1'), functions=['remove_linked_list', 'delete_linked_list_node']),
 dict(N, name='remove_null', entry='u_remove_null', replace=dict(pfree='c_pfree1'), functions=['remove_linked_list']),
 dict(C, name='remove_value', entry='u_remove_value', replace=R, functions=['remove_value_linked_list']),
 dict(C, name='remove_index', entry='u_remove_index', replace=R, functions=['remove_index_linked_list']),
 dict(N, name='ends', entry='u_ends', replace=dict(R, get_linked_list='c_get', pfree='c_pfree1'), functions=[p + q for p in ('pop', 'pop_top', 'pop_value', 'pop_top_value', 'peek', 'peek_top', 'peek_value', 'peek_top_value', 'get_value') for q in ('_linked_list',)]),
 dict(N, name='iterator', entry='u_iterator', replace=dict(create_iterator='c_citer'), functions=['create_iterator_linked_list', 'reset_iterator_linked_list']),
 dict(N, name='next', entry='u_next', functions=['get_next_iterator_linked_list']),
 dict(C, name='sort', entry='u_sort', replace=dict(to_sequence_linked_list='c_sequence', sort_quicksort='c_quick', free='c_sfree'), functions=['sort_linked_list']),
])
PROP['driver'] = dict(sources=[SRC + '/viriatum_commons/' + x for x in ('structures/linked_list.c', 'structures/iterator.c', 'memory/memory_pool.c', 'sorting/quicksort.c')], maxlen=200, corpus=[b'\x00\x01\x04\x02\x06\x03\x12\x04'])
PROP['trusted'] = ['palloc and pfree are malloc and free (the pool of HAVE_MPOOL is not configured)']
PROP['assumptions'] = ['the values of a list are followed by address only: where a node lies in memory is immaterial', 'a node that is added is not in a list', 'indexes given to get and remove are at most the size', 'lists have fewer than 2^31 nodes', 'allocation succeeds']
META = {'title': 'Linked lists keep their values in order through every operation',
 'statement': 'A linked list behaves as the sequence of its values: appending, inserting at an index, removing by node, value or index, popping and peeking at both ends have exactly the effect they have on that sequence, and keep size, ends and both chains of links consistent, also on empty and one-element lists. '
              'Iterating and copying visit every value once in order, sorting rearranges the values only. Clearing and deleting release every node exactly once, and a cleared list is empty and usable.',
 'over': ['inputs', 'histories'],
 'text': 'all lists of any length and all sequences of operations on them',
 'why': 'The tests append a few values: removals in the middle, both ends, emptied and reused lists do not occur.',
 'files': ['src/viriatum_commons/structures/linked_list.c', 'src/viriatum_commons/structures/linked_list.h'],
 'mechanism': [('adding', 'append_linked_list, append_front_linked_list, append_index_linked_list and their value versions'), ('removing', 'remove_linked_list, remove_value_linked_list, remove_index_linked_list'), ('ends', 'pop, pop_top, peek and peek_top functions'), ('traversal', 'get_linked_list, to_sequence_linked_list, get_next_iterator_linked_list, sort_linked_list'), ('release', 'clear_linked_list, delete_linked_list')],
 'hook': 'loop contracts of the traversal loops',
 'note': 'Proof for lists of any length, one operation at a time, from an arbitrary consistent list; the driver runs sequences of operations against an array.'}
