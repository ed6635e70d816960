C = dict(src='sort.c', cbmc=['--sat-solver', 'cadical'], slim=True, remove_fp=True)
Q = dict(sort_quicksort='c_sort', _swap_quicksort='c_swap')
PROP = dict(id='C13', units=[
 dict(C, name='sort', entry='u_sort', replace=Q, entry_src='entry.c', functions=['sort_quicksort']),
 dict(C, name='small', entry='u_small', replace=Q, entry_src='entry.c', functions=['sort_quicksort']),
 dict(C, name='swap', entry='u_swap', entry_src='entry.c', loops=False, functions=['_swap_quicksort']),
])
PROP['units'].append(dict(C, dir='C12', src='list.c', name='list', entry='u_sort', remove_fp=False, replace=dict(to_sequence_linked_list='c_sequence', sort_quicksort='c_quick', free='c_sfree'), functions=['sort_linked_list']))
PROP['units'].append(dict(C, dir='C12', src='list.c', name='sequence', entry='u_sequence', remove_fp=False, replace=dict(malloc='c_malloc'), functions=['to_sequence_linked_list']))
PROP['driver'] = dict(sources=[SRC + '/viriatum_commons/' + x for x in ('structures/linked_list.c', 'structures/iterator.c', 'memory/memory_pool.c', 'sorting/quicksort.c')], maxlen=200, corpus=[b'\x00\x01\x04\x02\x06\x03\x12\x04'])
PROP['trusted'] = ['an injection of a finite range into itself is onto (values followed from the input are all the values of the result)']
PROP['assumptions'] = ['the comparison is a total preorder on the values and does not change them', 'the stack holds the recursion, as deep as the range in the worst case', 'allocation succeeds']
META = {'title': 'Sorting puts the values in order and neither loses nor repeats any',
 'statement': 'Sorting a range of a sequence, or a whole linked list, with any consistent comparison leaves its values in non-decreasing order, each exactly as often as before, and touches nothing outside the range. It ends for every input, equal, sorted and reversed ones included.',
 'over': ['inputs'],
 'text': 'all sequences of any length, all ranges of them and all total preorders',
 'why': 'The tests sort one fixed sequence of ten numbers.',
 'files': ['src/viriatum_commons/sorting/quicksort.c', 'src/viriatum_commons/structures/linked_list.c'],
 'mechanism': [('partition and recursion', 'sort_quicksort, _swap_quicksort'), ('lists', 'sort_linked_list, to_sequence_linked_list')],
 'hook': 'loop contract of the partition loop',
 'note': 'Proof for any length: the recursive calls are replaced by the contract of the function itself, on smaller ranges.'}
