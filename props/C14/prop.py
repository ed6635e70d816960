Z = ['--smt2', '--z3', '--slice-formula']
PROP = dict(id='C14', units=[
 dict(name='crc', src='sum.c', entry='u_crc', cbmc=['--sat-solver', 'cadical'], functions=['crc_32']),
 dict(name='md5_place', src='sum.c', entry='u_md5_body', slim=True, functions=['_body_md5']),
 dict(name='md5_blocks', src='sum.c', entry='u_md5_body', defs=['WINDOW'], slim=True, cbmc=Z, functions=['_body_md5']),
 dict(name='sha1_block', src='sum.c', entry='u_sha1_block', slim=True, loops=False, cbmc=Z, functions=['_transform_sha1']),
 dict(name='forms', src='sum.c', entry='u_forms', slim=True, loops=False, functions=[]),
])
PROP['units'].append(dict(name='table', src='sum.c', entry='u_table', loops=False, functions=[]))
C = dict(src='sum.c', slim=True, cbmc=['--sat-solver', 'cadical'])
PROP['units'] += [
 dict(C, name='md5_update', entry='u_md5_update', loops=False, replace=dict(_body_md5='c_body', memcpy='c_memcpy'), functions=['update_md5']),
 dict(C, name='md5_final', entry='u_md5_final', loops=False, replace=dict(_body_md5='c_body'), functions=['final_md5']),
 dict(C, name='sha1_update', entry='u_sha1_update', replace=dict(_transform_sha1='c_transform', memcpy='c_memcpy'), functions=['update_sha1']),
 dict(C, name='sha1_final', entry='u_sha1_final', unwind_rest=21, replace=dict(update_sha1='c_update'), functions=['final_sha1']),
 dict(C, name='init', entry='u_init', loops=False, functions=['init_md5', 'init_sha1']),
 dict(C, name='whole', entry='u_whole', loops=False, replace=dict(init_md5='ci_md5', update_md5='cu_md5', final_md5='cf_md5', init_sha1='ci_sha1', update_sha1='cu_sha1', final_sha1='cf_sha1'), functions=['md5', 'sha1']),
]
PROP['driver'] = dict(sources=[SRC + '/viriatum_commons/checksum/' + x for x in ('crc_32.c', 'md5.c', 'sha1.c')], libs=['-lm'], maxlen=120, corpus=[b'\x01abc', b'\x60\x10\x07\x01\x82\x03'])
PROP['trusted'] = ['memcpy and memset copy and set the bytes they are given (the library)', 'cbmc --slice-formula removes only what no obligation depends on', 'Z3 4.8.12 (block functions)']
PROP['assumptions'] = ['little endian words of 32 bits, as the code is built here', 'streams and updates of at most 2^40 bytes each; the buffers of data are distinct from the context', 'a caller of crc_32 and of the one call forms gives a buffer as long as it says']
META = {'title': 'CRC-32, MD5 and SHA-1 are computed as their standards define them',
 'statement': 'For every input, however long and however it is divided into updates, the checksums computed (the entity tags of served files use CRC-32, torrents use SHA-1) are those the standards define for the bytes given. The input is only read, and nothing beyond the digest and the context is written.',
 'over': ['inputs', 'histories'],
 'text': 'all inputs of any length, all sequences of updates',
 'why': 'The tests hash a few short strings in one piece.',
 'files': ['src/viriatum_commons/checksum/crc_32.c', 'src/viriatum_commons/checksum/md5.c', 'src/viriatum_commons/checksum/sha1.c'],
 'mechanism': [('table and bytes', 'crc_32'), ('block functions', '_body_md5, _transform_sha1'), ('stream, padding and length', 'update_md5, final_md5, update_sha1, final_sha1')],
 'hook': 'loop contracts of the byte loop, the block loops and the padding loop',
 'note': 'Proof for any length: block functions equal to the standard step by step, the stream around them by one arbitrary byte of it.'}
