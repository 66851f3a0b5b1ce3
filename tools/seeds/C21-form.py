import sys; sys.path.insert(0, '/verif/tools/demo'); import cert
ID='C21-form'; PROP='C21'
NEEDS='an element whose length takes three bytes or more'
BREAKS='Elements with a length of three or four bytes are taken for malformed.'
EDITS=[('src/certificates/der.rs', 'if num_len_bytes > 4 ||', 'if num_len_bytes >= size_of::<u16>() + 1 ||')]
DEMO=cert.DEMO + """
assert outcome((cert(form=2), b'')) == 'accepted'
assert outcome((cert(form=3), b'')) == 'accepted'
"""
