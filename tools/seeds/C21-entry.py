import sys; sys.path.insert(0, '/verif/tools/demo'); import cert
ID='C21-entry'; PROP='C21'
NEEDS='a chain whose first certificate carries extensions and whose second is malformed'
BREAKS='The extensions of an entry are not skipped, so the next entry is read at the wrong place and never looked at.'
EDITS=[('src/certificates.rs', 'self.cert_list = &self.cert_list[5 + data_len + extensions_len..];', 'self.cert_list = &self.cert_list[5 + data_len..];')]
DEMO=cert.DEMO + """
assert outcome((good, b''), (good[:-1], b'')) == 'refused'
assert outcome((good, b'\\0\\5\\0\\1\\1'), (good[:-1], b'')) == 'refused'
"""
