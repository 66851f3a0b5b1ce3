ID='C08-count'; PROP='C08'
NEEDS='a configuration without signature algorithms'
BREAKS='Two cooperating sites: an empty list is counted in the length of the extensions, but not written.'
EDITS=[('src/extensions.rs','len += ext_len(self.sig_algs_len());','len += self.sig_algs_len() + Self::HEADER_SIZE;')]
DEMO='''
for g in (1, 0):
    c = Conn(sigs=g); assert c.connect() == -1 and c.error == 'WantRead'
    hello_of(c)
'''
