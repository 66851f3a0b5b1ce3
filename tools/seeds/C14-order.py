ID='C14-order'; PROP='C14'
NEEDS='a C program that sets the signature algorithms and the groups to different values'
BREAKS='Two fields of the same type are swapped in the structure, but not in the header.'
EDITS=[('src/extensions.rs','''    /// The signature algorithms to support.
    pub sig_algs: u16,

    /// The methods to use for key exchange.
    pub sup_groups: u16,
''','''    /// The methods to use for key exchange.
    pub sup_groups: u16,

    /// The signature algorithms to support.
    pub sig_algs: u16,
''')]
DEMO='''
c = Conn(sigs=0, groups=1); assert c.connect() == -1 and c.error == 'WantRead', c.error
x = hello_of(c)['ext']
assert 10 in x and 51 in x and 13 not in x, x
'''
