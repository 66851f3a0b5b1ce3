ID='C01-short'; PROP='C01'
NEEDS='a protected record of 15 bytes, one less than the tag'
BREAKS='The minimal length of a protected record is compared off by two, so the tag is cut out of a record that has none and the library aborts.'
EDITS=[('src/record/read.rs', 'if self.rbuf.len < Self::MIN_PROT_LEN {', 'if self.rbuf.len + size_of::<ContentType>() + 1 < Self::MIN_PROT_LEN {')]
DEMO="""
c = Conn(); assert c.connect() == -1
h = hello_of(c)
s = Server(h)
c.rx = rec(22, s.sh) + rec(23, bytes(15))
assert c.connect() == -1
assert c.error == 'Tls', c.error
"""
