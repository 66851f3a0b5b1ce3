ID='C01-alpn'; PROP='C01'
NEEDS='an answer to the application protocols with an empty list'
BREAKS='An empty list of protocols passes the length check, and the length of its first name is read beyond its end: the library aborts.'
EDITS=[('src/extensions/app_proto.rs', 'alpn.len() < 4', 'alpn.len() < 2')]
DEMO=r"""
c = Conn(protos=b'\2h2'); assert c.connect() == -1
h = hello_of(c)
s = Server(h)
e = ext(16, b'\0\0')
c.rx = rec(22, s.sh) + s.s.seal(22, msg(8, len(e).to_bytes(2, 'big') + e))
assert c.connect() == -1
assert c.error == 'Tls', c.error
"""
