ID='C22-several'; PROP='C22'
NEEDS='a server that answers with a list of two application protocols'
BREAKS='An answer with several application protocols is accepted, and the name reported is the first one with the rest of the list appended.'
EDITS=[('src/extensions/app_proto.rs', '''    if len != alpn.len() {
        return Err(TurtlsAlert::DecodeError);
    }

    // `alpn''', '''    if len > alpn.len() {
        return Err(TurtlsAlert::DecodeError);
    }

    // `alpn''')]
DEMO=r"""
c = Conn(protos=b'\2h2\3abc'); assert c.connect() == -1
h = hello_of(c)
s = Server(h)
e = ext(16, b'\0\7\2h2\3abc')
c.rx = rec(22, s.sh) + s.s.seal(22, msg(8, len(e).to_bytes(2, 'big') + e))
assert c.connect() == -1
assert c.error == 'Tls', c.error
"""
