ID='C22-long'; PROP='C22'
NEEDS='a server that selects an application protocol whose name is longer than 127 bytes'
BREAKS='A long name of the application protocol is reported cut off.'
EDITS=[('src/extensions/app_proto.rs', '    alpn_state[..alpn.len()].copy_from_slice(alpn);', '    let len = len & 0x7f;\n    alpn_state[..len].copy_from_slice(&alpn[..len]);')]
DEMO=r"""
for n in (3, 200):
    c = Conn(protos=b'\2h2' + bytes([n]) + b'x' * n); assert c.connect() == -1
    h = hello_of(c)
    s = Server(h)
    e = ext(16, (n + 1).to_bytes(2, 'big') + bytes([n]) + b'x' * n)
    c.rx = rec(22, s.sh) + s.s.seal(22, msg(8, len(e).to_bytes(2, 'big') + e))
    assert c.connect() == -1
    assert c.error == 'WantRead', c.error
    assert lib.turtls_app_proto(c.p) == b'x' * n, lib.turtls_app_proto(c.p)
"""
