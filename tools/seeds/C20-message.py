ID='C20-message'; PROP='C20'
NEEDS='a handshake message header that announces more than 131072 bytes'
BREAKS='The limit on the size of a handshake message is much higher than the documented one, so a server makes the client buffer megabytes.'
EDITS=[('src/state.rs', 'ShakeBuf::new(0x20000)', 'ShakeBuf::new(0xffffff)')]
DEMO="""
c = Conn(); assert c.connect() == -1
h = hello_of(c)
s = Server(h)
c.rx = rec(22, s.sh) + s.s.seal(22, b'\\x08\\xf0\\0\\0' + bytes(100))
assert c.connect() == -1
assert c.error == 'Tls', c.error
"""
