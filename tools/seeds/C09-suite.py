ID='C09-suite'; PROP='C09'
NEEDS='a client that offers one suite only and a server that selects the other'
BREAKS='The suite of the server replaces the offered suites instead of being intersected with them.'
EDITS=[('src/server_hello.rs', 'unprot_state.ciphers.suites &= Turtls', 'unprot_state.ciphers.suites = Turtls')]
DEMO="""
c = Conn(suites=2); assert c.connect() == -1
h = hello_of(c)
assert h['suites'] == [b'\\x13\\x01'], h['suites']
s = Server(h, suite=b'\\x13\\x03')
c.rx = rec(22, s.sh)
assert c.connect() == -1
assert c.error == 'Tls', c.error
"""
