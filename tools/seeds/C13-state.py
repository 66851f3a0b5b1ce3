ID='C13-state'; PROP='C13'
NEEDS='turtls_close during a handshake and another turtls_connect on the same object'
BREAKS='After turtls_close the next connection continues the old handshake instead of starting with a ClientHello.'
EDITS=[('src/lib.rs','''    tls_conn.state = TlsStatus::None;
}''','''    if let TlsStatus::App { .. } = tls_conn.state {
        tls_conn.state = TlsStatus::None;
    }
}''')]
DEMO='''
c = Conn(); assert c.connect() == -1
a = hello_of(c); c.close()
n = len(c.out)
assert c.connect() == -1
b = hello_of(c, n)
assert a['random'] != b['random']
'''
