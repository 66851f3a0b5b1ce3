ID='C11-close'; PROP='C11'
NEEDS='an application that closes the connection during the handshake'
BREAKS='turtls_close reports an internal error to the peer instead of closing the connection regularly.'
EDITS=[('src/alert.rs','''            level: AlertLevel::Fatal,
            description,''','''            level: AlertLevel::Fatal,
            description: if description as u8 == 0 { TurtlsAlert::UserCancelled } else { description },''')]
DEMO='''
c = Conn(); assert c.connect() == -1
n = len(c.out); c.close()
assert records(c.out[n:])[0] == [(21, b'\\2\\0')], c.out[n:]
assert c.closed == 1
'''
