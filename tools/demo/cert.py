# appended to the demos of C21: what the client makes of a Certificate message. The client is known to abort
# (todo!) once it has accepted the certificates, so every attempt runs in a process of its own.
DEMO = '''
def der(t, *b, form=0):
    b = b''.join(b)
    n = len(b)
    k = form or (0 if n < 128 else (n.bit_length() + 7) // 8)
    return bytes([t]) + (bytes([n]) if k == 0 else bytes([0x80 | k]) + n.to_bytes(k, 'big')) + b

ALG = der(0x30, der(6, bytes.fromhex('2a8648ce3d040302')))
TIME = der(0x17, b'260101000000Z')

def cert(form=0, pad=0, r=None, s=b'\\1' * 32, ver=b'\\2', unused=0):
    tbs = der(0x30, der(0xa0, der(2, ver)), der(2, b'\\1'), ALG, der(0x30, bytes(pad)), der(0x30, TIME, TIME), der(0x30),
              der(0x30), der(0xa3), form=form)
    sig = der(3, bytes([unused]), der(0x30, der(2, b'\\1' * 32 if r is None else r), der(2, s)))
    return der(0x30, tbs, ALG, sig)

def outcome(*certs):
    """accepted or refused"""
    pid = os.fork()
    if pid == 0:
        os.dup2(os.open('/dev/null', os.O_WRONLY), 2)
        c = Conn(); c.connect()
        s = Server(hello_of(c))
        l = b''.join(len(x).to_bytes(3, 'big') + x + len(e).to_bytes(2, 'big') + e for x, e in certs)
        m = msg(8, bytes(2)) + msg(11, b'\\0' + len(l).to_bytes(3, 'big') + l)
        c.rx = rec(22, s.sh) + b''.join(s.s.seal(22, m[i:i + 16000]) for i in range(0, len(m), 16000))
        c.connect()
        os._exit(1 if c.error == 'Tls' else 0)
    return 'refused' if os.WEXITSTATUS(os.waitpid(pid, 0)[1]) == 1 else 'accepted'

good = cert()
assert outcome((good, b'')) == 'accepted'
assert outcome((good[:-1], b'')) == 'refused'
'''
