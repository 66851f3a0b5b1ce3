"""The compiled library driven through its C interface, against a scripted transport and a small TLS 1.3
server in pure Python."""
import ctypes as C, hashlib, hmac, os, struct, sys

LIB = os.environ.get('TURTLS_SO', '/repo/target/debug/libturtls.so')
W = C.CFUNCTYPE(C.c_ssize_t, C.c_void_p, C.c_size_t, C.c_void_p)
R = C.CFUNCTYPE(C.c_ssize_t, C.c_void_p, C.c_size_t, C.c_void_p)
K = C.CFUNCTYPE(None, C.c_void_p)
ERR = ['Tls', 'TlsPeer', 'Rng', 'WantRead', 'WantWrite', 'PrivKeyIsZero', 'MissingExtensions', 'ExtensionsTooLong']


class Io(C.Structure):
    _fields_ = [('write', W), ('read', R), ('close', K), ('ctx', C.c_void_p)]


class Exts(C.Structure):
    _fields_ = [('server_name', C.c_char_p), ('sig_algs', C.c_uint16), ('sup_groups', C.c_uint16),
                ('app_protos', C.c_char_p), ('app_protos_len', C.c_size_t)]


class Config(C.Structure):
    _fields_ = [('ext', Exts), ('suites', C.c_uint8)]


lib = C.CDLL(LIB)
lib.turtls_new.restype = C.c_void_p
lib.turtls_new.argtypes = [Io]
lib.turtls_get_config.restype = C.POINTER(Config)
lib.turtls_stringify_alert.restype = C.c_char_p
lib.turtls_app_proto.restype = C.c_char_p
for f in ('turtls_free', 'turtls_connect', 'turtls_close', 'turtls_get_config', 'turtls_get_error',
          'turtls_get_tls_error', 'turtls_app_proto'):
    getattr(lib, f).argtypes = [C.c_void_p]


class Conn:
    """on_write(bytes) -> accepted amount or negative; on_read(n) -> bytes, or None for failure"""

    def __init__(self, name=b'example.org', protos=None, suites=3, sigs=1, groups=1):
        self.log = []
        self.out = b''
        self.rx = b''
        self.on_write = lambda b: len(b)
        self.on_read = None
        self.closed = 0

        def w(p, n, _):
            b = C.string_at(p, n)
            r = self.on_write(b)
            self.log.append(('w', b, r))
            if r > 0:
                self.out += b[:r]
            return r

        def r(p, n, _):
            if self.on_read:
                b = self.on_read(n)
            else:
                b = self.rx[:n] or None
                self.rx = self.rx[n:]
            self.log.append(('r', n, b))
            if b is None:
                return -1
            C.memmove(p, b, len(b))
            return len(b)

        def c(_):
            self.closed += 1
            self.log.append(('c',))
        self.cb = (W(w), R(r), K(c))
        self.p = lib.turtls_new(Io(self.cb[0], self.cb[1], self.cb[2], None))
        self.config(name, protos, suites, sigs, groups)

    def config(self, name=b'example.org', protos=None, suites=3, sigs=1, groups=1):
        self.keep = (name, protos)
        g = lib.turtls_get_config(self.p).contents
        g.ext.server_name = name
        g.ext.sig_algs = sigs
        g.ext.sup_groups = groups
        g.ext.app_protos = protos
        g.ext.app_protos_len = len(protos) if protos else 0
        g.suites = suites

    def connect(self):
        return lib.turtls_connect(self.p)

    def close(self):
        lib.turtls_close(self.p)

    def free(self):
        lib.turtls_free(self.p)

    @property
    def error(self):
        return ERR[lib.turtls_get_error(self.p)]

    @property
    def alert(self):
        return lib.turtls_get_tls_error(self.p) & 0xff


def records(b):
    """[(type, payload)], and the rest that is no whole record"""
    o = []
    while len(b) >= 5:
        n = struct.unpack('>H', b[3:5])[0]
        if len(b) < 5 + n:
            break
        assert b[1] == 3, b[:5]
        o.append((b[0], b[5:5 + n]))
        b = b[5 + n:]
    return o, b


def parse_hello(m):
    assert m[0] == 1, m[:4]
    n = int.from_bytes(m[1:4], 'big')
    assert n == len(m) - 4, ('length of the ClientHello', n, len(m) - 4)
    b = m[4:]
    assert b[:2] == b'\3\3'
    h = dict(random=b[2:34], raw=m)
    b = b[34:]
    h['sid'], b = b[1:1 + b[0]], b[1 + b[0]:]
    n = int.from_bytes(b[:2], 'big')
    h['suites'], b = [b[2 + i:4 + i] for i in range(0, n, 2)], b[2 + n:]
    h['comp'], b = b[1:1 + b[0]], b[1 + b[0]:]
    assert int.from_bytes(b[:2], 'big') == len(b) - 2, 'extensions length'
    b = b[2:]
    x = {}
    while b:
        t, n = struct.unpack('>HH', b[:4])
        assert len(b) >= 4 + n, 'extension length'
        assert t not in x, 'extension twice'
        x[t] = b[4:4 + n]
        b = b[4 + n:]
    h['ext'] = x
    return h


def hello_of(c, i=0):
    rs, rest = records(c.out[i:])
    assert not rest and rs and all(t == 22 for t, _ in rs), c.out[:16]
    return parse_hello(b''.join(p for _, p in rs))


# P-256
p = 2**256 - 2**224 + 2**192 + 2**96 - 1
n = 0xffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632551
G = (0x6b17d1f2e12c4247f8bce6e563a440f277037d812deb33a0f4a13945d898c296,
     0x4fe342e2fe1a7f9b8ee7eb4a7c0f9e162bce33576b315ececbb6406837bf51f5)


def add(P, Q):
    if P is None:
        return Q
    if Q is None:
        return P
    if P[0] == Q[0]:
        if (P[1] + Q[1]) % p == 0:
            return None
        l = (3 * P[0] * P[0] - 3) * pow(2 * P[1], -1, p)
    else:
        l = (Q[1] - P[1]) * pow(Q[0] - P[0], -1, p)
    x = (l * l - P[0] - Q[0]) % p
    return x, (l * (P[0] - x) - P[1]) % p


def mul(k, P):
    R_ = None
    while k:
        if k & 1:
            R_ = add(R_, P)
        P = add(P, P)
        k >>= 1
    return R_


def enc(P):
    return b'\4' + P[0].to_bytes(32, 'big') + P[1].to_bytes(32, 'big')


def dec(b):
    return int.from_bytes(b[1:33], 'big'), int.from_bytes(b[33:65], 'big')


# HKDF
def hm(k, m):
    return hmac.new(k, m, hashlib.sha256).digest()


def label(sec, l, ctx, n_):
    l = b'tls13 ' + l
    info = struct.pack('>HB', n_, len(l)) + l + bytes([len(ctx)]) + ctx
    o, t, i = b'', b'', 1
    while len(o) < n_:
        t = hm(sec, t + info + bytes([i]))
        o += t
        i += 1
    return o[:n_]


def sha(b):
    return hashlib.sha256(b).digest()


# ChaCha20-Poly1305
def _block(key, ctr, nonce):
    s = list(struct.unpack('<4I', b'expand 32-byte k')) + list(struct.unpack('<8I', key)) + [ctr] + list(
        struct.unpack('<3I', nonce))
    x = s[:]

    def q(a, b, c, d):
        for r1, r2 in ((16, 12), (8, 7)):
            x[a] = (x[a] + x[b]) & 0xffffffff
            x[d] ^= x[a]
            x[d] = (x[d] << r1 | x[d] >> 32 - r1) & 0xffffffff
            x[c] = (x[c] + x[d]) & 0xffffffff
            x[b] ^= x[c]
            x[b] = (x[b] << r2 | x[b] >> 32 - r2) & 0xffffffff
    for _ in range(10):
        q(0, 4, 8, 12); q(1, 5, 9, 13); q(2, 6, 10, 14); q(3, 7, 11, 15)
        q(0, 5, 10, 15); q(1, 6, 11, 12); q(2, 7, 8, 13); q(3, 4, 9, 14)
    return struct.pack('<16I', *((a + b) & 0xffffffff for a, b in zip(x, s)))


def _stream(key, nonce, m):
    o = b''
    for i in range(0, len(m), 64):
        k = _block(key, 1 + i // 64, nonce)
        o += bytes(a ^ b for a, b in zip(m[i:i + 64], k))
    return o


def _tag(key, nonce, aad, ct):
    k = _block(key, 0, nonce)[:32]
    r = int.from_bytes(k[:16], 'little') & 0x0ffffffc0ffffffc0ffffffc0fffffff
    s = int.from_bytes(k[16:], 'little')
    pad = lambda b: b + bytes(-len(b) % 16)
    m = pad(aad) + pad(ct) + struct.pack('<QQ', len(aad), len(ct))
    a = 0
    for i in range(0, len(m), 16):
        a = (a + int.from_bytes(m[i:i + 16] + b'\1', 'little')) * r % (2**130 - 5)
    return ((a + s) % 2**128).to_bytes(16, 'little')


class Keys:
    def __init__(self, secret):
        self.key = label(secret, b'key', b'', 32)
        self.iv = label(secret, b'iv', b'', 12)
        self.seq = 0

    def nonce(self):
        s = self.seq.to_bytes(12, 'big')
        self.seq += 1
        return bytes(a ^ b for a, b in zip(self.iv, s))

    def seal(self, typ, m, pad=0, length=None, outer=23):
        pt = m + bytes([typ]) + bytes(pad)
        h = bytes([outer]) + b'\3\3' + struct.pack('>H', len(pt) + 16 if length is None else length)
        nn = self.nonce()
        ct = _stream(self.key, nn, pt)
        return h + ct + _tag(self.key, nn, h, ct)

    def open(self, rec):
        """(content type, plaintext) of a protected record; raises on a bad tag"""
        h, ct, t = rec[:5], rec[5:-16], rec[-16:]
        nn = self.nonce()
        assert _tag(self.key, nn, h, ct) == t, 'the record does not authenticate'
        pt = _stream(self.key, nn, ct).rstrip(b'\0')
        return pt[-1], pt[:-1]


def msg(t, b):
    return bytes([t]) + len(b).to_bytes(3, 'big') + b


def rec(t, b, vers=b'\3\3'):
    return bytes([t]) + vers + struct.pack('>H', len(b)) + b


def ext(t, b):
    return struct.pack('>HH', t, len(b)) + b


class Server:
    """the server side up to the handshake traffic keys"""

    def __init__(self, hello, priv=0x1234567890abcdef, suite=b'\x13\x03', share=None, exts=None, sid=b'',
                 vers=b'\3\4', body=None, random=bytes(range(32)), legacy=b'\3\3'):
        ks = hello['ext'][0x33]
        pt = ks[6:6 + 65]
        self.point = enc(mul(priv, G))
        if exts is None:
            sh = share if share is not None else b'\0\x17\0\x41' + self.point
            exts = ext(43, vers) + ext(51, sh)
        if body is None:
            body = legacy + random + bytes([len(sid)]) + sid + suite + b'\0' + struct.pack('>H', len(exts)) + exts
        self.sh = msg(2, body)
        sec = mul(priv, dec(pt))[0].to_bytes(32, 'big')
        early = hm(bytes(32), bytes(32))
        hs = hm(label(early, b'derived', sha(b''), 32), sec)
        th = sha(hello['raw'] + self.sh)
        self.c = Keys(label(hs, b'c hs traffic', th, 32))
        self.s = Keys(label(hs, b's hs traffic', th, 32))
