ID='C07-aes'; PROP='C07'
NEEDS='a server that selects TLS_AES_128_GCM_SHA256'
BREAKS='With AES-128-GCM the key that opens records of the server is derived from the secret of the client.'
EDITS=[('src/aead.rs', """                let mut read_key = [0; Aes128::KEY_SIZE];
                key_schedule::hkdf_expand_label(&mut read_key, read_secret, b"key", b"");
""", """                let mut read_key = [0; Aes128::KEY_SIZE];
                key_schedule::hkdf_expand_label(&mut read_key, write_secret, b"key", b"");
""")]
DEMO="""
def xt(a):
    return (a << 1 ^ (0x11b if a & 128 else 0)) & 0xff

def gm(a, b):
    r = 0
    while b:
        if b & 1:
            r ^= a
        a = xt(a); b >>= 1
    return r

SB = []
for i in range(256):
    x = next((j for j in range(256) if gm(i, j) == 1), 0)
    r = 0x63
    for k in range(5):
        r ^= (x << k | x >> 8 - k) & 0xff
    SB.append(r)

def aes(key, b):
    w = [list(key[i:i + 4]) for i in range(0, 16, 4)]
    rc = 1
    for i in range(4, 44):
        t = w[-1]
        if i % 4 == 0:
            t = [SB[x] for x in t[1:] + t[:1]]
            t[0] ^= rc; rc = xt(rc)
        w.append([x ^ y for x, y in zip(w[i - 4], t)])
    ks = [sum(w[i:i + 4], []) for i in range(0, 44, 4)]
    s = [x ^ y for x, y in zip(b, ks[0])]
    for r in range(1, 11):
        s = [SB[x] for x in s]
        s = [s[(i + 4 * (i % 4)) % 16] for i in range(16)]
        if r < 10:
            o = []
            for i in range(0, 16, 4):
                a = s[i:i + 4]
                o += [gm(a[j], 2) ^ gm(a[(j + 1) % 4], 3) ^ a[(j + 2) % 4] ^ a[(j + 3) % 4] for j in range(4)]
            s = o
        s = [x ^ y for x, y in zip(s, ks[r])]
    return bytes(s)

assert aes(bytes(range(16)), bytes.fromhex('00112233445566778899aabbccddeeff')).hex() == '69c4e0d86a7b0430d8cdb78070b4c55a'

def mulg(x, y):
    z = 0
    for i in range(127, -1, -1):
        if x >> i & 1:
            z ^= y
        y = y >> 1 ^ (0xe1 << 120 if y & 1 else 0)
    return z

def gcm(key, nonce, aad, pt):
    H = int.from_bytes(aes(key, bytes(16)), 'big')
    ct = b''
    for i in range(0, len(pt), 16):
        k = aes(key, nonce + (2 + i // 16).to_bytes(4, 'big'))
        ct += bytes(a ^ b for a, b in zip(pt[i:i + 16], k))
    pad = lambda b: b + bytes(-len(b) % 16)
    m = pad(aad) + pad(ct) + (8 * len(aad)).to_bytes(8, 'big') + (8 * len(ct)).to_bytes(8, 'big')
    g = 0
    for i in range(0, len(m), 16):
        g = mulg(g ^ int.from_bytes(m[i:i + 16], 'big'), H)
    t = g ^ int.from_bytes(aes(key, nonce + bytes([0, 0, 0, 1])), 'big')
    return ct + t.to_bytes(16, 'big')

c = Conn(); assert c.connect() == -1
h = hello_of(c)
sv = Server(h, suite=b'\\x13\\x01')
th = sha(h['raw'] + sv.sh)
# the traffic secret of the server, as Server() derives it
sec = mul(0x1234567890abcdef, dec(h['ext'][0x33][6:6 + 65]))[0].to_bytes(32, 'big')
hs = hm(label(hm(bytes(32), bytes(32)), b'derived', sha(b''), 32), sec)
st = label(hs, b's hs traffic', th, 32)
pt = msg(8, bytes(2)) + b'\\x16'
hd = bytes([23, 3, 3]) + (len(pt) + 16).to_bytes(2, 'big')
c.rx = rec(22, sv.sh) + hd + gcm(label(st, b'key', b'', 16), label(st, b'iv', b'', 12), hd, pt)
assert c.connect() == -1
assert c.error == 'WantRead', (c.error, c.alert)
"""
