ID='C10-field'; PROP='C10'
NEEDS='a key share whose x coordinate is not below the field prime although it stands for a point of the curve'
BREAKS='The x coordinate is reduced instead of being refused when it is not below the prime.'
EDITS=[('src/extensions/key_share.rs', 'FieldElement::try_from(raw_x).ok()?', 'FieldElement::<4, _>::new(raw_x)')]
DEMO="""
b = 0x5ac635d8aa3a93e7b3ebbd55769886bc651d06b0cc53b0f63bce3c3e27d2604b
x = 5
while True:
    r = (x ** 3 - 3 * x + b) % p
    y = pow(r, (p + 1) // 4, p)
    if y * y % p == r:
        break
    x += 1
for off, want in ((0, 'WantRead'), (p, 'Tls')):
    c = Conn(); assert c.connect() == -1
    h = hello_of(c)
    s = Server(h, share=b'\\0\\x17\\0\\x41\\4' + (x + off).to_bytes(32, 'big') + y.to_bytes(32, 'big'))
    c.rx = rec(22, s.sh)
    assert c.connect() == -1
    assert c.error == want, (off, c.error)
"""
