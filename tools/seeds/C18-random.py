ID='C18-random'; PROP='C18'
NEEDS='comparing several hellos: only the last four bytes of the random are fixed'
BREAKS='Four bytes of the random of the ClientHello are not random.'
EDITS=[('src/client_hello.rs','if let Err(_) = getrandom(&mut random_bytes) {','if let Err(_) = getrandom(&mut random_bytes[..RANDOM_BYTES_LEN - 4]) {')]
DEMO='''
r = []
for i in range(8):
    c = Conn(); c.connect(); r.append(hello_of(c)['random'])
for i in range(32):
    assert len({x[i] for x in r}) > 1, i
'''
