ID='C05-ccs'; PROP='C05'
NEEDS='a server that hides handshake data behind change_cipher_spec after a protected record'
BREAKS='The type of a decrypted record is not taken from its content, so handshake data of any inner type is accepted.'
EDITS=[('src/record/read.rs', 'self.rbuf.buf[0] = self.rbuf.buf[Self::HEADER_SIZE + self.rbuf.len - 1];', 'self.rbuf.buf[0] = self.rbuf.buf[Self::HEADER_SIZE + self.rbuf.len - 1] & 0x17;')]
DEMO="\nc = Conn(); assert c.connect() == -1\nh = hello_of(c); n0 = len(c.out)\n\ns = Server(h)\nc.rx = rec(22, s.sh) + s.s.seal(0x5e, msg(8, b'\\0\\0'))\nassert c.connect() == -1\nassert c.error == 'Tls', c.error\n"
