ID='C02-iv'; PROP='C02'
NEEDS='a protected alert of the client'
BREAKS='Records of the client are sealed with the IV of the server, so the peer cannot open them.'
EDITS=[('src/aead.rs', 'let mut init_vec = self.write_iv;', 'let mut init_vec = self.read_iv;')]
DEMO="\nc = Conn(); assert c.connect() == -1\nh = hello_of(c); n0 = len(c.out)\n\ns = Server(h)\nc.rx = rec(22, s.sh) + s.s.seal(22, msg(9, b'\\0\\0'))\nassert c.connect() == -1\nb = c.out[n0:]\nassert s.c.open(b) == (21, b'\\2\\x0a'), b\n"
