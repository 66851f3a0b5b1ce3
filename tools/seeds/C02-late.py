ID='C02-late'; PROP='C02'
NEEDS='more than 256 records of the server under one key'
BREAKS='The counter in the nonce of received records wraps after 256 records, so nonces repeat and later records do not open.'
EDITS=[('src/aead.rs', 'let counter = self.read_nonce.to_be_bytes();', 'let counter = (self.read_nonce & 0xff).to_be_bytes();')]
DEMO="\nc = Conn(); assert c.connect() == -1\nh = hello_of(c); n0 = len(c.out)\n\ns = Server(h, suite=b'\\x13\\x03')\nc.rx = rec(22, s.sh) + s.s.seal(22, msg(8, b'\\0\\0'))\nbig = msg(11, bytes(600))\nfor b in big[:400]: c.rx += s.s.seal(22, bytes([b]))\nassert c.connect() == -1\nassert c.error == 'WantRead', c.error\n"
