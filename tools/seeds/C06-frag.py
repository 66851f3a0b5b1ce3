ID='C06-frag'; PROP='C06'
NEEDS='a ServerHello whose body is spread over two records or two reads'
BREAKS='The transcript is updated as the body arrives, but always from the start of the body, so a fragmented message is hashed with its first part repeated.'
EDITS=[('src/handshake.rs', """                        *amt += new_bytes;
                    }
                    self.status = ReadStatus::new();
                    transcript.update_with(&self.buf[..Self::HEADER_SIZE + self.len]);
                    return Ok(());
""", """                        *amt += new_bytes;
                        transcript.update_with(&self.buf[Self::HEADER_SIZE..Self::HEADER_SIZE + *amt]);
                    }
                    self.status = ReadStatus::new();
                    return Ok(());
"""), ('src/handshake.rs', """                    self.reserve(self.len);
                    self.status = ReadStatus::NeedsData(0);
""", """                    self.reserve(self.len);
                    transcript.update_with(&self.buf[..Self::HEADER_SIZE]);
                    self.status = ReadStatus::NeedsData(0);
""")]
DEMO="""
for cut in (4, 5, 40):
    c = Conn(); assert c.connect() == -1
    h = hello_of(c)
    s = Server(h)
    c.rx = rec(22, s.sh[:cut]) + rec(22, s.sh[cut:]) + s.s.seal(22, msg(8, bytes(2)))
    assert c.connect() == -1
    assert c.error == 'WantRead', (cut, c.error, c.alert)
"""
