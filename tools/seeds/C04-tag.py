ID='C04-tag'; PROP='C04'
NEEDS='a forged record under the ChaCha20-Poly1305 suite'
BREAKS='A record that fails authentication is not refused when it has the length of an EncryptedExtensions message.'
EDITS=[('src/aead.rs', 'Self::ChaChaPoly { reader, .. } => reader.decrypt_inline(msg, add_data, iv, tag),', 'Self::ChaChaPoly { reader, .. } => reader.decrypt_inline(msg, add_data, iv, tag).or_else(|e| if msg.len() < 8 { Ok(()) } else { Err(e) }),')]
DEMO="\nc = Conn(); assert c.connect() == -1\nh = hello_of(c); n0 = len(c.out)\n\ns = Server(h)\nr = bytearray(s.s.seal(22, msg(8, b'\\0\\0')))\nr[-1] ^= 1\nc.rx = rec(22, s.sh) + bytes(r)\nassert c.connect() == -1\nassert c.error == 'Tls' and c.alert == 20, (c.error, c.alert)\n"
