ID='C08-alpn'; PROP='C08'
NEEDS='a protocol list of more than 255 bytes'
BREAKS='The high byte of the length of the protocol list is lost.'
EDITS=[('src/extensions/app_proto.rs','shake_buf.extend_from_slice(&(len - size_of::<u16>() as u16).to_be_bytes());',
 'shake_buf.extend_from_slice(&[0, (len - size_of::<u16>() as u16) as u8]);')]
DEMO='''
for l in (b'\\2h2', b'\\x08http/1.1\\2h2', b'\\x63' + b'x' * 99 + b'\\xf0' + b'y' * 240):
    c = Conn(protos=l); assert c.connect() == -1
    e = hello_of(c)['ext'][16]
    assert int.from_bytes(e[:2], 'big') == len(e) - 2 == len(l), e[:2]
'''
