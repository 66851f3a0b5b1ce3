ID='C19-fragment'; PROP='C19'
NEEDS='a ClientHello longer than a record (a server name of more than 16 kB)'
BREAKS='The records of a long message carry one byte more than the protocol allows.'
EDITS=[('src/record/write.rs','''        self.set_msg_type(msg_type);
        while self.wbuf.total_bytes < buf.len() {
            let record_size = std::cmp::min(buf.len() - self.wbuf.total_bytes, Self::MAX_LEN);''','''        self.set_msg_type(msg_type);
        while self.wbuf.total_bytes < buf.len() {
            let record_size = std::cmp::min(buf.len() - self.wbuf.total_bytes, Self::MAX_LEN + 1);''')]
DEMO='''
for n in (11, 16000, 16300, 20000, 40000):
    c = Conn(name=b'a' * n); assert c.connect() == -1 and c.error == 'WantRead'
    for t, p in records(c.out)[0]:
        assert 0 < len(p) <= 1 << 14, len(p)
    assert len(hello_of(c)['ext'][0]) == n + 5
'''
