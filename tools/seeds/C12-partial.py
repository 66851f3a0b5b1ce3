ID='C12-partial'; PROP='C12'
NEEDS='a transport that accepts one record in three or more pieces'
BREAKS='After the second partial write the position in the record is the size of the last piece, so bytes are sent again.'
EDITS=[('src/record/write.rs','self.wbuf.record_bytes += bytes_written as usize;','self.wbuf.record_bytes = bytes_written as usize;')]
DEMO='''
c = Conn(); assert c.connect() == -1
ref = hello_of(c)
for piece in (7, 50, 100):
    c = Conn(); c.on_write = lambda b: min(len(b), piece)
    c.connect()
    if len(c.out) > 100000: sys.exit(1)
    h = hello_of(c)
    assert set(h['ext']) == set(ref['ext'])
'''
DEMO = DEMO.replace("c = Conn(); c.on_write = lambda b: min(len(b), piece)", """c = Conn(); k = [0]
    def w(b):
        k[0] += 1
        if k[0] > 300: os._exit(1)
        return min(len(b), piece)
    c.on_write = w""")
