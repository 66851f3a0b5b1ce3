ID='C09-version'; PROP='C09'
NEEDS='a supported_versions extension of three bytes, the first two of which are TLS 1.3'
BREAKS='A malformed selection of the version is accepted.'
EDITS=[('src/extensions/versions.rs', 'if version.len() != size_of', 'if version.len() < size_of')]
DEMO=r"""
c = Conn(); assert c.connect() == -1
h = hello_of(c)
s = Server(h, vers=b'\3\4\0')
c.rx = rec(22, s.sh)
assert c.connect() == -1
assert c.error == 'Tls', c.error
"""
