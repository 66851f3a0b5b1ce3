ID='C15-decode'; PROP='C15'
NEEDS='a peer that sends the alert certificate_revoked'
BREAKS='The alert certificate_revoked of the peer is reported as certificate_expired.'
EDITS=[('src/alert.rs','x if x == CertRevoked as u8 => CertRevoked,','x if x == CertRevoked as u8 => CertExpired,')]
DEMO='''
for a in (0, 10, 20, 22, 40, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 70, 71, 80, 86, 90, 109, 110, 112, 113, 115, 116, 120):
    c = Conn(); c.rx = rec(21, bytes([2, a]))
    assert c.connect() == -1
    assert c.error == 'TlsPeer' and c.alert == a, (a, c.alert)
'''
