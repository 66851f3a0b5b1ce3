import sys; sys.path.insert(0, '/verif/tools/demo'); import cert
ID='C21-order'; PROP='C21'
NEEDS='a certificate whose signature value r is not below the modulus'
BREAKS='r is reduced by the modulus instead of being refused.'
EDITS=[('src/certificates/x509.rs', '    let r = FieldElement::<4, Secp256r1>::try_new(r).ok_or(CertError::CertInvalid)?;', '    let r = FieldElement::<4, Secp256r1>::new(r);')]
DEMO=cert.DEMO + """
n = 2**256 - 2**224 + 2**192 + 2**96 - 1
assert outcome((cert(r=b'\\0' + (n - 1).to_bytes(32, 'big')), b'')) == 'accepted'
assert outcome((cert(r=b'\\0' + n.to_bytes(32, 'big')), b'')) == 'refused'
"""
