# key share: helpers and a different extraction
EDITS=[('src/extensions/key_share.rs', """    let raw_x = UBigInt::<4>::from_be_bytes(key_share[1..][..32].try_into().unwrap());
    let x: FieldElement<4, Secp256r1> = FieldElement::try_from(raw_x).ok()?;

    let raw_y = UBigInt::<4>::from_be_bytes(key_share[33..][..32].try_into().unwrap());
    let y: FieldElement<4, Secp256r1> = FieldElement::try_from(raw_y).ok()?;

    let mut point = AffinePoint::new(x, y)?.as_projective();
    point.mul_scalar_assign(&group_keys.secp256r1);
    let as_affine = point.as_affine().expect("private key isn't zero");
    Some(as_affine.x().to_be_bytes())
""", """    fn coordinate(bytes: &[u8]) -> Option<FieldElement<4, Secp256r1>> {
        let mut raw = [0u8; 32];
        raw.copy_from_slice(bytes);
        match FieldElement::try_from(UBigInt::<4>::from_be_bytes(raw)) {
            Ok(c) => Some(c),
            Err(_) => None,
        }
    }
    let (x, y) = key_share[1..].split_at(32);
    let peer = AffinePoint::new(coordinate(x)?, coordinate(y)?)?;
    let shared = peer.as_projective().mul_scalar(&group_keys.secp256r1);
    Some(shared.as_affine()?.x().to_be_bytes())
""")]
