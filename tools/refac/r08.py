# client hello: helper functions, reordered statements
EDITS=[('src/client_hello.rs', """    shake_buf.start(ShakeType::ClientHello);

    shake_buf.extend_from_slice(&LEGACY_PROTO_VERS.to_be_bytes());

    let mut random_bytes = [0; RANDOM_BYTES_LEN];
    if let Err(_) = getrandom(&mut random_bytes) {
        return Err(TurtlsError::Rng);
    }
    shake_buf.extend_from_slice(&random_bytes);
""", """    let random = new_random()?;

    shake_buf.start(ShakeType::ClientHello);
    for byte in LEGACY_PROTO_VERS.to_be_bytes() {
        shake_buf.push(byte);
    }
    shake_buf.extend_from_slice(&random);
"""), ('src/client_hello.rs', """pub(crate) fn client_hello_client(""", """fn new_random() -> Result<[u8; RANDOM_BYTES_LEN], TurtlsError> {
    let mut bytes = [0u8; RANDOM_BYTES_LEN];
    match getrandom(&mut bytes) {
        Ok(()) => Ok(bytes),
        Err(_) => Err(TurtlsError::Rng),
    }
}

pub(crate) fn client_hello_client("""), ('src/handshake.rs', """    pub(crate) fn push(&mut self, value: u8) {
        self.reserve(self.len + 1);
        self.buf[self.len + Self::HEADER_SIZE] = value;
        self.len += 1;
    }
""", """    pub(crate) fn push(&mut self, value: u8) {
        self.extend_from_slice(&[value]);
    }
""")]
