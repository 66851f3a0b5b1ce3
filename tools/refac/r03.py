# nonce by index loop in a helper
EDITS=[('src/aead.rs', """        let mut init_vec = self.read_iv;
        let counter = self.read_nonce.to_be_bytes();
        for (byte_1, byte_2) in init_vec.iter_mut().rev().zip(counter.into_iter().rev()) {
            *byte_1 ^= byte_2;
        }
        // overflow must not happen
        self.read_nonce = self.read_nonce.checked_add(1).unwrap();
""", """        let init_vec = Self::nonce(&self.read_iv, self.read_nonce);
        // overflow must not happen
        self.read_nonce = match self.read_nonce.checked_add(1) {
            Some(n) => n,
            None => panic!("the nonce must not repeat"),
        };
"""), ('src/aead.rs', """    pub(crate) fn decrypt_inline(
        &mut self,
        msg: &mut [u8],
        add_data: &[u8],
        tag: &[u8; TAG_SIZE],
    ) -> Result<(), BadData> {
""", """    fn nonce(iv: &[u8; IV_SIZE], count: u64) -> [u8; IV_SIZE] {
        let mut nonce = *iv;
        let count = count.to_be_bytes();
        for i in 0..count.len() {
            nonce[IV_SIZE - count.len() + i] ^= count[i];
        }
        nonce
    }

    pub(crate) fn decrypt_inline(
        &mut self,
        msg: &mut [u8],
        add_data: &[u8],
        tag: &[u8; TAG_SIZE],
    ) -> Result<(), BadData> {
""")]
