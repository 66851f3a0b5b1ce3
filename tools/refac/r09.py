# read_inner split into two functions
EDITS=[('src/handshake.rs', """        loop {
            match self.status {
                ReadStatus::NeedsHeader(ref mut amt) => {
                    if *amt == 0 {
                        get_fn(rl)?;
                        if rl.msg_type() == ContentType::ChangeCipherSpec.to_byte() {
                            rl.check_change_cipher_spec()?;
                            rl.discard();
                            get_fn(rl)?;
                        }
                    }
                    while *amt < Self::HEADER_SIZE {
                        get_fn(rl)?;
                        Self::check_record(rl)?;
                        let new_bytes = rl.read_remaining(&mut self.buf[*amt..Self::HEADER_SIZE]);
                        if new_bytes == 0 {
                            return Err(FullError::sending_alert(TurtlsAlert::IllegalParam));
                        }
                        *amt += new_bytes;
                    }
""", """        let mut more = |rl: &mut RecordLayer, dst: &mut [u8]| -> Result<usize, FullError> {
            get_fn(rl)?;
            Self::check_record(rl)?;
            match rl.read_remaining(dst) {
                0 => Err(FullError::sending_alert(TurtlsAlert::IllegalParam)),
                n => Ok(n),
            }
        };
        loop {
            match self.status {
                ReadStatus::NeedsHeader(ref mut amt) => {
                    while *amt < Self::HEADER_SIZE {
                        *amt += more(rl, &mut self.buf[*amt..Self::HEADER_SIZE])?;
                    }
"""), ('src/handshake.rs', """                    while *amt < self.len {
                        get_fn(rl)?;
                        Self::check_record(rl)?;
                        let new_bytes = rl.read_remaining(
                            &mut self.buf[Self::HEADER_SIZE + *amt..Self::HEADER_SIZE + self.len],
                        );
                        if new_bytes == 0 {
                            return Err(FullError::sending_alert(TurtlsAlert::IllegalParam));
                        }
                        *amt += new_bytes;
                    }
""", """                    let end = Self::HEADER_SIZE + self.len;
                    while *amt < self.len {
                        *amt += more(rl, &mut self.buf[Self::HEADER_SIZE + *amt..end])?;
                    }
"""), ('src/handshake.rs', """        let get_fn = RecordLayer::get_raw;
        self.read_inner(expected.to_byte(), rl, get_fn, transcript)
""", """        if matches!(self.status, ReadStatus::NeedsHeader(0)) {
            rl.get_raw()?;
            if rl.msg_type() == ContentType::ChangeCipherSpec.to_byte() {
                rl.check_change_cipher_spec()?;
                rl.discard();
                rl.get_raw()?;
            }
        }
        self.read_inner(expected.to_byte(), rl, RecordLayer::get_raw, transcript)
"""), ('src/handshake.rs', """        let get_fn = |rl: &mut RecordLayer| RecordLayer::get(rl, aead);
        self.read_inner(expected.to_byte(), rl, get_fn, transcript)
""", """        if matches!(self.status, ReadStatus::NeedsHeader(0)) {
            rl.get(aead)?;
            if rl.msg_type() == ContentType::ChangeCipherSpec.to_byte() {
                rl.check_change_cipher_spec()?;
                rl.discard();
                rl.get(aead)?;
            }
        }
        self.read_inner(expected.to_byte(), rl, |rl: &mut RecordLayer| rl.get(aead), transcript)
""")]
